// Concurrent replay.  A forked child runs the ordinary single-threaded workload and records every execution
// (entry, operands, result).  The parent, which has executed nothing of the library yet, replays the record on
// several threads: first every entry for the first time on all threads at once, then everything in a different
// order per thread with injected delays, then once more on shared read-only operand objects.  Every result must
// be the recorded one; in the ThreadSanitizer build every unsynchronised access to shared state is reported too.
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <errno.h>
#include <alloca.h>
#include <time.h>
#include <fenv.h>
#include <clocale>
#include <iostream>
#include <mpfr.h>

struct ThrRec { void (*fn)(const u128 *, u128 *); int ent; std::vector<u128> in, out; };
enum { THR_BUF = 256 };
static const u128 THR_FILL = ((u128)0xA5C3A5C3A5C3A5C3ull << 64) | 0xA5C3A5C3A5C3A5C3ull;
static int thr_fd = -1;
static std::map<const VtEntry *, std::pair<uint64_t, std::vector<ThrRec> > > thr_log;   // child only
static uint64_t thr_cap = 96;
static const VtEntry *thr_base = 0;

// process (and, for MPFR, thread) state an operation has no business with: it must neither depend on it nor leave it changed
struct ThrState {
    long lo, hi, prec; int rnd, fe; long ios[9]; std::string loc;
    ThrState(bool streams) : lo(mpfr_get_emin()), hi(mpfr_get_emax()), prec(mpfr_get_default_prec()), rnd(mpfr_get_default_rounding_mode()), fe(fegetround())
    {
        memset(ios, 0, sizeof ios);
        if (!streams) return;
        std::ostream *o[3] = { &std::cout, &std::cerr, &std::clog };
        for (int i = 0; i < 3; i++) { ios[3 * i] = (long)o[i]->flags(); ios[3 * i + 1] = o[i]->precision(); ios[3 * i + 2] = (o[i]->fill() & 255) | (long)o[i]->width() << 8; }
        loc = setlocale(LC_ALL, 0);
    }
    const char *differs(const ThrState &b) const
    {
        if (lo != b.lo || hi != b.hi) return "the MPFR exponent range";
        if (prec != b.prec) return "the MPFR default precision";
        if (rnd != b.rnd) return "the MPFR default rounding mode";
        if (fe != b.fe) return "the floating-point rounding mode";
        if (memcmp(ios, b.ios, sizeof ios)) return "the format of a standard stream";
        if (loc != b.loc) return "the locale";
        return 0;
    }
};
static void thr_ambient(Rng &q)
{
    mpfr_set_default_prec((mpfr_prec_t)q.range(2, 400)); mpfr_set_default_rounding_mode((mpfr_rnd_t)q.below(5));
    mpfr_clear_flags();
    if (q.one_in(2)) mpfr_set_underflow();
    if (q.one_in(2)) mpfr_set_overflow();
    if (q.one_in(2)) mpfr_set_inexflag();
    if (q.one_in(2)) mpfr_set_erangeflag();
    if (q.one_in(2)) mpfr_set_nanflag();
    errno = (int)q.below(40);
}
static uint64_t thr_watched = 0;

static int thr_used(const u128 *o) { int n = THR_BUF; while (n && o[n - 1] == THR_FILL) n--; return n; }
static void thr_record(Ctx *c, void (*fn)(const u128 *, u128 *), const u128 *in, int nin, u128 *out)
{
    static u128 buf[THR_BUF];
    for (int i = 0; i < THR_BUF; i++) buf[i] = THR_FILL;
    {
        ThrState before(true);
        fn(in, buf);
        ThrState after(true);
        thr_watched++;
        if (const char *w = after.differs(before)) c->violation("state-changed", std::string("the call changed ") + w + ", in: " + hex(in[0]) + (nin > 1 ? " " + hex(in[1]) : ""));
    }
    for (int i = 0; i < THR_BUF; i++) if (buf[i] != THR_FILL) out[i] = buf[i];
    std::pair<uint64_t, std::vector<ThrRec> > &l = thr_log[c->e];
    uint64_t k = l.first++;
    ThrRec r; r.fn = fn; r.ent = (int)(c->e - thr_base);
    r.in.assign(in, in + nin); r.out.assign(buf, buf + thr_used(buf));
    if (l.second.size() < thr_cap) l.second.push_back(r);
    else { static Rng q(7); uint64_t j = q.below(k + 1); if (j < thr_cap) l.second[j] = r; }
}
static void thr_put(const void *p, size_t n)
{
    const char *c = (const char *)p;
    while (n) { ssize_t k = write(thr_fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; fprintf(stderr, "oracle: pipe\n"); _exit(2); } c += k; n -= k; }
}
static bool thr_get(int fd, void *p, size_t n)
{
    char *c = (char *)p;
    while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; }
    return true;
}
static void thr_flush()
{
    for (auto &l : thr_log) for (auto &r : l.second.second) {
        int h[3] = { r.ent, (int)r.in.size(), (int)r.out.size() };
        thr_put(&r.fn, sizeof r.fn); thr_put(h, sizeof h);
        thr_put(r.in.data(), r.in.size() * sizeof(u128)); thr_put(r.out.data(), r.out.size() * sizeof(u128));
    }
    close(thr_fd);
}

// ---- replay
extern "C" { int vt_pool_mode = 0; }                    // 0 private operands, 1 create shared ones, 2 use them
static std::vector<int (*)()> &thr_pools() { static std::vector<int (*)()> v; return v; }
void vt_pool_register(int (*check)()) { thr_pools().push_back(check); }
enum { THR_N = 6 };
static std::vector<ThrRec> thr_recs;
static std::vector<std::pair<size_t, size_t> > thr_groups;          // records of one entry
static pthread_barrier_t thr_bar;
static volatile int thr_phase;
static uint64_t thr_seed;
static struct ThrOut { uint64_t calls, bad, delays, cold; char pad[96]; } thr_out[THR_N];
static volatile int thr_now = 0, thr_overlap = 0;
static const std::vector<VtEntry> *thr_es;

static void __attribute__((noinline)) thr_dirty(int pat, size_t n) { volatile char *p = (volatile char *)alloca(n); for (size_t i = 0; i < n; i += 1) p[i] = (char)pat; }
static void thr_say(const ThrRec &r, const char *key, const std::string &d)
{
    if (__sync_fetch_and_add(&thr_out[0].bad, 1) > 40) return;
    printf("VIOL\t%s/%s\t%s\n", entry_name((*thr_es)[r.ent]).c_str(), key, d.c_str()); fflush(stdout);
}
static void __attribute__((noinline)) thr_one(int t, const ThrRec &r, Rng &q)
{
    u128 buf[THR_BUF];
    for (int i = 0; i < THR_BUF; i++) buf[i] = THR_FILL;
    std::vector<u128> in = r.in;
    thr_dirty((int)q.next(), 64 + q.below(6000));
    if (sigsetjmp(g_jmp, 0)) {
        g_armed = 0; __sync_fetch_and_sub(&thr_now, 1);
        std::string d; for (u128 v : r.in) d += " " + hex(v);
        thr_say(r, "crash-concurrent", std::string("thread ") + std::to_string(t) + " died with " + strsignal(g_sig) + " on in:" + d + ", which the sequential run survived");
        return;
    }
    g_calls = g_calls + 1;
    int now = __sync_add_and_fetch(&thr_now, 1); if (now > 1) __sync_fetch_and_add(&thr_overlap, 1);
    if (thr_phase) thr_ambient(q);
    ThrState before(false);
    g_armed = 1; r.fn(in.data(), buf); g_armed = 0;
    ThrState after(false);
    if (const char *w = after.differs(before)) thr_say(r, "state-changed", std::string("the call changed ") + w);
    __sync_fetch_and_sub(&thr_now, 1);
    thr_out[t].calls++;
    int n = thr_used(buf);
    bool same = n == (int)r.out.size();
    for (int i = 0; same && i < n; i++) same = buf[i] == r.out[i];
    if (!same) {
        std::string d = "in:"; for (u128 v : r.in) d += " " + hex(v);
        for (int i = 0; i < THR_BUF; i++) { u128 w = i < (int)r.out.size() ? r.out[i] : THR_FILL; if (buf[i] != w) { d += "; result[" + std::to_string(i) + "] recorded " + hex(w) + " now " + hex(buf[i]); break; } }
        thr_say(r, vt_pool_mode ? "shared-operands-differ" : thr_phase ? "reordered-differ" : "concurrent-differ", d + " (thread " + std::to_string(t) + ")");
    }
    if (in != r.in) thr_say(r, "input-modified", "operand words changed");
}
static void thr_delay(int t, Rng &q)
{
    switch (q.below(24)) {
    case 0: sched_yield(); thr_out[t].delays++; break;
    case 1: { volatile int x = 0; for (uint64_t i = q.below(4000); i; i--) x = x + 1; thr_out[t].delays++; break; }
    case 2: if (q.one_in(60)) { struct timespec s = { 0, (long)q.below(80000) }; nanosleep(&s, 0); thr_out[t].delays++; } break;
    default: break;
    }
}
static void *thr_main(void *a)
{
    int t = (int)(intptr_t)a;
    Rng q(thr_seed * 977 + t * 131 + thr_phase);
    if (thr_phase == 0) {                              // first use: all threads enter the same entry at the same time
        for (auto &g : thr_groups) {
            pthread_barrier_wait(&thr_bar);
            size_t n = g.second - g.first, k = n < 8 ? n : 8, o = q.below(n);
            for (size_t i = 0; i < k; i++) thr_one(t, thr_recs[g.first + (t & 1 ? (o + i) % n : i)], q);
            thr_out[t].cold++;
        }
        return 0;
    }
    std::vector<uint32_t> ord(thr_recs.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = (uint32_t)i;
    if (t % 3 == 1) std::reverse(ord.begin(), ord.end());
    else if (t % 3 == 2) for (size_t i = 0; i < ord.size(); i++) std::swap(ord[i], ord[(ord.size() / 2 + i * 7) % ord.size()]);
    else {                                              // neighbours stay together: several threads on the same entry
        for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[q.below(i)]);
        if (t) std::sort(ord.begin(), ord.end(), [](uint32_t x, uint32_t y) { return thr_recs[x].ent < thr_recs[y].ent; });
    }
    for (uint32_t i : ord) { thr_one(t, thr_recs[i], q); thr_delay(t, q); }
    return 0;
}
static void thr_run()
{
    pthread_t th[THR_N];
    for (int t = 0; t < THR_N; t++) if (pthread_create(&th[t], 0, thr_main, (void *)(intptr_t)t)) { fprintf(stderr, "oracle: pthread_create\n"); _exit(2); }
    for (int t = 0; t < THR_N; t++) pthread_join(th[t], 0);
}
// true in the child, which goes on with the ordinary workload
static bool thr_child(uint64_t seed, int tier, const std::vector<VtEntry> &es, int &rc)
{
    thr_es = &es; thr_base = es.data(); thr_seed = seed; if (tier) thr_cap = 600;
    int p[2];
    if (pipe(p)) { fprintf(stderr, "oracle: pipe\n"); rc = 2; return false; }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "oracle: fork\n"); rc = 2; return false; }
    if (!pid) { close(p[0]); thr_fd = p[1]; return true; }
    close(p[1]);
    for (;;) {
        ThrRec r; int h[3];
        if (!thr_get(p[0], &r.fn, sizeof r.fn)) break;
        if (!thr_get(p[0], h, sizeof h)) break;
        r.ent = h[0]; r.in.resize(h[1]); r.out.resize(h[2]);
        if (!thr_get(p[0], r.in.data(), h[1] * sizeof(u128)) || !thr_get(p[0], r.out.data(), h[2] * sizeof(u128))) break;
        thr_recs.push_back(r);
    }
    close(p[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = WIFEXITED(st) ? WEXITSTATUS(st) : 3; return false; }
    std::stable_sort(thr_recs.begin(), thr_recs.end(), [](const ThrRec &a, const ThrRec &b) { return a.ent < b.ent; });
    for (size_t i = 0; i < thr_recs.size(); ) { size_t j = i; while (j < thr_recs.size() && thr_recs[j].ent == thr_recs[i].ent) j++; thr_groups.push_back(std::make_pair(i, j)); i = j; }
    if (thr_recs.size()) {
        pthread_barrier_init(&thr_bar, 0, THR_N);
        for (thr_phase = 0; thr_phase < 2; thr_phase++) thr_run();
        uint64_t seq = thr_out[0].calls;
        vt_pool_mode = 1; { Rng q(5); for (auto &r : thr_recs) thr_one(0, r, q); }
        vt_pool_mode = 2; thr_run();
        (void)seq;
        int changed = 0; for (auto f : thr_pools()) changed += f();
        if (changed) printf("VIOL\tshared/operand-modified\t%d shared operand objects were changed by an operation\n", changed);
    }
    uint64_t calls = 0, del = 0, cold = 0; for (auto &o : thr_out) { calls += o.calls; del += o.delays; cold += o.cold; }
    printf("STAT\tviolations\t%llu\n", (unsigned long long)thr_out[0].bad);
    printf("BUCKET\trecorded_executions\t%llu\nBUCKET\tconcurrent_replays\t%llu\nBUCKET\tinjected_delays\t%llu\nBUCKET\tconcurrent_first_uses\t%llu\nBUCKET\toverlapping_calls_observed\t%llu\n",
           (unsigned long long)thr_recs.size(), (unsigned long long)calls, (unsigned long long)del, (unsigned long long)cold, (unsigned long long)thr_overlap);
    printf("BUCKET\tshared_operand_pools\t%llu\n", (unsigned long long)thr_pools().size());
    printf("DONE\n"); fflush(stdout);
    return false;
}
