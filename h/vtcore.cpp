#include "vtcore.hpp"
#include <algorithm>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <execinfo.h>

static std::vector<VtEntry> &entries() { static std::vector<VtEntry> v; return v; }
void vt_register(const VtEntry &e) { entries().push_back(e); }

std::string hex(u128 v)
{
    char b[40]; uint64_t h = (uint64_t)(v >> 64), l = (uint64_t)v;
    if (h) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)h, (unsigned long long)l);
    else snprintf(b, sizeof b, "0x%llx", (unsigned long long)l);
    return b;
}
u128 maskw(int n) { return n <= 0 ? 0 : n >= 128 ? ~(u128)0 : (((u128)1) << n) - 1; }
static uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hash64(const u128 *p, int n, uint64_t h)
{
    for (int i = 0; i < n; i++) {
        h = mix(h ^ (uint64_t)p[i]) + 0x9E3779B97F4A7C15ull;
        h = mix(h ^ (uint64_t)(p[i] >> 64)) + 0x9E3779B97F4A7C15ull;
    }
    return h;
}

static std::string entry_name(const VtEntry &e)
{
    std::string s = e.op;
    s += "<";
    for (int i = 0; i < e.np; i++) { if (i) s += ","; s += std::to_string(e.p[i]); }
    return s + ">";
}

// ------------------------------------------------------------------ crash monitor
#ifdef VT_THR
#define VT_TLS thread_local
#else
#define VT_TLS
#endif
static VT_TLS sigjmp_buf g_jmp;
static VT_TLS volatile sig_atomic_t g_armed = 0;
static VT_TLS volatile sig_atomic_t g_sig = 0;
static Ctx *g_ctx = 0;
static const u128 *g_in = 0;
static int g_nin = 0;

static void report_current(const char *what)
{
    // death callback of a sanitizer runtime, or an unexpected death
    if (g_ctx && g_in) {
        std::string d;
        for (int i = 0; i < g_nin; i++) d += " " + hex(g_in[i]);
        printf("VIOL\t%s/%s\tin:%s\n", g_ctx->name.c_str(), what, d.c_str());
        fflush(stdout);
    }
}
static void on_sig(int s)
{
    if (g_armed) { g_sig = s; siglongjmp(g_jmp, 1); }
    report_current(s == SIGXCPU ? "no-termination" : "crash-outside-call");
    _exit(s == SIGXCPU ? 4 : 3);
}
// CPU-time watchdog: one library call that never returns is reported instead of eating the shard's budget
static volatile unsigned long g_calls = 0;
static void on_tick(int)
{
    static unsigned long last = 0; static int stuck = 0;
    if (g_armed && g_calls == last) { if (++stuck >= 20) { report_current("no-termination"); _exit(4); } }
    else { stuck = 0; last = g_calls; }
}
static void on_xcpu(int)
{
    report_current("no-termination");
    _exit(4);
}
#ifdef VT_MSAN
extern "C" { void __msan_unpoison(const volatile void *, size_t); void __msan_unpoison_param(size_t); long __msan_test_shadow(const volatile void *, size_t); }
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(VT_SAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { report_current("sanitizer"); }
#endif

#ifdef VT_THR
#include "vtthr.hpp"
#endif
bool Ctx::call_fn(void (*fn)(const u128 *, u128 *), const u128 *in, int nin, u128 *out)
{
    g_ctx = this; g_in = in; g_nin = nin;
    if (sigsetjmp(g_jmp, 0)) {
        g_armed = 0;
        crashes_entry++;
        std::string d;
        for (int i = 0; i < nin; i++) d += " " + hex(in[i]);
        violation("crash", std::string("died with ") + strsignal(g_sig) + " (assertion or trap) on in:" + d);
        return false;
    }
    g_calls = g_calls + 1;
#ifdef VT_MSAN
    // the driver is not instrumented: hand over initialised operands, and look at the initialisedness of what comes back
    __msan_unpoison(in, nin * sizeof(u128)); __msan_unpoison(out, 64 * sizeof(u128)); __msan_unpoison_param(2);
#endif
    g_armed = 1;
#ifdef VT_THR
    thr_record(this, fn, in, nin, out);
#else
    fn(in, out);
#endif
    g_armed = 0;
#ifdef VT_MSAN
    if (__msan_test_shadow(out, 64 * sizeof(u128)) >= 0) { violation("uninitialised", "the result depends on indeterminate bits, in: " + hex(in[0]) + (nin > 1 ? " " + hex(in[1]) : "")); __msan_unpoison(out, 64 * sizeof(u128)); }
#endif
    g_in = 0;
    return true;
}
#ifdef VT_META
static bool vt_busy = false;
#include "vtmeta.hpp"
bool Ctx::call(const u128 *in, int nin, u128 *out)
{
    bool ok = call_fn(e->fn, in, nin, out);
    if (ok) meta_after(this, e->fn, in, nin);
    return ok;
}
#else
bool Ctx::call(const u128 *in, int nin, u128 *out) { return call_fn(e->fn, in, nin, out); }
#endif

void Ctx::begin(const VtEntry *x, uint64_t seed)
{
    e = x; name = entry_name(*x);
    uint64_t h = seed * 0x9E3779B97F4A7C15ull + 77;
    for (char ch : name) h = mix(h ^ (unsigned char)ch) + 0x9E3779B97F4A7C15ull;
    rng = Rng(h);
    viols_entry = crashes_entry = 0;
    sample_budget = 1;
    tab.assign(1 << 16, 0); tabn = 0;
}
void Ctx::end() {}
void Ctx::violation(const std::string &key, const std::string &detail)
{
    viols++; viols_entry++;
    std::string k = name + "/" + key;
#ifdef VT_MSAN
    if (key != "uninitialised" && key != "sanitizer") return;   // values are the other builds' business; the text is built by code MSan does not see
    __msan_unpoison(k.data(), k.size() + 1); __msan_unpoison(detail.data(), detail.size() + 1);
#endif
    if (vkeys[k]++ < 5) {
        printf("VIOL\t%s\t%s\n", k.c_str(), detail.c_str());
        fflush(stdout);
    }
}
void Ctx::seen(const u128 *in, int nin, bool nontrivial)
{
#ifdef VT_META
    if (!vt_busy) return;                               // only the pairs count
#endif
    evals++;
    if (!nontrivial) return;
    uint64_t h = hash64(in, nin, 99) | 1;
    size_t m = tab.size() - 1, i = h >> 8 & m;
    while (tab[i]) { if (tab[i] == h) return; i = (i + 1) & m; }
    if (tabn * 10 > tab.size() * 8) return;          // table full: under-count rather than guess
    tab[i] = h; tabn++; distinct++;
    if (tabn * 2 > tab.size() && tab.size() < (1u << 24)) {
        std::vector<uint64_t> o; o.swap(tab);
        tab.assign(o.size() * 4, 0); m = tab.size() - 1;
        for (uint64_t v : o) if (v) { size_t j = v >> 8 & m; while (tab[j]) j = (j + 1) & m; tab[j] = v; }
    }
}
void Ctx::sample(const std::string &s)
{
    if (sample_budget <= 0) return;
    sample_budget--;
    if (samples.size() < 40) samples.push_back(name + " " + s);
}

int main(int argc, char **argv)
{
    int sh = 0, nsh = 1; uint64_t seed = 1; double scale = 1; int tier = 0; long cpu = 0;
    std::string only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--shard") { std::string v = nx(); sscanf(v.c_str(), "%d/%d", &sh, &nsh); }
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--tier") tier = atoi(nx().c_str());
        else if (a == "--cpu") cpu = atol(nx().c_str());
        else if (a == "--only") only = nx();
    }
    if (cpu > 0) { struct rlimit r = { (rlim_t)cpu, (rlim_t)cpu + 30 }; setrlimit(RLIMIT_CPU, &r); }
    struct rlimit core = { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGTRAP, &sa, 0);
#if !defined(VT_SAN)
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
#else
    __sanitizer_set_death_callback(on_death);
#endif
    sa.sa_handler = on_xcpu; sigaction(SIGXCPU, &sa, 0);
    sa.sa_handler = on_tick; sa.sa_flags = SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
    std::vector<VtEntry> es = entries();
    std::sort(es.begin(), es.end(), [](const VtEntry &a, const VtEntry &b) {
        int c = strcmp(a.op, b.op); if (c) return c < 0;
        for (int i = 0; i < 12; i++) if (a.p[i] != b.p[i]) return a.p[i] < b.p[i];
        return false; });
#ifdef VT_THR
    int thr_rc = 0;
    if (!thr_child(seed, tier, es, thr_rc)) return thr_rc;       // the parent replays concurrently what the child recorded
#endif
    // interleave so that neighbouring (similar cost) configurations land in different shards
    Ctx c; c.evals = c.distinct = c.viols = 0; c.scale = scale; c.tier = tier; c.e = 0;
    uint64_t ran = 0;
    for (size_t i = 0; i < es.size(); i++) {
        if ((int)(i % nsh) != sh) continue;
        if (only.size() && entry_name(es[i]) != only && std::string(es[i].op) != only) continue;
        c.begin(&es[i], seed);
        check_entry(c);
        c.end();
        ran++;
    }
#ifdef VT_THR
    thr_flush();
    c.bucket("process_state_compared", thr_watched);
#endif
    printf("STAT\tentries\t%llu\n", (unsigned long long)ran);
    printf("STAT\tevaluations\t%llu\n", (unsigned long long)c.evals);
    printf("STAT\tdistinct\t%llu\n", (unsigned long long)c.distinct);
    printf("STAT\tviolations\t%llu\n", (unsigned long long)c.viols);
    for (auto &b : c.buckets) printf("BUCKET\t%s\t%llu\n", b.first.c_str(), (unsigned long long)b.second);
    for (auto &s : c.samples) printf("SAMPLE\t%s\n", s.c_str());
    printf("DONE\n");
    return 0;
}
