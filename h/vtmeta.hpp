// Metamorphic monitor: every execution is repeated with operands that differ in unused bits only.
#include "fpo.hpp"
static std::map<std::string, uint64_t> *meta_cnt;
struct MetaOp { std::vector<Fmt> in; std::vector<int> ieee; int res; Fmt r; };      // res: 0 raw word 0, 1 flopoco, 2 ieee layout
static bool meta_op(const VtEntry &e, MetaOp &m)
{
    std::string n = e.op;
    auto f = [&](int i) { Fmt x = { e.p[i], e.p[i + 1] }; return x; };
    m.r = f(0); m.res = 1; m.in.clear(); m.ieee.clear();
    if (n == "dot2" || n == "dot4" || n.substr(0, 6) == "limits" || n == "class_ieee" || n == "equals_ieee") return false;
    if (n == "class") { m.in.push_back(f(0)); m.ieee.push_back(0); m.res = 0; return true; }
    if (n == "cmp" || n == "equals" || n == "within_1ulp") m.res = 0;
    if (e.np == 8) { for (int i = 2; i < 8; i += 2) { m.in.push_back(f(i)); m.ieee.push_back(0); } return true; }
    if (e.np == 6) { for (int i = 2; i < 6; i += 2) { m.in.push_back(f(i)); m.ieee.push_back(0); } return true; }
    if (e.np == 4) {
        m.in.push_back(f(2)); m.ieee.push_back(n.substr(0, 5) == "ieee_");
        if (n == "ieee_to_ieee" || n == "flo_to_ieee" || n == "flo_convert_ieee") m.res = 2;
        return true;
    }
    fprintf(stderr, "oracle: unknown operation %s\n", e.op); _exit(2);
}
static void meta_after(Ctx *c, void (*fn)(const u128 *, u128 *), const u128 *in0, int nin)
{
    if (vt_busy) return;
    static MetaOp m; static const VtEntry *last; static bool ok; static Rng q(4242);
    if (c->e != last) { last = c->e; ok = meta_op(*c->e, m); }
    if (!ok || nin < (int)m.in.size()) return;
    vt_busy = true;
    int n = (int)m.in.size();
    std::vector<u128> a(in0, in0 + nin), b;
    std::vector<int> sp(n);
    int any = 0, force = (int)q.below(n);
    for (int i = 0; i < n; i++) {
        Fmt f = m.in[i]; Val v = m.ieee[i] ? decI(f, a[i]) : dec(f, a[i]);
        if (i == force || q.one_in(3)) { int k = (int)q.below(m.ieee[i] ? 2 : 3); v = mk(m.ieee[i] ? (k ? NAN_ : ZERO) : k == 0 ? ZERO : k == 1 ? INF : NAN_, (int)q.below(2)); a[i] = m.ieee[i] ? encI(f, v) : enc(f, v); }
        sp[i] = v.cls != NORM; any += sp[i];
    }
    u128 o0[64], o1[64];
    if (any) {
        memset(o0, 0, sizeof o0);
        bool okc = c->call_fn(fn, a.data(), nin, o0);
        for (int rep = 0; okc && rep < 3; rep++) {
            b = a;
            for (int i = 0; i < n; i++) if (sp[i]) {
                Fmt f = m.in[i]; Val v = m.ieee[i] ? decI(f, a[i]) : dec(f, a[i]);
                if (m.ieee[i]) {
                    if (v.cls == NAN_) { v.f = gen_frac(q, f.F); if (!v.f) v.f = 1; b[i] = ((u128)q.below(2) << (f.E + f.F)) | ((u128)f.emax() << f.F) | v.f; }
                    else if (v.cls == ZERO) b[i] = ((u128)v.s << (f.E + f.F)) | (q.one_in(4) ? 0 : gen_frac(q, f.F));     // a subnormal is a zero of its sign
                    continue;
                }
                v.e = q.one_in(4) ? (q.one_in(2) ? 0 : f.emax()) : (long)q.bits(f.E < 60 ? f.E : 60); v.f = gen_frac(q, f.F);
                if (v.cls == NAN_ && strcmp(c->e->op, "class")) v.s = (int)q.below(2);
                b[i] = enc(f, v);
            }
            memset(o1, 0, sizeof o1);
            if (!c->call_fn(fn, b.data(), nin, o1)) break;
            c->bucket("scrambled_pairs");
            bool eq; Val r0 = mk(0), r1 = mk(0);
            if (m.res == 0) eq = o0[0] == o1[0];
            else { r0 = m.res == 2 ? decI(m.r, o0[0]) : dec(m.r, o0[0]); r1 = m.res == 2 ? decI(m.r, o1[0]) : dec(m.r, o1[0]); eq = same(r0, r1);
                   c->bucket(r0.cls == NORM ? "normal_result" : r0.cls == ZERO ? "zero_result" : r0.cls == INF ? "inf_result" : "nan_result"); }
            std::vector<u128> key(a); key.insert(key.end(), b.begin(), b.end());
            c->seen(key.data(), (int)key.size(), a != b);
            if (!eq) {
                std::string d;
                for (int i = 0; i < nin; i++) d += (i ? " , " : "") + (i < n && !m.ieee[i] ? show(m.in[i], a[i]) : hex(a[i]));
                d += "  versus  ";
                for (int i = 0; i < nin; i++) d += (i ? " , " : "") + (i < n && !m.ieee[i] ? show(m.in[i], b[i]) : hex(b[i]));
                d += "  -> " + (m.res == 1 ? show(m.r, o0[0]) + " versus " + show(m.r, o1[0]) : hex(o0[0]) + " versus " + hex(o1[0]));
                c->violation("payload", d);
            }
        }
    }
    vt_busy = false;
}
