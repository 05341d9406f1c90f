"""What each property's check builds and runs.  Configurations are data; the drivers in h/ hold generators and oracles."""
import random
import re
from check import Binary


def rngof(seed, name):
    return random.Random("%s/%s" % (seed, name))


SPECS = {}


def spec(name):
    def deco(f):
        SPECS[name] = f
        return f
    return deco


def binx(name, expr, er, fr, ex, fx, ey, fy):
    return "INST_BINX(%s,(%s),%d,%d,%d,%d,%d,%d)" % (name, expr, er, fr, ex, fx, ey, fy)


def unx(name, expr, er, fr, ex, fx):
    return "INST_UNX(%s,(%s),%d,%d,%d,%d)" % (name, expr, er, fr, ex, fx)


def pre(*hdrs, **defs):
    s = "#include <cmath>\n" + "".join("#define %s %s\n" % kv for kv in defs.items())
    for i, h in enumerate(hdrs):
        s += '#define INC_HDR%s "%s"\n' % ("" if i == 0 else str(i + 1), h)
    return s + '#include "inst_fp.hpp"\n'


FP_RULE = ("Operand pairs by class: every pair of bit patterns (payload bits of specials included) for the tiny formats; otherwise "
           "random, every alignment distance, ties and near-ties built from the format, cancellation, borders of the exponent range, "
           "specials with zero/ones/random payloads.  Non-trivial: both operands are finite non-zero numbers and the exact result needs "
           "rounding, overflows, underflows or cancels to zero; distinct by operand bit patterns within one instantiation.")


BIG_E = (14, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30)


def add_configs(tier, seed, tag, emin=4, fmax=62):
    """same-width grid and mixed-width pairs (result is the promoted format)"""
    r = rngof(seed, tag)
    same = [(4, f) for f in (2, 3, 4, 5, 6, 7, 12, 13, 14, 29, 31, 32, 33, 45, 58, 59, 60, 61)] + [(5, 61), (6, 61), (4, 62), (8, 62), (11, 62)] + [(5, f) for f in (2, 3, 5, 10, 12, 13, 14, 28, 29, 30)] + \
        [(6, f) for f in (2, 4, 8, 13, 28, 29, 30, 31)] + [(7, 16), (7, 60), (7, 61)] + \
        [(8, f) for f in (2, 7, 15, 16, 22, 23, 24, 29, 31, 32, 33, 60)] + [(9, 14), (10, 20), (11, 10), (11, 52), (12, 32), (15, 48), (15, 61), (18, 40)]
    mixed = [((5, 10), (8, 23)), ((8, 23), (5, 10)), ((8, 7), (8, 23)), ((8, 23), (8, 7)), ((5, 10), (8, 7)), ((8, 7), (5, 10)),
             ((4, 2), (4, 3)), ((4, 3), (4, 2)), ((4, 2), (5, 2)), ((5, 3), (4, 4)), ((8, 23), (11, 52)), ((11, 52), (8, 23)),
             ((4, 13), (6, 9)), ((6, 9), (4, 13)), ((5, 29), (7, 5))]
    extra = 400 if tier == "thorough" else 6
    pool = [(e, f) for e in range(emin, 13) for f in range(2, 34)] + [(e, f) for e in (8, 11, 15, 19) for f in range(34, fmax)]
    same += [(e, r.randint(3, 40)) for e in BIG_E]
    for f in range(2, fmax + 1):                             # every fraction width at least once
        same.append((r.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]), f))
    for f, g in zip(perm(r, 2, fmax), perm(r, 2, fmax)):     # on either side of a mixed pair as well
        mixed.append(((r.randint(emin, 12), f), (r.randint(emin, 12), g)))
    for _ in range(extra):
        same.append(r.choice(pool))
        a, b = r.choice(pool), r.choice(pool)
        mixed.append((a, b))
    out = []
    for e, f in same:
        out.append((e, f, e, f, e, f))
    for a, b in mixed:
        out.append((max(a[0], b[0]), max(a[1], b[1])) + a + b)
    seen = set()
    return [c for c in out if not (c in seen or seen.add(c))]


@spec("P01")
def p01(tier, seed):
    cf = add_configs(tier, seed, "P01")
    lines = [binx("add", "thls::add<%d,%d>(x,y)" % c[:2], *c) for c in cf]
    return dict(binaries=[Binary("add", ["fpo", "drv_fp"], pre(), lines, scale=40 if tier == "thorough" else 8)],
                rule=FP_RULE, must_see=["normal_tie", "overflow_to_inf", "underflow_to_zero", "result_zero", "special_operand", "exhaustive_configs"])


@spec("P02")
def p02(tier, seed):
    cf = add_configs(tier, seed, "P02")
    t = 15 if tier == "thorough" else 4
    B = []
    l1 = []
    r = rngof(seed, "P02n")
    nar = [(2, f) for f in (1, 2, 3, 4, 5, 7, 16, r.randint(8, 15))] + [(3, f) for f in (1, 2, 3, 4, 6, 9, 23, 32, r.randint(10, 31))]      # only the dual path needs four exponent bits
    nar = [a + a + a for a in nar] + [(3, 5, 2, 5, 3, 4), (3, 5, 2, 3, 3, 5), (3, 9, 2, 9, 3, 1), (4, 12, 2, 3, 4, 12), (6, 1, 6, 1, 6, 1), (5, 30, 2, 30, 5, 1)]
    for c in cf + nar:
        for n in ("add_single", "add_small", "add_single_v5", "add_fast"):
            if n == "add_fast" and c not in cf:
                continue
            l1.append(binx(n, "thls::%s<%d,%d>(x,y)" % ((n,) + c[:2]), *c))
    B.append(Binary("v1", ["fpo", "drv_fp"], pre("thls/tops/fp_flopoco_add_single_v5.hpp"), l1, scale=t))
    for v in (2, 3, 4):
        l = []
        for i, c in enumerate(cf + nar):
            if v == 3 and c[0] == 2 or v == 3 and c[0] == 3 and c[1] > 16:
                continue
            if v == 3 and not 11 <= c[1] <= 26:
                continue
            if v != 3 and tier != "thorough" and c[2:4] != c[4:6] and i % 4 == v:
                continue
            l.append(binx("add_single_hdr%d" % v, "thls::add_single<%d,%d>(x,y)" % c[:2], *c))
            l.append(binx("add_small_hdr%d" % v, "thls::add_small<%d,%d>(x,y)" % c[:2], *c))
        B.append(Binary("v%d" % v, ["fpo", "drv_fp"], pre(**{"ADD_V%d" % v: "1"}), l, scale=t))
    return dict(binaries=B, rule=FP_RULE, must_see=["normal_tie", "overflow_to_inf", "underflow_to_zero", "result_zero", "special_operand"])


def mul_configs(tier, seed):
    r = rngof(seed, "P03")
    out = []
    for e, f in [(2, 2), (3, 3), (3, 5), (4, 2), (4, 3), (4, 4), (4, 5), (5, 4), (5, 10), (5, 11), (6, 9), (7, 16), (8, 2), (8, 7), (8, 15), (8, 16), (8, 22), (8, 23), (8, 24),
                 (8, 31), (8, 32), (8, 33), (10, 30), (11, 52), (11, 53), (12, 31), (15, 48), (15, 62), (20, 10)]:
        out.append((e, f, f, f))
        if e + 2 * f + 1 + 3 <= 128:
            out.append((e, f, f, 2 * f + 1))             # exact product
            out.append((e, f, f, 2 * f))                 # one bit short of exact
            out.append((e, f, f, min(2 * f + 3, 125 - e)))
    out += [(4, 3, 2, 4), (4, 2, 4, 1), (4, 4, 1, 3), (3, 2, 3, 2), (8, 23, 7, 23), (8, 7, 23, 7), (8, 10, 23, 31), (8, 23, 52, 23), (11, 52, 23, 76), (8, 40, 3, 60), (8, 1, 1, 1), (8, 1, 1, 3), (8, 5, 9, 1)]
    n = 1200 if tier == "thorough" else 60
    for e in BIG_E:
        out.append((e, r.randint(3, 30), r.randint(3, 30), r.randint(3, 40)))
    for f in range(1, 63):
        out.append((r.choice([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]), f, f, f))
    for a, b, f in zip(perm(r, 1, 62), perm(r, 1, 62), perm(r, 1, 110)):
        out.append((r.randint(2, 12), a, b, f))
    for _ in range(n):
        e = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18])
        if r.random() < 0.4:
            a = b = r.randint(1, 62)
        else:
            a, b = r.randint(1, 62), r.randint(1, 62)
        if a + b + 2 > 128:
            continue
        k = r.random()
        f = a + b + 1 + r.randint(-2, 2) if k < 0.3 else r.randint(1, a + b + 6) if k < 0.7 else r.choice([a, b])
        f = max(1, min(f, 125 - e))
        out.append((e, a, b, f))
    seen = set()
    return [c for c in out if not (c in seen or seen.add(c))]


@spec("P03")
def p03(tier, seed):
    lines = []
    for e, a, b, f in mul_configs(tier, seed):
        lines.append(binx("mul", "thls::mul<%d,%d>(x,y)" % (e, f), e, f, e, a, e, b))
        if a == b:
            lines.append(binx("square", "thls::square<%d,%d,%d,%d,%d,%d>(x,0)" % (e, f, e, a, e, a), e, f, e, a, e, a))
        if len(lines) % 3 == 0:
            lines.append(binx("mul_v1", "thls::mul_v1<%d,%d>(x,y,0)" % (e, f), e, f, e, a, e, b))
    return dict(binaries=[Binary("mul", ["fpo", "drv_fp"], pre(), lines, scale=40 if tier == "thorough" else 8)],
                rule=FP_RULE, must_see=["normal_tie", "overflow_to_inf", "underflow_to_zero", "special_operand", "exhaustive_configs", "normal_carry_to_next_binade"])


def perm(r, lo, hi):
    l = list(range(lo, hi + 1))
    r.shuffle(l)
    return l


def div_configs(tier, seed):
    r = rngof(seed, "P04")
    same = [(e, f) for e, f in [(2, 2), (3, 3), (3, 4), (4, 1), (4, 2), (4, 3), (4, 4), (4, 5), (4, 6), (5, 2), (5, 10), (5, 11), (6, 9), (7, 16), (8, 2), (8, 7), (8, 15), (8, 22), (8, 23), (8, 24), (8, 31), (8, 32),
            (8, 33), (10, 30), (11, 52), (12, 31), (15, 48), (15, 56), (8, 61), (8, 62), (5, 63), (8, 64), (2, 80), (4, 101), (13, 110), (9, r.randint(65, 115))]]
    mixed = [((5, 10), (8, 23)), ((8, 23), (5, 10)), ((8, 7), (8, 23)), ((8, 23), (8, 7)), ((5, 10), (8, 7)), ((4, 2), (4, 3)), ((4, 3), (4, 2)), ((4, 3), (5, 2)), ((11, 52), (8, 23))]
    mixed += [((8, 90), (5, 20)), ((5, 20), (8, 90)), ((6, r.randint(57, 115)), (8, r.randint(1, 115)))]
    pool = [(e, f) for e in range(2, 13) for f in range(1, 34)] + [(e, f) for e in (8, 11, 15) for f in range(34, 110)]
    same += [(e, r.randint(3, 40)) for e in BIG_E]
    for f in range(1, 57):
        same.append((r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]), f))
    for fx, fy in zip(perm(r, 1, 56), perm(r, 1, 56)):
        mixed.append(((r.randint(2, 12), fx), (r.randint(2, 12), fy)))
    for _ in range(600 if tier == "thorough" else 10):
        same.append(r.choice(pool))
        mixed.append((r.choice(pool), r.choice(pool)))
    out = [(e, f, e, f, e, f) for e, f in same] + [(max(a[0], b[0]), max(a[1], b[1])) + a + b for a, b in mixed]
    seen = set()
    return [c for c in out if not (c in seen or seen.add(c))]


@spec("P04")
def p04(tier, seed):
    lines = []
    for c in div_configs(tier, seed):
        lines.append(binx("div", "thls::div<%d,%d>(x,y)" % c[:2], *c))
        lines.append(binx("div_v2", "thls::div_v2<%d,%d>(x,y,0)" % c[:2], *c))
        if len(lines) % 3 == 0:
            lines.append(binx("div_v1", "thls::div_v1<%d,%d>(x,y,0)" % c[:2], *c))
    return dict(binaries=[Binary("div", ["fpo", "drv_fp"], pre("thls/tops/fp_flopoco_div_v2.hpp"), lines, scale=20 if tier == "thorough" else 4)],
                rule=FP_RULE, must_see=["normal_inexact", "overflow_to_inf", "underflow_to_zero", "special_operand", "exhaustive_configs", "result_nan"])


UN_RULE = ("Bit patterns by class: every pattern (payload bits of specials included) for formats of up to 16 bits; otherwise random, short and "
           "long runs of ones/zeros in the fraction, exponents at the borders of source and result range, ties and near ties at the result "
           "precision, specials with zero/ones/random payloads.  Distinct by operand bit pattern within one instantiation.")


@spec("P05")
def p05(tier, seed):
    r = rngof(seed, "P05")
    big = tier == "thorough"
    lines = []
    invs = [(2, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 4), (5, 5), (4, 9), (5, 10), (8, 7), (8, 16), (8, 23), (8, 24), (11, 52), (15, 56), (20, 30), (8, 61), (8, 62), (5, 63), (8, 64), (2, 80), (4, 101), (13, 110)]
    invs += [(r.randint(2, 15), f) for f in range(1, 57)] + [(e, r.randint(2, 40)) for e in BIG_E]
    invs += [(r.randint(2, 15), r.randint(1, 110)) for _ in range(200 if big else 16)]
    for e, f in dict.fromkeys(invs):
        lines.append(unx("inv", "thls::inv<%d,%d>(x)" % (e, f), e, f, e, f))
        lines.append(unx("inv_v1", "thls::inv_v1<%d,%d>(x,0)" % (e, f), e, f, e, f))
    fa = [(e, f, f) for e, f in [(3, 2), (4, 3), (5, 4), (5, 5), (4, 6), (4, 7), (5, 8), (5, 9), (5, 10), (8, 7), (8, 12), (8, 13), (8, 14), (8, 15), (8, 16), (8, 20), (8, 22), (8, 23), (8, 24), (8, 28), (8, 29), (8, 30), (11, 26)]]
    fa += [(8, 23, d) for d in (18, 19, 20, 21, 22)] + [(8, 20, d) for d in (18, 19, 21, 22, 23)] + [(8, 27, d) for d in (21, 22, 23)] + [(8, 44, d) for d in (38, 41, 43, 45, 46)]
    fa += [(r.randint(3, 12), f, f) for f in range(2, 57)] + [(e, f, f) for e, f in zip(BIG_E, perm(r, 2, 56))]
    for _ in range(120 if big else 12):
        f = r.randint(2, 56)
        fa.append((r.randint(3, 12), f, f))
    for e, f, g in dict.fromkeys(fa):
        lines.append(unx("inv_faithful", "thls::inv_faithful<%d,%d>(x)" % (e, f), e, f, e, g))
    di = [(4, 3, 3), (5, 5, 5), (8, 16, 16), (4, 2, 8), (4, 8, 2), (5, 10, 10), (6, 20, 6), (6, 3, 12), (8, 12, 15), (5, 30, 10)]
    di += [(r.randint(2, 11), f, f % 13 + 1) for f in range(2, 31)] + [(e, f, f % 11 + 2) for e, f in zip(BIG_E, perm(r, 2, 30))]
    di += [(r.randint(2, 11), f, r.randint(9, 13)) for f in range(31, 51)] + [(8, 50, 15), (5, 46, 16), (8, 32, 16)]
    di += [(r.randint(2, 11), r.randint(2, 50), r.randint(1, 13)) for _ in range(80 if big else 4)]
    for e, f, g in dict.fromkeys(di):
        lines.append(unx("inv_direct", "thls::inv_direct<%d,%d>(x,0)" % (e, f), e, f, e, g))
    ng = [(4, 3, 4, 3), (8, 23, 8, 23), (8, 23, 5, 10), (5, 10, 8, 23), (8, 7, 8, 23), (11, 52, 8, 23), (4, 9, 4, 4), (15, 61, 15, 61)]
    ng += [(r.randint(2, 15), f, r.randint(2, 15), g) for f, g in zip(perm(r, 1, 61), perm(r, 1, 61))]
    ng += [(r.randint(2, 15), r.randint(1, 61), r.randint(2, 15), r.randint(1, 61)) for _ in range(100 if big else 2)]
    for c in dict.fromkeys(ng):
        lines.append(unx("neg", "thls::neg<%d,%d>(x)" % c[:2], *c))
    return dict(binaries=[Binary("un", ["fpo", "drv_un"], pre("thls/tops/fp_flopoco_inv_nr.hpp"), lines, scale=30 if big else 5)],
                rule=UN_RULE + "  Non-trivial: a finite non-zero operand whose exact reciprocal needs rounding or underflows (for neg: any finite non-zero operand).",
                must_see=["underflow_to_zero", "normal_inexact", "zero_operand", "inf_operand", "nan_operand", "exhaustive_configs"])


def cv(name, call, src, dst, er, fr, ex, fx):
    return "INST_CV(%s,%s,%s,%s,%d,%d,%d,%d)" % (name, call, src, dst, er, fr, ex, fx)


@spec("P08")
def p08(tier, seed):
    r = rngof(seed, "P08")
    big = tier == "thorough"
    L = []
    fmts = [(4, 2), (4, 3), (5, 2), (5, 10), (6, 9), (8, 7), (8, 23), (11, 52), (8, 52), (11, 23), (5, 23), (8, 10), (15, 61)]
    pairs = [(a, b) for a in fmts for b in fmts]
    pairs += [((3, 4), (3, 3)), ((3, 3), (3, 4)), ((3, 4), (5, 1)), ((5, 1), (3, 4)), ((2, 5), (6, 6)), ((6, 6), (2, 5)), ((6, 3), (5, 3)), ((5, 4), (5, 3)), ((20, 90), (8, 23)), ((8, 23), (20, 90)), ((12, 110), (12, 60))]
    for e in BIG_E:
        pairs += [((e, r.randint(2, 60)), (r.randint(2, 30), r.randint(2, 60))), ((r.randint(2, 30), r.randint(2, 60)), (e, r.randint(2, 60)))]
    for f, g in zip(perm(r, 1, 64), perm(r, 1, 64)):
        pairs.append(((r.randint(2, 18), f), (r.randint(2, 18), g)))
    for _ in range(700 if big else 10):
        pairs.append(((r.randint(2, 18), r.randint(1, 64)), (r.randint(2, 18), r.randint(1, 64))))
    for (a, b) in dict.fromkeys(pairs):
        L.append(cv("convert", "convert", "vt_in", "fp_flopoco", *(a + b)))
        if len(L) % 3 == 0:
            L.append(cv("convert", "flopoco_convert", "vt_in", "fp_flopoco", *(a + b)))
            L.append(unx("convert_fn", "thls::convert<%d,%d>(x)" % a, *(a + b)))
        if a[0] >= b[0] and a[1] >= b[1]:
            L.append(cv("promote", "promote", "vt_in", "fp_flopoco", *(a + b)))
            L.append(cv("ieee_to_ieee", "promote", "vt_ini", "fp_ieee", *(a + b)))
            L.append(cv("ieee_to_flo", "promote", "vt_ini", "fp_flopoco", *(a + b)))
            if a[0] > b[0]:
                L.append(cv("flo_to_ieee", "promote", "vt_in", "fp_ieee", *(a + b)))
        if a == b:
            L.append(cv("ieee_convert", "convert", "vt_ini", "fp_flopoco", *(a + b)))
            L.append(cv("flo_convert_ieee", "convert", "vt_in", "fp_ieee", *(a + b)))
    for f in [(2, 3), (3, 2), (3, 5), (9, 14), (12, 31), (4, 11)]:
        L.append(cv("ieee_convert", "convert", "vt_ini", "fp_flopoco", *(f + f)))
        L.append(cv("flo_convert_ieee", "convert", "vt_in", "fp_ieee", *(f + f)))
    return dict(binaries=[Binary("cv", ["fpo", "drv_un"], pre(WANT_IEEE="1"), L, scale=15 if big else 3, per_tu=10)],
                rule=UN_RULE + "  Non-trivial: a finite non-zero operand.",
                must_see=["underflow_to_zero", "overflow_to_inf", "normal_tie", "normal_carry_to_next_binade", "ieee_underflow", "ieee_overflow", "zero_operand", "inf_operand", "nan_operand", "exhaustive_configs"])


@spec("P10")
def p10(tier, seed):
    r = rngof(seed, "P10")
    big = tier == "thorough"
    fm = [(2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (4, 3), (4, 8), (5, 2), (5, 7), (5, 10), (8, 7), (8, 23), (11, 52), (15, 61), (20, 100), (10, 64), (10, 63), (10, 32), (10, 31)]
    fm += [(r.randint(2, 18), f) for f in range(1, 91)] + [(e, r.randint(2, 80)) for e in BIG_E]
    fm += [(r.randint(2, 18), r.randint(1, 90)) for _ in range(200 if big else 0)]
    L = []
    for f in dict.fromkeys(fm):
        for n, x in (("nextup", "nextup(x)"), ("nextdown", "nextdown(x)"), ("nextafter_up", "nextafter(x,INFINITY)"), ("nextafter_down", "nextafter(x,-INFINITY)")):
            L.append(unx(n, "thls::" + x, *(f + f)))
    return dict(binaries=[Binary("nx", ["fpo", "drv_un"], pre(), L, scale=15 if big else 2)],
                rule=UN_RULE + "  Non-trivial: any operand but nan.",
                must_see=["zero_operand", "inf_operand", "nan_operand", "exhaustive_configs"])


def pre2(hdr, **defs):
    return "#include <cmath>\n" + "".join("#define %s %s\n" % kv for kv in defs.items()) + '#include "%s"\n' % hdr


@spec("P09")
def p09(tier, seed):
    r = rngof(seed, "P09")
    big = tier == "thorough"
    L = []
    fm = [(3, 1), (3, 3), (4, 3), (4, 8), (5, 2), (5, 10), (8, 7), (8, 23), (11, 52), (15, 61), (8, 52)]
    pairs = [(a, a) for a in fm] + [((5, 10), (8, 23)), ((8, 23), (5, 10)), ((8, 7), (8, 23)), ((8, 23), (8, 7)), ((5, 10), (8, 7)), ((8, 7), (5, 10)), ((3, 3), (4, 2)), ((4, 2), (3, 3)),
                                    ((3, 4), (3, 2)), ((3, 2), (3, 4)), ((2, 3), (5, 3)), ((5, 3), (2, 3)), ((11, 52), (8, 23)), ((8, 23), (11, 52)), ((20, 100), (8, 23)), ((4, 3), (4, 4))]
    pool = lambda: (r.randint(2, 18), r.randint(1, 70))
    for e in BIG_E:
        pairs += [((e, r.randint(2, 60)), (r.randint(2, 30), r.randint(2, 60))), ((r.randint(2, 30), r.randint(2, 60)), (e, r.randint(2, 60))), ((e, r.randint(2, 60)),) * 2]
    for f, g in zip(perm(r, 1, 70), perm(r, 1, 70)):
        pairs += [((r.randint(2, 18), f), (r.randint(2, 18), g))]
        a = (r.randint(2, 18), f)
        pairs += [(a, a)]
    for _ in range(300 if big else 0):
        a = pool()
        pairs += [(a, a), (pool(), pool())]
    for a, b in dict.fromkeys(pairs):
        L.append("INST_CMP(%d,%d,%d,%d)" % (a + b))
        if a == b:
            L += ["INST_SAME(%d,%d)" % a, "INST_SAMEI(%d,%d)" % a]
    return dict(binaries=[Binary("cmp", ["fpo", "drv_cmp"], pre2("inst_cmp.hpp", WANT_IEEE="1"), L, scale=25 if big else 4)],
                rule="Operand pairs: all pairs of bit patterns for tiny formats; otherwise the adder's generator (cancellation, close pairs), equal values across formats, one unit apart, "
                     "both zeros, all pairs of specials with arbitrary payload, ends of the line; ieee pairs identical, one bit or one fraction apart.  Non-trivial: ordered pairs (for equals/within_1ulp: all); distinct by bit patterns.",
                must_see=["unordered", "equal", "less", "greater", "inf_vs_inf", "zero_vs_zero", "identical", "within", "apart", "ieee_identical", "exhaustive_configs"])


@spec("P24")
def p24(tier, seed):
    r = rngof(seed, "P24")
    big = tier == "thorough"
    fm = [(2, 1), (2, 2), (3, 1), (3, 3), (4, 4), (4, 8), (5, 2), (5, 10), (8, 7), (8, 23), (11, 52), (15, 61), (20, 100), (10, 64), (18, 32)]
    fm += [(r.randint(2, 20), f) for f in range(1, 101)] + [(e, r.randint(2, 90)) for e in BIG_E]
    fm += [(r.randint(2, 20), r.randint(1, 100)) for _ in range(200 if big else 0)]
    L = []
    for f in dict.fromkeys(fm):
        L += ["INST_CLASS(%d,%d)" % f, "INST_CLASSI(%d,%d)" % f]
    return dict(binaries=[Binary("cls", ["fpo", "drv_cmp"], pre2("inst_cmp.hpp", WANT_IEEE="1"), L, scale=20 if big else 1)],
                rule="Bit patterns: all patterns for formats of up to 16 bits, otherwise random with specials, subnormal and all-ones exponents favoured; each numeric_limits constant once per format.  "
                     "Non-trivial: every pattern; distinct by bit pattern.",
                must_see=["zero", "normal", "inf", "nan", "limits", "exhaustive_configs"])


@spec("P06")
def p06(tier, seed):
    r = rngof(seed, "P06")
    big = tier == "thorough"
    cf = [(8, 23, 8, 23, 8, 25, 8, 23), (8, 23, 8, 23, 8, 23, 8, 23), (8, 23, 8, 24, 8, 23, 8, 23), (8, 23, 8, 23, 8, 23, 8, 26), (5, 10, 5, 10, 5, 10, 5, 10), (8, 7, 8, 7, 8, 7, 8, 7),
          (8, 23, 8, 7, 8, 7, 8, 23), (8, 23, 5, 10, 5, 10, 8, 23), (5, 10, 5, 10, 5, 10, 8, 23), (4, 3, 4, 3, 4, 3, 4, 3), (4, 2, 2, 2, 2, 2, 3, 2), (5, 2, 5, 3, 5, 2, 5, 4), (8, 10, 6, 15, 7, 13, 8, 20), (3, 3, 3, 3, 3, 3, 3, 3),
          (6, 31, 2, 2, 2, 24, 3, 16), (9, 12, 3, 9, 3, 8, 3, 10), (8, 23, 8, 30, 8, 30, 8, 20), (8, 23, 8, 20, 8, 20, 8, 62), (10, 50, 8, 59, 8, 1, 8, 7), (9, 61, 8, 28, 8, 28, 8, 28), (8, 100, 8, 20, 8, 20, 8, 20)]
    for _ in range(6):
        fx = r.randint(1, 59)
        cf.append((r.randint(2, 10), r.randint(30, 90), r.randint(2, 10), fx, r.randint(2, 10), r.randint(1, 60 - fx), r.randint(2, 10), r.randint(40, 62)))
    frs, fzs = perm(r, 1, 50), perm(r, 1, 50)
    for i, (fx, fy) in enumerate(zip(perm(r, 1, 28), perm(r, 1, 28))):
        ex = r.randint(2, 10)
        cf.append((r.randint(2, 10), frs[i], ex, fx, ex if i % 2 else r.randint(2, 10), fy, r.randint(2, 10), fzs[i]))
    for i in range(28, 50):
        ex = r.randint(2, 10)
        cf.append((r.randint(2, 10), frs[i], ex, r.randint(1, 28), ex if i % 2 else r.randint(2, 10), r.randint(1, 28), r.randint(2, 10), fzs[i]))
    for e in range(11, 21):
        cf.append((e, r.randint(2, 30), r.choice([e, 8]), r.randint(1, 24), r.choice([e, 8]), r.randint(1, 24), r.choice([e, 8]), r.randint(1, 40)))
    for f in range(1, 28):
        e = r.randint(3, 11)
        cf.append((e, f, e, f, e, f, e, f))
    for _ in range(200 if big else 0):
        ex, ez, er = r.randint(2, 10), r.randint(2, 10), r.randint(2, 10)
        fx, fy = r.randint(1, 28), r.randint(1, 28)
        cf.append((er, r.randint(1, 50), ex, fx, ex, fy, ez, r.randint(1, 50)))
        e, f = r.randint(3, 11), r.randint(1, 27)
        cf.append((e, f, e, f, e, f, e, f))
    L = ["INST_FMA(%d,%d,%d,%d,%d,%d,%d,%d)" % c for c in dict.fromkeys(cf)]
    return dict(binaries=[Binary("fma", ["fpo", "drv_ter"], pre2("inst_ter.hpp", WANT_FMA="1"), L, scale=30 if big else 8, per_tu=3)],
                rule="Operand triples: all bit patterns for the tiny formats, otherwise products by the multiplier's generator with the addend at every alignment, nearly or exactly cancelling the product, at the range "
                     "borders, specials.  Non-trivial: three finite non-zero operands with an inexact, cancelled, overflowed or underflowed result; distinct by bit patterns.",
                must_see=["exact_cancellation", "overflow_to_inf", "underflow_to_zero", "double_rounding_cases", "result_nan", "result_inf"])


@spec("P07")
def p07(tier, seed):
    r = rngof(seed, "P07")
    big = tier == "thorough"
    d2 = [(2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (8, 7), (8, 22), (8, 23), (8, 24), (5, 10), (11, 51), (11, 52), (11, 54), (11, 60), (4, 1), (8, 61), (8, 62), (5, 62)]
    d4 = [(2, 1), (1, 1), (1, 3), (2, 3), (3, 1), (4, 1), (3, 2), (4, 2), (5, 2), (3, 3), (4, 3), (5, 3), (6, 3), (3, 4), (4, 4), (5, 4), (6, 4), (5, 5), (6, 6), (8, 7), (5, 10), (4, 16), (5, 16), (6, 16), (8, 19), (8, 20)]
    d2 += [(r.randint(2, 12), f) for f in range(1, 61)] + [(e, r.randint(2, 50)) for e in range(13, 28)]
    d4 += [(r.randint(2, 9), f) for f in range(1, 21)] + [(e, r.randint(2, 20)) for e in range(10, 28)]
    for _ in range(60 if big else 4):
        d2.append((r.randint(2, 12), r.randint(1, 62)))
        d4.append((r.randint(2, 9), r.randint(1, 20)))
    L = ["INST_DOT2(%d,%d)" % c for c in dict.fromkeys(d2)] + ["INST_DOT4(%d,%d)" % c for c in dict.fromkeys(d4)]
    return dict(binaries=[Binary("dot", ["fpo", "drv_ter"], pre2("inst_ter.hpp", WANT_DOT="1"), L, scale=30 if big else 6, per_tu=3)],
                rule="Positive normal operands: all patterns for the tiniest formats, otherwise random, chains of products with long runs of ones each starting where the previous ends (lost carries), sums at the range borders, every "
                     "relative alignment.  Non-trivial: inexact, overflowing or underflowing sum; distinct by operand patterns.",
                must_see=["normal_inexact", "overflow_to_inf", "underflow_to_zero", "term_below_all_others", "exhaustive_configs"])


FW_BORDER = (1, 2, 3, 7, 8, 15, 16, 30, 31, 32, 33, 34, 47, 48, 62, 63, 64, 65, 66, 95, 96, 97, 126, 127, 128)


@spec("P12")
def p12(tier, seed):
    r = rngof(seed, "P12")
    big = tier == "thorough"
    L = ["FW1(arith,FwArith,%d)" % w for w in range(1, 129)] + ["FW1(conv,FwConv,%d)" % w for w in range(1, 129)]
    ml = set()
    for a in FW_BORDER:
        for b in (1, 2, 16, 31, 32, 33, 63, 64, 65, 96, 127):
            if a + b <= 128:
                ml.add((a, b))
    for a in range(1, 128):
        ml |= {(a, r.randint(1, 128 - a)), (r.randint(1, 128 - a), a)}
    while len(ml) < (1500 if big else 220):
        a = r.randint(1, 127)
        ml.add((a, r.randint(1, 128 - a)))
    ml |= {(a, 128 - a) for a in range(1, 128, 1 if big else 9)}
    L += ["FW2(mul,FwMul,%d,%d)" % c for c in sorted(ml)]
    L += ["FW1(square,FwSquare,%d)" % w for w in range(1, 65)]
    return dict(binaries=[Binary("fw", ["drv_fw"], pre2("inst_fw.hpp"), L, scale=30 if big else 6, per_tu=16)],
                rule="Operands: all pairs for widths up to 5, otherwise random, all zeros/ones, single bits, runs, carries through the whole word, equal and adjacent pairs; every width 1..128 for every operation, "
                     "products at all storage borders.  Every result word is compared in full, bits above the width included.  Non-trivial: every operand tuple (for products: both above one); distinct by operands.",
                must_see=["carry_out", "borrow", "negative_int", "int_beyond_width", "product_over_64_bits", "double_rounded", "exhaustive_configs"])


@spec("P13")
def p13(tier, seed):
    r = rngof(seed, "P13")
    big = tier == "thorough"
    L = set()
    for w in range(1, 129):
        cand = [(w - 1, 0), (0, 0), (w - 1, w - 1)]
        for _ in range(14 if big else 3):
            h = r.randint(0, w - 1)
            cand.append((h, r.randint(0, h)))
        for b in (31, 32, 33, 63, 64, 65):
            if b < w and r.random() < (1 if big else 0.3):
                cand += [(w - 1, b), (b, 0), (b, r.randint(0, b))]
        for h, l in cand:
            L.add("FW3(bits,FwBits,%d,%d,%d)" % (h, l, w))
        for b in {0, 1, w, w - 1, r.randint(0, w), r.choice([x for x in FW_BORDER if x <= w])}:
            L.add("FW2(take,FwTake,%d,%d)" % (b, w))
        if w >= 2:
            L.add("FW1(ends,FwEnds,%d)" % w)
        for pd in {0, 128 - w, r.randint(0, 128 - w), r.randint(0, 128 - w)}:
            L.add("FW2(pad,FwPad,%d,%d)" % (pd, w))
        for b in {w, r.randint(1, 128), r.randint(1, 128), r.choice(FW_BORDER)}:
            L.add("FW2(resize,FwResize,%d,%d)" % (b, w))
        for b in {0, 128 - w, r.randint(0, 128 - w), r.randint(0, 128 - w)}:
            L.add("FW2(cat2,FwCat2,%d,%d)" % (w, b))
            L.add("FW2(cat2,FwCat2,%d,%d)" % (b, w))
        L.add("FW1(rand,FwRand,%d)" % w)
    for _ in range(400 if big else 80):
        c = sorted(r.randint(0, 128) for _ in range(4))
        L.add("FW3(cat3,FwCat3,%d,%d,%d)" % (c[0], c[1] - c[0], c[2] - c[1]))
        L.add("FW4(cat4,FwCat4,%d,%d,%d,%d)" % (c[0], c[1] - c[0], c[2] - c[1], c[3] - c[2]))
        w = r.randint(1, 20)
        hi = r.randint(0, min(128 // w - 1, 15))
        L.add("FW3(catarr,FwCatArr,%d,%d,%d)" % (hi, r.randint(0, hi), w))
    L.add("FW0(const,FwConst)")
    for w in range(1, 129):
        L.add("FW1(select,FwSelect,%d)" % w)
        L.add("FW2(lut,FwLut,%d,%d)" % (w, w % 7 + 1))
    for wd in (1, 5, 8, 31, 32, 33, 64, 65, 128):
        for wa in (1, 2, 3, 5, 7):
            L.add("FW2(lut,FwLut,%d,%d)" % (wd, wa))
    return dict(binaries=[Binary("st", ["drv_fw"], pre2("inst_fw.hpp"), sorted(L), scale=15 if big else 3, per_tu=40)],
                rule="Slice bounds, pad widths and concatenation splits at the storage borders plus random ones for every width 1..128 (zero-width parts included); operands as in P12.  Every result word is compared in full "
                     "against the bit-string definition.  Non-trivial: every operand tuple; distinct by operands within an instantiation.",
                must_see=["slice", "constants", "take_none_or_all", "take", "pad", "pad_by_zero", "truncate", "extend", "concat", "concat_array", "select", "lut", "random"])


@spec("P11")
def p11(tier, seed):
    r = rngof(seed, "P11")
    big = tier == "thorough"
    fm = [(2, 1), (2, 3), (3, 1), (3, 3), (4, 4), (4, 8), (5, 2), (5, 10), (6, 9), (8, 7), (8, 23), (8, 31), (8, 32), (8, 33), (11, 51), (11, 52), (11, 53), (11, 63), (11, 64), (12, 52), (15, 61), (13, 112), (20, 100), (9, 30)]
    fm += [(r.randint(2, 11) if f <= 52 else r.randint(2, 16), f) for f in range(1, 65)] + [(r.randint(2, 16), f) for f in range(66, 101, 4)]
    fm += [(r.randint(2, 16), r.randint(1, 100)) for _ in range(200 if big else 4)]
    fm += [(r.randint(2, 11), r.randint(1, 52)) for _ in range(100 if big else 0)]
    L = []
    for e, f in dict.fromkeys(fm):
        L += ["INST_NAT(%d,%d)" % (e, f), "INST_NATI(%d,%d)" % (e, f)]
        if e <= 11 and f <= 52:
            L.append("INST_NATD(%d,%d)" % (e, f))
    return dict(binaries=[Binary("nat", ["fpo", "drv_nat"], pre2("inst_nat.hpp"), L, scale=20 if big else 2, per_tu=8)],
                rule="Bit patterns: all for formats of up to 13 bits, otherwise random with borders and specials of any payload; doubles: random, every class, exponent borders of the format, fractions that need truncation; MPFR sources of "
                     "matching and non-matching precision, in and out of range, with and without the allow flag; destination precisions 1..F+6 in five rounding modes.  Non-trivial: every case; distinct by operand (and mode and precision).",
                must_see=["zero", "inf", "nan", "negative", "positive", "directed_negative_inexact", "wrong_precision", "out_of_range_refused", "flushed", "saturated", "subnormal_double", "double_truncated",
                          "beyond_double", "becomes_subnormal_double", "text_value", "exhaustive_configs"])


def heap_program(r, pid, maxw, nleaf, direct):
    """a random program over bit heaps: list of statements, inputs used"""
    S, live, k, step = [], [], 0, 0
    for i in range(nleaf):
        step += 1
        n = "h%d" % step
        if direct and r.random() < 0.6:
            # a heap of arbitrary column heights, built through the public constructors
            w = r.randint(1, min(maxw, 24))
            tall = r.choice([1, 2, 3, 4, 7, 12, 20])
            hs = [r.randint(0, tall) if r.random() < 0.8 else tall for _ in range(w)]
            t, v = "thls::bit_heap_root<%d>" % hs[0], "thls::bit_heap_root<%d>(vi<%d>(in[%d]))" % (hs[0], hs[0], k)
            for j, h in enumerate(hs[1:]):
                t2 = "thls::bit_heap_link<%d,%s >" % (h, t)
                v = "%s(vi<%d>(in[%d]>>%d|in[%d]<<%d), %s)" % (t2, h, k, (j * 5 + 3) % 100 + 1, k, 128 - ((j * 5 + 3) % 100 + 1), v)
                t = t2
            S.append("auto %s = %s; SHAPE(%s,%d)" % (n, v, n, step))
        else:
            w = r.choice([1, 2, 3, maxw]) if r.random() < 0.3 else r.randint(1, maxw)
            S.append("LEAF(%s,%d,%d,%d)" % (n, w, k, step))
        live.append((n, w))
        k += 1
    while len(live) > 1:
        step += 1
        n = "h%d" % step
        a = live.pop(r.randrange(len(live)))
        x = r.random()
        if x < 0.12 and a[1] < maxw:
            w = r.randint(a[1], maxw)
            S.append("PAD(%s,%s,%d,%d)" % (n, a[0], w, step))
            live.append((n, w))
        elif x < 0.27:
            S.append("COMPRESS(%s,%s,%d)" % (n, a[0], step))
            live.append((n, a[1]))
        else:
            b = live.pop(r.randrange(len(live)))
            S.append("MERGE(%s,%s,%s,%d)" % (n, a[0], b[0], step))
            live.append((n, max(a[1], b[1])))
    n, w = live[0]
    S.append("READZ(%s,%d)" % (n, step + 1))
    S.append("COMPRESS(c_,%s,%d)" % (n, step + 2))
    S.append("COLLAPSE(c_,%d) READZ(c_,%d)" % (step + 3, step + 4))
    if w > 1:
        S.append("PRINT(c_,%d)" % (step + 5))
    return S, k, step + 5


def emit_program(op, pid, S, nin, steps):
    return "struct P%s%d { static void go(const u128 *in, u128 *out) { Mon m(out); %s } }; static VtReg VT_UNIQ(r_)(\"%s\", P%s%d::go, 3, %d, %d, %d);" % (op, pid, " ".join(S), op, op, pid, pid, nin, steps)


@spec("P14")
def p14(tier, seed):
    r = rngof(seed, "P14")
    big = tier == "thorough"
    L = []
    for i in range(600 if big else 110):
        L.append(emit_program("merge", i, *heap_program(r, i, r.choice([1, 3, 8, 17, 32, 33, 64, 65]), r.randint(2, 14), i % 2 == 0)))
    for i, h in enumerate(list(range(0, 26)) + [31, 32, 33, 40, 63, 64, 65, 90]):      # full columns of every height
        w = 3 if h > 12 else 5
        t, v = "thls::bit_heap_root<%d>" % h, "thls::bit_heap_root<%d>(vi<%d>(in[0]))" % (h, h)
        for j in range(1, w):
            t = "thls::bit_heap_link<%d,%s >" % (h, t)
            v = "%s(vi<%d>(in[%d]), %s)" % (t, h, j, v)
        L.append(emit_program("columns", i, ["auto a = %s; SHAPE(a,1) READZ(a,2) COMPRESS(b,a,3) COLLAPSE(b,4) READZ(b,5)" % v], w, 5))
    muls = [(3, 17, 24), (1, 2, 2), (1, 3, 5), (2, 4, 4), (4, 8, 8), (5, 5, 5), (8, 8, 16), (8, 16, 8), (17, 24, 24), (7, 3, 20), (7, 20, 3), (20, 5, 6), (16, 33, 31), (24, 24, 64), (18, 53, 53), (17, 1, 40), (6, 12, 18), (4, 9, 13), (1, 1, 1), (3, 7, 1), (25, 64, 64)]
    for _ in range(200 if big else 30):
        a, b = r.randint(1, 40), r.randint(1, 40)
        muls.append((r.randint(max(1, max(a, b) // 5), 30), a, b))
    for i, (t, a, b) in enumerate(dict.fromkeys(muls)):
        S = ["MUL(h,%d,%d,%d,1) READZ(h,2) COMPRESS(c_,h,3) COLLAPSE(c_,4) READZ(c_,5)" % (t, a, b)]
        S.append("m.eq(6, (u128)thls::bit_heap_collapse(c_).bits, (in[0] & mk_(%d)) * (in[1] & mk_(%d)));" % (a, b))
        if a + b > 1:
            S.append("PRINT(h,7)")
        L.append(emit_program("mul", i, S, 2, 7))
    return dict(binaries=[Binary("heap", ["drv_heap"], pre2("inst_heap.hpp", WANT_BIT="1"), L, scale=60 if big else 10, per_tu=5)],
                rule="Programs: random trees of leaf / direct construction with columns of uneven height / pad / merge / compress over up to 14 heaps, full columns of every height 0..25 and more, multipliers over widths and splits.  Inputs: all "
                     "zeros, all ones, common patterns in all leaves (full columns), runs, alternating, random.  Every step of every program is checked for conservation by an independent reader.  Non-trivial: every run; distinct by inputs.",
                must_see=["conservation_checks", "runs_dropping_a_carry_at_the_top", "merge", "mul", "columns"])


def row_program(r, maxw, n):
    S, live, k, step = [], [], 0, 0
    for i in range(n):
        step += 1
        w = r.choice([1, 2, maxw]) if r.random() < 0.3 else r.randint(1, maxw)
        nm = "h%d" % step
        if live and r.random() < 0.4:
            a = live.pop(r.randrange(len(live)))
            S.append("RADDU(%s,%s,%d,%d,%d,%d,%d)" % (nm, a[0], w, k, max(a[1], w), a[2] + 1, step))
            live.append((nm, max(a[1], w), a[2] + 1))
        else:
            S.append("RLEAF(%s,%d,%d,%d)" % (nm, w, k, step))
            live.append((nm, w, 1))
        k += 1
    while len(live) > 1:
        step += 1
        nm = "h%d" % step
        a = live.pop(r.randrange(len(live)))
        if a[2] >= 2 and r.random() < 0.3:
            S.append("RCOMPRESS(%s,%s,%d,%d)" % (nm, a[0], a[1], step))
            live.append((nm, a[1], 2))
        else:
            b = live.pop(r.randrange(len(live)))
            w, d = max(a[1], b[1]), a[2] + b[2]
            S.append("RADD(%s,%s,%s,%d,%d,%d)" % (nm, a[0], b[0], w, d, step))
            live.append((nm, w, d))
    nm, w, d = live[0]
    S.append("RREADZ(%s,%d,%d)" % (nm, w, step + 1))
    S.append("RCOMPRESS(c_,%s,%d,%d) RCOLLAPSE(c_,%d,%d) RREADZ(c_,%d,%d)" % (nm, w, step + 2, w, step + 3, w, step + 4))
    return S, k, step + 4


@spec("P15")
def p15(tier, seed):
    r = rngof(seed, "P15")
    big = tier == "thorough"
    L, i = [], 0
    for d in range(2, 25):                                   # every depth, several widths
        for w in (1, 2, 5, 31, 32, 33, 64, 65, 127, 128):
            if d > 12 and w not in (1, 33, 128):
                continue
            S = ["RLEAF(h1,%d,0,1)" % w] + ["RADDU(h%d,h%d,%d,%d,%d,%d,%d)" % (j + 1, j, w, j, w, j + 1, j + 1) for j in range(1, d)]
            S.append("RREADZ(h%d,%d,%d) RCOMPRESS(c_,h%d,%d,%d) RCOLLAPSE(c_,%d,%d) RREADZ(c_,%d,%d)" % (d, w, d + 1, d, w, d + 2, w, d + 3, w, d + 4))
            L.append(emit_program("depth", i, S, d, d + 4))
            i += 1
    for i in range(900 if big else 150):
        L.append(emit_program("tree", i, *row_program(r, r.choice([2, 8, 16, 32, 33, 64, 65, 100, 128]), r.randint(2, 18))))
    return dict(binaries=[Binary("row", ["drv_heap"], pre2("inst_heap.hpp", WANT_ROW="1"), L, scale=20 if big else 3, per_tu=12)],
                rule="Programs: every depth 2..24 at the storage-border widths, and random trees of rows of mixed widths with sums and intermediate compressions.  Inputs as for the bit heaps.  Every step is checked for conservation by an "
                     "independent reader of the rows.  Non-trivial: every run; distinct by inputs.",
                must_see=["conservation_checks", "runs_dropping_a_carry_at_the_top", "tree", "depth"])


@spec("P16")
def p16(tier, seed):
    r = rngof(seed, "P16")
    big = tier == "thorough"
    cf = [(1, 1, 5), (2, 1, 7), (2, 2, 7), (3, 2, 1), (4, 3, 123), (5, 5, 99), (7, 4, 0), (8, 3, 1), (8, 4, 42), (10, 6, 31337), (16, 1, 3), (16, 6, 17), (31, 4, 2), (32, 4, 1), (32, 4, 0xffffffff), (32, 6, 0x80000000),
          (33, 3, 12345), (48, 4, 77), (63, 3, 5), (64, 4, 4), (65, 3, 6), (100, 3, 9), (127, 2, 8), (128, 3, 1)]
    for _ in range(300 if big else 50):
        n = r.randint(1, 40) if r.random() < 0.85 else r.randint(41, 96)
        cf.append((n, r.randint(1, 7 if n < 30 else 4), r.randrange(1 << 32)))
    cf.sort(key=lambda c: c[0] * c[0] * c[1])
    lines = ["INST_LUT(%d,%d,%du)" % c for c in dict.fromkeys(cf)]
    lines = [l for i in range(6) for l in lines[i::6]]                   # spread the wide ones
    return dict(binaries=[Binary("lut", ["drv_lut"], '#include "inst_lut.hpp"', lines, scale=20 if big else 3, per_tu=3)],
                rule="Parameter triples (N,T,S): N 1..128, T 1..7, arbitrary seeds; per triple every unit vector and its complement, every state for N<=10, and histories in lock step with a model whose taps are built at run time from the "
                     "definition, with a second history and their difference for linearity.  Non-trivial: the state is not zero; distinct by state.",
                must_see=["matrix_columns", "history_steps", "linearity_checks", "bits_with_coinciding_taps", "histories"])


class Gen:
    """run-time meaning of the compile-time generators"""
    KINDS = {"q": ("make_quick_and_dirty", 1664525, 1013904223, 1 << 32), "m": ("make_minstdrand0", 16807, 0, 2147483647), "p": ("make_lcg_mod_2y32m5", 1588635695, 0, 4294967291)}

    def __init__(self, kind, seed):
        self.k, (n, self.a, self.c, self.m) = kind, Gen.KINDS[kind]
        self.x = seed % self.m
        self.t = "%s<%du>::type" % (n, seed)

    def skip(self, d):
        if self.c == 0:
            self.x = self.x * pow(self.a, d, self.m) % self.m
        else:
            d %= 1 << 32
            A, C, a, c = 1, 0, self.a, self.c
            while d:
                if d & 1:
                    A, C = a * A % self.m, (a * C + c) % self.m
                a, c = a * a % self.m, (a * c + c) % self.m
                d >>= 1
            self.x = (A * self.x + C) % self.m
        return self.x


def new_gen(r):
    k = r.choice("qmp")
    while True:
        s = r.choice([1, 2, r.randrange(1, 1 << 32), (1 << 32) - 1, (1 << 31) + r.randrange(100)])
        if s % Gen.KINDS[k][3]:
            return Gen(k, s)


def ct_program(r, steps, maxn):
    S, ty, n = [], 0, 0
    vals = lambda: r.choice([0, 1, -1, r.randint(-20, 20), r.randint(-5, 5), r.randint(-(1 << 31), (1 << 31) - 1)])
    lit = lambda v: "I<(int)%dLL>" % v
    live = []

    def tree(xs):                                              # an arbitrarily shaped vector type
        if len(xs) == 1:
            return "ct_vec_leaf<%s >" % lit(xs[0])
        k = r.randint(1, len(xs) - 1)
        return "ct_vec_branch<%s,%s >" % (tree(xs[:k]), tree(xs[k:]))

    def put(expr, model):
        nonlocal n
        n += 1
        S.append("typedef %s V%d;" % (expr, n))
        S.append("VEC(V%d,%d,%s)" % (n, n, ",".join("%dLL" % v for v in model)))
        live.append(("V%d" % n, list(model)))
    for _ in range(steps):
        x = r.random()
        if not live or x < 0.25:
            k = r.choice([1, 2, 3, r.randint(1, maxn), r.randint(1, maxn)])
            y = r.random()
            if y < 0.3:
                v = vals()
                put("create_ct_vec<%d,%s >::type" % (k, lit(v)), [v] * k)
            elif y < 0.6:
                o = r.choice([0, 1, k, r.randint(0, 3 * k), 100000])
                put("create_ct_vec_rotation<%d,%d>::type" % (o, k), [(o + i) % k for i in range(k)])
            else:
                m = [vals() for _ in range(k)]
                put(tree(m), m)
            continue
        nm, m = r.choice(live)
        k = len(m)
        if x < 0.45:
            i, v = r.choice([0, k - 1, r.randrange(k)]), vals()
            put("ct_vec_write<%d,%s,%s >::type" % (i, lit(v) if r.random() < 0.8 else "Opaque<(int)%dLL>" % v, nm), m[:i] + [v] + m[i + 1:])
            if "Opaque" in S[-2]:
                live.pop()                                     # not comparable afterwards
        elif x < 0.6:
            i, j = r.randrange(k), r.choice([0, k - 1, r.randrange(k)])
            q = list(m)
            q[i], q[j] = q[j], q[i]
            put("ct_vec_swap<%d,%d,%s >::type" % (i, j, nm), q)
        elif x < 0.75:
            put("ct_vec_unique<%s >::type" % nm, sorted(set(m)))
        elif x < 0.8 and k < maxn:
            nm2, m2 = r.choice(live)
            if k + len(m2) <= 2 * maxn:
                put("ct_vec_branch<%s,%s >" % (nm, nm2), m + m2)
        else:
            g = new_gen(r)
            q = list(m)
            t = g.t
            for j in range(k, 1, -1):
                s = g.x >> 16
                q[j - 1], q[s % j] = q[s % j], q[j - 1]
                g.skip(1)
            put("ct_vec_permute<%s,%s >::type" % (t, nm), q)
            S.append("typedef ct_vec_permute<%s,%s >::rng G%d; RNG(G%d,%d,%dLL)" % (t, nm, n, n, n, g.x))
    return S, n


def rng_program(r, steps):
    g = new_gen(r)
    S = ["typedef %s R0; RNG(R0,0,%dLL)" % (g.t, g.x)]
    for i in range(1, steps):
        lo = -(1 << 31) if g.c else 1 - (1 << 31)
        d = r.choice([0, 1, 2, 3, -1, -2, -3, r.randint(-40, 40), r.choice([1, -1]) << r.randint(0, 30), r.randint(lo, (1 << 31) - 1), (1 << 31) - 1, lo])
        S.append("typedef skip_by<R%d,(int)(%dLL)>::type R%d;" % (i - 1, d, i))
        if r.random() < 0.5:
            S.append("{ typedef sample_at<R%d,(int)(%dLL)> T_; RNG(T_,%d,%dLL) }" % (i - 1, d, i, Gen.skip(_cp(g), d)))
        g.skip(d)
        S.append("RNG(R%d,%d,%dLL)" % (i, i, g.x))
        if r.random() < 0.3:
            j = r.choice([1, -1, 7, -1000])
            S.append("{ typedef skip_by<skip_by<R%d,%d>::type,%d>::type T_; RNG(T_,%d,%dLL) }" % (i, j, -j, i, g.x))     # there and back
    return S, steps


def _cp(g):
    import copy
    return copy.copy(g)


def helper_program(r, steps):
    S = []
    L64 = lambda v: "INT64_MIN" if v == -(1 << 63) else "%dLL" % v
    val = lambda: r.choice([0, 1, -1, r.randint(-9, 9), r.randint(-(1 << 40), 1 << 40), (1 << 63) - 1, -(1 << 63)])
    for i in range(1, steps + 1):
        x = r.random()
        if x < 0.15:
            a = [val(), val()]
            S.append("MM2(%d,%s,%s,%s,%s)" % ((i,) + tuple(map(L64, a + [max(a), min(a)]))))
        elif x < 0.3:
            a = [val() for _ in range(4)]
            S.append("MM4(%d,%s,%s,%s,%s,%s,%s)" % ((i,) + tuple(map(L64, a + [max(a), min(a)]))))
        elif x < 0.4:
            k = r.randint(0, 62)
            v = r.randint(0, (1 << (63 - k)) - 1)
            S.append("SHL(%d,%s,%d,%s)" % (i, L64(v), k, L64(v << k)))
        elif x < 0.5:
            k, v = r.randint(0, 63), val()
            S.append("SHR(%d,%s,%d,%s)" % (i, L64(v), k, L64(v >> k)))
        elif x < 0.9:
            e = r.randint(-40, 40)
            d = r.choice([0, 1, 2, r.randint(0, 40)])
            v = r.choice([0, 1, r.randint(0, 100), r.randint(0, 1 << 20)])
            w = max(0, (v << d) + r.choice([0, 0, 1, -1, r.randint(-(1 << d), 1 << d), r.randint(-1000, 1000)]))
            p, q = (e + d, v), (e, w)
            c = (v << d > w) - (v << d < w)
            if r.random() < 0.5:
                p, q, c = q, p, -c
            S.append("FIX(%d,%d,%d,%d,%dLL,%d)" % ((i,) + p + q + (c,)))
        else:
            n = r.randint(1, 16)
            S.append("CALLN(%d,%d,%s)" % (i, n, ",".join(str(r.randint(-500, 500)) for _ in range(n))))
    return S, steps


@spec("P17")
def p17(tier, seed):
    r = rngof(seed, "P17")
    big = tier == "thorough"
    L = []

    def emit(op, S, n):
        i = len(L)
        L.append("struct C%d { static void go(const u128 *, u128 *out) { Mon m(out); %s } }; static VtReg VT_UNIQ(r_)(\"%s\", C%d::go, 2, %d, %d);" % (i, " ".join(S), op, i, i, n))
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64):
        S = ["typedef create_ct_vec_rotation<%d,%d>::type A; VEC(A,1,%s)" % (o, n, ",".join(str((o + i) % n) for i in range(n))) for o in (0, 1)][1:]
        S.append("typedef create_ct_vec<%d,I<-3> >::type B; VEC(B,2,%s)" % (n, ",".join(["-3"] * n)))
        S.append("typedef ct_vec_unique<B>::type C; VEC(C,3,-3) typedef ct_vec_unique<A>::type D; VEC(D,4,%s)" % ",".join(map(str, range(n))))
        emit("lengths", S, 4)
    emit("empty", ["m.eq(1,0,create_ct_vec<0,I<1> >::type::N,0); m.eq(1,1,ct_vec_empty::N,0);"], 1)
    for t in ("make_minstdrand0<>", "make_quick_and_dirty<>", "make_lcg_mod_2y32m5<>"):
        emit("selfcheck", ["verify_ct_rng<%s::type>::run(); m.eq(1,0,1,1);" % t], 1)
    for _ in range(800 if big else 110):
        emit("vectors", *ct_program(r, r.randint(4, 14), r.choice([4, 8, 16, 24])))
    for _ in range(2000 if big else 160):
        emit("generators", *rng_program(r, r.randint(4, 24)))
    r.shuffle(L)
    C, L = L, []
    for _ in range(300 if big else 40):
        emit("helpers", *helper_program(r, 30))
    return dict(binaries=[Binary("ct", ["drv_ct"], '#include "inst_ct.hpp"', C, per_tu=6), Binary("cf", ["drv_ct"], '#include "inst_cf.hpp"', L, per_tu=10)],
                rule="Programs: random sequences of create / rotate / arbitrary trees / write / swap / concatenate / permute / unique over vectors of up to 48 elements, and chains of skips and samples (both directions, powers of two, the ends "
                     "of int) over the three generators; compile-time minima, maxima, checked shifts, fixed-point comparisons and argument unpacking.  Every intermediate result is dumped through for_each, read and an order-sensitive fold, and compared with the model on ordinary arrays.  Every observed value counts once.",
                must_see=["values_observed", "steps_observed", "vectors", "generators", "selfcheck", "lengths", "helpers"])


@spec("P18")
def p18(tier, seed):
    r = rngof(seed, "P18")
    big = tier == "thorough"
    L, S = ["INST_TON()"], []
    pool = [(8, 23), (11, 52), (5, 10), (8, 7), (6, 9), (7, 16), (9, 30), (10, 32), (12, 31), (4, 3), (5, 2), (15, 48), (6, 29)]
    pool += [(r.randint(4, 14), r.choice([r.randint(2, 33), r.randint(34, 56)])) for _ in range(90 if big else 12)]
    for e, f in dict.fromkeys(pool):
        for k, n in ((0, "policy_flopoco"), (1, "policy_ieee_on_flopoco")):
            L.append("typedef thls::%s<%d,%d> T%d_%d_%d; INST_POL(T%d_%d_%d,%d,%d,%d,%d) INST_LIMP(T%d_%d_%d::value_t,%d,%d,%d)" % ((n, e, f) + (k, e, f) * 2 + (f + 1, k, e, f) + (k, e, f, k, e, f)))
            if e >= 5 and 4 <= f:
                L.append("typedef thls::%s<%d,%d> U%d_%d_%d; INST_SELF(U%d_%d_%d,%d,%d,%d,%d)" % ((n, e, f) + (k, e, f) * 2 + (f + 1, k, e, f)))
    for e, f in dict.fromkeys([(8, 23), (11, 52), (5, 10), (8, 7), (9, 23), (8, 24), (7, 22), (4, 2), (12, 40), (6, 30), (10, 5)] + [(r.randint(2, 14), r.randint(1, 56)) for _ in range(60 if big else 12)]):
        L.append("INST_TO(%d,%d)" % (e, f))
    for t, d, e, f in (("single", 24, 8, 23), ("double", 53, 11, 52)):
        L.append("INST_POL(thls::policy_native_%s,%d,2,%d,%d) INST_SELF(thls::policy_native_%s,%d,2,%d,%d) INST_LIMP(thls::policy_native_%s::value_t,2,%d,%d)" % (t, d, e, f, t, d, e, f, t, e, f))
        S.append("INST_POL(thls::policy_softfloat_%s,%d,3,%d,%d) INST_SELF(thls::policy_softfloat_%s,%d,3,%d,%d) INST_LIMP(thls::policy_softfloat_%s::value_t,3,%d,%d)" % (t, d, e, f, t, d, e, f, t, e, f))
    S = [" ".join(S)]                                          # the softfloat headers fit in one translation unit only
    sc = 20 if big else 4
    return dict(binaries=[Binary("policy", ["fpo", "drv_pol"], pre2("inst_pol.hpp"), L, scale=sc, per_tu=2),
                          Binary("soft", ["fpo", "drv_pol"], pre2("inst_pol.hpp", WANT_SOFT="1"), S, scale=sc * 6, per_tu=1, shards=8)],
                rule="Programs of 1 to 24 steps (+ * / += *= copy and all six comparisons) over four variables started from add-, mul- and div-hostile operand pairs and specials; results feed later steps.  Every step is compared with exact "
                     "arithmetic in the policy's format and, in the single and double formats, with the hardware.  The policies' MPFR references, limits, conversions and self-tests are checked alongside.  Non-trivial: programs of several "
                     "steps; distinct by start values and instructions.",
                must_see=["program_steps", "steps_against_hardware", "comparisons_against_hardware", "unordered_comparisons", "reference_checks", "conversions", "selftests", "limits", "flopoco", "ieee_on_flopoco", "native", "softfloat"])


@spec("P19")
def p19(tier, seed):
    big = tier == "thorough"
    return dict(binaries=[Binary("soft", ["fpo", "drv_soft"], pre2("inst_soft.hpp"), ["SOFT_ALL"], scale=100 if big else 12, per_tu=1, shards=12, cpu=7000 if big else 800)],
                rule="Operand pairs: add-, mul- and div-hostile normal pairs, subnormals of every length, results and ties at the subnormal and overflow borders, neighbouring patterns, uniform bits.  The oracle is the hardware FPU, itself "
                     "cross-checked against exact integer arithmetic.  Non-trivial: no operand is NaN or infinity; distinct by operand bits.",
                must_see=["result_subnormal", "subnormal_operand", "overflow", "result_nan", "nan_operand", "hardware_crosschecked", "f32_add", "f32_mul", "f32_div", "f64_add", "f64_mul", "f64_div", "f32_lt", "f64_le", "true", "false"])


# words at the borders of their storage types are in every sanitizer run
FW_STORAGE = re.compile(r"FW1\((arith|conv),Fw\w+,(1|31|32|33|63|64|65|127|128)\)|FW2\(mul,FwMul,(1,1|31,32|32,32|32,33|63,1|64,1|33,31|64,64|1,127)\)|FW1\(square,FwSquare,(1|16|32|33|64)\)")


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]


def sampled(tier, seed, tag, quota, flt=None, border=None):
    """a stratified sample of every other check's instantiations: (binary, lines)"""
    r = rngof(seed, tag)
    out = []
    for p, q in quota.items():
        bs = SPECS[p](tier, seed)["binaries"]
        for b in bs:
            strata = {}
            for l in b.lines:
                if flt and not flt(l):
                    continue
                m = re.search(r'VtReg VT_UNIQ\(r_\)\("(\w+)"', l) or re.match(r"(\w+\([A-Za-z_]\w*|\w+)", l)
                k = m.group(1)
                if l.startswith("INST_CV"):
                    k = l.split(",")[0] + l.split(",")[1]
                strata.setdefault(k, []).append(l)
            n = max(1, q // len(bs))
            lines, keys = [], sorted(strata)
            for k in keys:
                r.shuffle(strata[k])
            must = [l for k in keys for l in strata[k] if border and border.match(l)]
            lines += must
            for k in keys:
                strata[k] = [l for l in strata[k] if l not in must]
            n += len(must)
            while len(lines) < max(n, len(keys)) and any(strata.values()):
                for k in keys:
                    if strata[k]:
                        lines.append(strata[k].pop())
            out.append((p, b, lines))
    return out


@spec("P20")
def p20(tier, seed):
    big = tier == "thorough"
    m = 8 if big else 1
    B = []
    quota = {"P01": 24, "P02": 40, "P03": 24, "P04": 20, "P05": 24, "P06": 10, "P07": 10, "P08": 40, "P09": 16, "P10": 10, "P11": 30, "P12": 24, "P13": 40, "P14": 24, "P15": 16, "P16": 10, "P17": 16, "P18": 12, "P23": 40, "P24": 12}
    env = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:abort_on_error=0:exitcode=23", "UBSAN_OPTIONS": "print_stacktrace=1"}
    for cxx, tag, mult in (("clang++", "c", 1.0), ("g++", "g", 0.25)):
        for p, b, lines in sampled(tier, seed, "P20" + cxx, {k: max(3, int(v * m * mult)) for k, v in quota.items()}, border=FW_STORAGE if cxx == "clang++" else None):
            B.append(Binary("%s_%s_%s" % (tag, p, b.name), b.drivers, b.preamble, lines, cxx=cxx, flags=SAN, drv_flags=["-DVT_SAN"], link=SAN, shards=4, scale=0.1 * (4 if big else 1), env=env,
                            per_tu=4 if cxx == "clang++" else 3, cpu=700, extra_args=b.extra_args))
    B.append(Binary("c_soft", ["fpo", "drv_soft"], pre2("inst_soft.hpp"), ["SOFT_ALL"], cxx="clang++", flags=SAN, drv_flags=["-DVT_SAN"], link=SAN, shards=12, scale=0.15 * m, env=env))
    B.append(Binary("g_soft", ["fpo", "drv_soft"], pre2("inst_soft.hpp"), ["SOFT_ALL"], cxx="g++", flags=SAN, drv_flags=["-DVT_SAN"], link=SAN, shards=12, scale=0.15 * m, env=env))
    # uninitialised values: integer-only operations (GMP and MPFR are not instrumented)
    MS = ["-fsanitize=memory", "-fno-omit-frame-pointer", "-g1"]
    qm = {"P01": 12, "P02": 24, "P03": 12, "P04": 10, "P05": 12, "P06": 6, "P07": 6, "P08": 24, "P09": 10, "P10": 8, "P12": 6, "P13": 20, "P24": 8, "P16": 5}
    for p, b, lines in sampled(tier, seed, "P20m", {k: v * m for k, v in qm.items()}, lambda l: "FwConv" not in l):
        B.append(Binary("m_%s_%s" % (p, b.name), b.drivers, b.preamble, lines, cxx="clang++", flags=MS, drv_flags=["-DVT_SAN", "-DVT_MSAN"], link=["-fsanitize=memory"], shards=4, scale=0.1 * (4 if big else 1), per_tu=4, cpu=700))
    return dict(binaries=B, only=r"/(sanitizer|crash|died|no-termination|uninitialised|crash-outside-call)$|^compile/",
                rule="A stratified random sample of the instantiations of every other check, rebuilt with AddressSanitizer + UndefinedBehaviorSanitizer + leak detection (clang and gcc) and, for the integer-only operations, with MemorySanitizer; "
                     "the same hostile workloads run over them.  Non-trivial and distinct as in the check an instantiation comes from.",
                must_see=["normal_tie", "conservation_checks", "program_steps", "values_observed", "history_steps"])


@spec("P21")
def p21(tier, seed):
    big = tier == "thorough"
    m = 6 if big else 1
    B = []
    TS = ["-fsanitize=thread", "-g1", "-fno-omit-frame-pointer"]
    env = {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:history_size=3:exitcode=66"}
    quota = {"P01": 20, "P02": 40, "P03": 20, "P04": 20, "P05": 24, "P06": 8, "P07": 8, "P08": 36, "P09": 12, "P10": 8, "P12": 16, "P13": 40, "P14": 16, "P15": 12, "P16": 10, "P17": 12, "P18": 10, "P23": 40, "P24": 10}
    for p, b, lines in sampled(tier, seed, "P21", {k: max(3, v * m) for k, v in quota.items()}):
        if b.name in ("nat",):
            continue
        B.append(Binary("t_%s_%s" % (p, b.name), b.drivers, b.preamble, lines, cxx="clang++", flags=TS + ["-DVT_THR"], drv_flags=["-DVT_SAN", "-DVT_THR"], link=["-fsanitize=thread"], shards=3, scale=0.02, env=env,
                        per_tu=4, cpu=700, extra_args=b.extra_args))
    r = rngof(seed, "P21n")
    L = []
    for e, f in dict.fromkeys([(8, 23), (11, 52), (5, 10), (3, 4), (15, 70), (r.randint(2, 11), r.randint(1, 60))] + [(r.randint(2, 16), r.randint(1, 100)) for _ in range(2 * m)]):
        L += ["INST_NATT(%d,%d)" % (e, f), "INST_NATTI(%d,%d)" % (e, f)]
    B.append(Binary("t_nat", ["fpo", "drv_natt"], pre2("inst_natt.hpp"), L, cxx="clang++", flags=TS + ["-DVT_THR"], drv_flags=["-DVT_SAN", "-DVT_THR"], link=["-fsanitize=thread"], shards=3, scale=0.05, env=env, per_tu=2, cpu=700))
    B.append(Binary("t_soft", ["fpo", "drv_soft"], pre2("inst_soft.hpp"), ["SOFT_ALL"], cxx="clang++", flags=TS + ["-DVT_THR"], drv_flags=["-DVT_SAN", "-DVT_THR"], link=["-fsanitize=thread"], shards=2, scale=0.02, env=env))
    return dict(binaries=B, only=r"/(sanitizer|state-changed|shared-operands-differ|reordered-differ|concurrent-differ|input-modified|operand-modified|crash-concurrent|died)$|^compile/",
                rule="A stratified sample of the instantiations of every other check, rebuilt with ThreadSanitizer.  A child process records single-threaded executions; a process that has not used the library yet replays them on 6 threads, "
                     "each operation's first use concurrently, then in per-thread orders with injected delays and dirtied stacks, then on shared read-only operand objects; MPFR's flags, default precision and default rounding differ at every replayed call, and process state (MPFR exponent range and defaults, rounding mode, stream formats, locale) is compared around calls.  Non-trivial and distinct as in the check an instantiation comes from.",
                must_see=["recorded_executions", "concurrent_replays", "injected_delays", "concurrent_first_uses", "overlapping_calls_observed", "process_state_compared"])

# what a tool chain brings along; the library leaves these out when building for synthesis
SYN_PRE = "".join("#include <%s>\n" % h for h in ("cassert", "cstdlib", "cstring", "climits", "cmath", "limits", "algorithm", "array", "random", "string", "sstream", "iostream", "stdexcept", "functional", "vector", "cstdio", "utility", "memory", "map", "set")) + "#include <gmp.h>\n#include <mpfr.h>\n"


def debug_call(l):
    """the same call with the tracing argument on"""
    if l.startswith("INST_BINX") or l.startswith("INST_UNX"):
        m = re.match(r"(INST_\w+\(\w+,\(thls::(\w+)<[\d,]+>\((?:x,y|x))(,0)?(\)\).*)$", l)
        return m and m.group(2) != "convert" and m.group(1) + ",1" + m.group(4)
    if l.startswith("INST_FMA"):
        return l.replace("INST_FMA(", "INST_FMAD(")
    if l.startswith("INST_DOT"):
        return re.sub(r"INST_DOT(\d)\(", r"INST_DOT\1D(", l)
    return None


@spec("P25")
def p25(tier, seed):
    big = tier == "thorough"
    m = 6 if big else 1
    B = []
    fp = {"P01": 32, "P02": 80, "P03": 32, "P04": 28, "P05": 32, "P06": 12}
    rest = {"P07": 10, "P08": 40, "P09": 24, "P10": 12, "P12": 30, "P13": 70, "P14": 16, "P15": 20, "P16": 8}
    q = dict(fp, **rest)
    times = lambda d, k: {p: max(4, int(v * m * k)) for p, v in d.items()}
    sc = 1.5 if big else 0.5

    def put(tag, p, b, lines, preamble, **kw):
        B.append(Binary("%s_%s_%s" % (tag, p, b.name), b.drivers, preamble, lines, shards=4, scale=b.scale * sc, per_tu=max(4, b.per_tu), extra_args=b.extra_args, **kw))
    # the configuration handed to a synthesis tool
    for p, b, lines in sampled(tier, seed, "P25s", times(q, 1), lambda l: not re.search(r"FwConv|FwRand|FwConst", l)):
        if not lines:
            continue
        lines = [re.sub(r"\bR?(READZ|PRINT)\([^()]*\)", "", l) for l in lines]
        put("syn", p, b, lines, SYN_PRE + "#define VT_SYN 1\n" + b.preamble, flags=["-DTHLS_SYNTHESIS=1", "-D__SYNTHESIS__=1"])
    # optimised release build, later standard; another compiler; default backend selection
    for p, b, lines in sampled(tier, seed, "P25n", times(dict(q, P11=24, P17=10, P18=6, P24=10), 0.4)):
        put("ndebug", p, b, lines, b.preamble, flags=["-DNDEBUG", "-O3", "-std=c++17"])
    for p, b, lines in sampled(tier, seed, "P25c", times(dict(q, P11=24, P17=10, P18=6, P24=10), 0.4)):
        put("clang", p, b, lines, b.preamble, flags=["-O2", "-std=c++14", "-UTHLS_FW_UINT_ON_MASKED_UINT"], cxx="clang++")
    # tracing on
    for p, b, lines in sampled(tier, seed, "P25d", times(dict(fp, P07=10), 0.6), debug_call):
        b2 = [debug_call(l) for l in lines]
        put("trace", p, b, b2, "#include <iostream>\n#include <sstream>\n" + b.preamble + "static struct Quiet { Quiet() { std::cerr.setstate(std::ios::failbit); if (!std::freopen(\"/dev/null\", \"w\", stderr)) std::abort(); } } quiet_;\n")
    return dict(binaries=B, rule="A stratified sample of the instantiations of the other checks, rebuilt in four further configurations - THLS_SYNTHESIS with __SYNTHESIS__, g++ -NDEBUG -O3 C++17, clang++ -O2 C++14 with the backend the library picks by itself, and tracing (DEBUG=1) on - and run under the same operand generators and oracles as there.", must_see=["normal_tie", "conservation_checks", "history_steps", "slice", "equal"])


@spec("P22")
def p22(tier, seed):
    big = tier == "thorough"
    m = 6 if big else 1
    B = []
    quota = {"P01": 50, "P02": 120, "P03": 60, "P04": 40, "P05": 80, "P06": 24, "P08": 160, "P09": 60, "P10": 60, "P24": 20}
    for p, b, lines in sampled(tier, seed, "P22", {k: v * m for k, v in quota.items()}):
        B.append(Binary("x_%s_%s" % (p, b.name), b.drivers, b.preamble, lines, drv_flags=["-DVT_META"], shards=6, scale=0.25 if not big else 3, per_tu=8, extra_args=b.extra_args))
    return dict(binaries=B, only=r"/(payload|crash|died|no-termination)$|^compile/",
                rule="Every execution of a stratified sample of the other floating-point checks is taken, at least one operand is replaced by a zero, infinity or NaN with cleared unused bits, and the result is compared with three further executions "
                     "whose operands differ only in the unused bits (exponent, fraction, sign of a NaN; for the IEEE layout NaN payloads, NaN signs and subnormal fractions).  Non-trivial: the operands of the pair differ; distinct by both operand tuples.",
                must_see=["scrambled_pairs", "normal_result", "zero_result", "inf_result", "nan_result"])


@spec("P23")
def p23(tier, seed):
    r = rngof(seed, "P23")
    big = tier == "thorough"
    L = []
    base = [(2, 1), (3, 2), (4, 3), (5, 2), (5, 10), (8, 7), (8, 23), (11, 52), (15, 61), (13, 100)]
    pick = lambda: r.choice(base) if r.random() < 0.4 else (r.randint(2, 16), r.randint(1, 100))
    n = 120 if big else 24
    for nme in ("add", "mul", "div", "pow"):
        fm = [(f, f, f) for f in base if nme != "pow" or f[1] < 60] + [(pick(), pick(), pick()) for _ in range(n)]
        for a, b, d in dict.fromkeys(fm):
            if nme == "pow":
                a, b, d = [(min(x[0], 9), min(x[1], 40)) for x in (a, b, d)]
            if nme != "pow" and r.random() < 0.15:
                a = (r.choice(BIG_E), min(a[1], 90))
            L.append("RF2(%s,%d,%d,%d,%d,%d,%d)" % ((nme,) + a + b + d))
    for nme, mac in (("neg", "RF1"), ("convert", "RF1D"), ("inv", "RF1D"), ("square", "RF1D"), ("sqrt", "RF1"), ("log", "RF1"), ("exp", "RF1")):
        fm = [(f, f) for f in base] + [(pick(), pick()) for _ in range(n)]
        for a, b in dict.fromkeys(fm):
            L.append("%s(%s,%d,%d,%d,%d)" % ((mac, nme) + a + b))
    for a, b in dict.fromkeys([(f, f) for f in base] + [(pick(), pick()) for _ in range(n)]):
        L.append("RFAITH(%d,%d,%d,%d)" % (a + b))
        L.append("RLDEXP(%d,%d,%d,%d,%d)" % ((r.choice([0, 1, -1, 5, -7, 40, -300, 3000]),) + a + b))
    for _ in range(4 * n):
        L.append("RFMA(%d,%d,%d,%d,%d,%d,%d,%d)" % (pick() + pick() + pick() + pick()))
    for f in base[1:]:
        L.append("RFMA(%d,%d,%d,%d,%d,%d,%d,%d)" % (f * 4))
    for nme in ("add", "mul"):
        for a, b, d in dict.fromkeys([(f, f, f) for f in base] + [(pick(), pick(), pick()) for _ in range(n)]):
            L.append("RFI(%s,%d,%d,%d,%d,%d,%d)" % ((nme,) + a + b + d))
    for f in base + [pick() for _ in range(n)]:
        L.append("RSRC(%d,%d)" % f)
    for f in [(5, 3), (5, 10), (8, 7), (8, 23), (11, 52), (15, 61), (6, 100)] + [(r.randint(5, 16), r.randint(5, 90)) for _ in range(n)]:
        L.append("RMKIN(%d,%d)" % f)
    for f in [(3, 3), (4, 3), (8, 7), (8, 22), (5, 10), (8, 11), (9, 12), (10, 9), (11, 7), (12, 5), (11, 52)] + [(r.randint(2, 10), r.randint(1, 60)) for _ in range(n)]:
        L.append("RDOT2(%d,%d)" % f)
    for f in [(3, 3), (4, 3), (8, 5), (8, 6), (8, 7), (5, 10), (8, 20), (9, 5), (10, 4), (11, 4), (11, 9)] + [(r.randint(2, 9), r.randint(1, 20)) for _ in range(n)]:
        L.append("RDOT4(%d,%d)" % f)
    return dict(binaries=[Binary("ref", ["fpo", "drv_ref"], pre2("inst_ref.hpp"), list(dict.fromkeys(L)), scale=60 if big else 8, per_tu=8)],
                rule="Operands by the generators of the hardware checks (ties, cancellation, range borders, specials with payload), all patterns of the tiniest formats; transcendental functions are decided by interval evaluation at rising precision "
                     "until both ends round alike.  Random-source histories: 4000 draws under random sets of disabled classes; operand lists of any length after any prefix.  Non-trivial: finite operands with an inexact, cancelled, overflowing or underflowing result; distinct by operands.",
                must_see=["normal_tie", "overflow_to_inf", "underflow_to_zero", "transcendental", "exact_cancellation", "source_histories", "operand_lists", "dot_reference", "exhaustive_configs"])
