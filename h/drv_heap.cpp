// Runs heap programs on bit patterns that fill, empty and alternate columns; the conservation monitor is inside the program.
#include "vtcore.hpp"
static u128 pat(Rng &r)
{
    switch (r.below(9)) {
    case 0: return 0;
    case 1: return ~(u128)0;
    case 2: return ~((u128)1 << r.below(128));
    case 3: return (u128)1 << r.below(128);
    case 4: return maskw((int)r.below(129));
    case 5: return ~maskw((int)r.below(129));
    case 6: return ((u128)0x5555555555555555ull << 64 | 0x5555555555555555ull) << r.below(2);
    default: return r.bits(128);
    }
}
void check_entry(Ctx &c)
{
    int nin = c.e->p[1];                       // p: program id, inputs, steps
    uint64_t n = c.cases(120);
    Rng &r = c.rng;
    for (uint64_t i = 0; i < n && !c.stop(); i++) {
        u128 in[40], out[16];
        int mode = (int)r.below(5);
        u128 common = pat(r);
        for (int j = 0; j < nin; j++) in[j] = i == 0 ? 0 : i == 1 ? ~(u128)0 : mode == 0 ? ~(u128)0 : mode == 1 ? common : mode == 2 && r.one_in(4) ? ~common : pat(r);
        bool ok = c.call(in, nin, out);
        c.seen(in, nin, true);
        if (!ok) { c.bucket("crashed_in_step"); continue; }
        c.bucket("conservation_checks", (uint64_t)out[0]);
        if (out[8]) c.bucket("runs_dropping_a_carry_at_the_top");
        for (int k = 0; k < (int)out[1] && k < 2; k++) {
            std::string s; for (int j = 0; j < nin && j < 8; j++) s += " " + hex(in[j]);
            c.violation("step" + std::to_string((int)out[2 + 3 * k]), "observed " + hex(out[3 + 3 * k]) + ", conservation demands " + hex(out[4 + 3 * k]) + " in:" + s);
        }
    }
    c.bucket(c.e->op);
    c.sample("program run");
}
