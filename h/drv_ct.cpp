// Runs compile-time-vector programs and reports what their embedded element monitor saw.
#include "vtcore.hpp"
void check_entry(Ctx &c)
{
    u128 in[1] = { (u128)c.e->p[0] }, out[16] = { 0 };
    bool ok = c.call(in, 1, out);
    if (!ok) return;
    c.bucket(c.e->op);
    c.bucket("values_observed", (uint64_t)out[0]);
    c.bucket("steps_observed", (uint64_t)out[12]);
    for (uint64_t i = 0; i < (uint64_t)out[0]; i++) { u128 k[2] = { (u128)c.e->p[0], i }; c.seen(k, 2, true); }
    for (int k = 0; k < (int)out[1] && k < 2; k++) {
        u128 *b = out + 2 + 4 * k;
        c.violation("step" + std::to_string((int)b[0]), "element " + std::to_string((long long)b[1]) + ": observed " + std::to_string((long long)b[2]) + ", the model has " + std::to_string((long long)b[3]));
    }
    if (!out[0]) c.violation("nothing", "the program observed nothing");
    c.sample("program run");
}
