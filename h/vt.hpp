// Registry between instantiation TUs (compiled against /repo/include, C++11) and
// the drivers (generators + oracles), which never include a library header.
#ifndef VT_HPP
#define VT_HPP
#include <stdint.h>
typedef unsigned __int128 u128;
struct VtEntry {
    const char *op;      // operation name
    int np;              // number of integer parameters
    int p[12];           // parameters (widths, ...)
    void (*fn)(const u128 *in, u128 *out);
};
void vt_register(const VtEntry &e);
struct VtReg {
    VtReg(const char *op, void (*fn)(const u128 *, u128 *), int np,
          int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0, int g = 0, int h = 0)
    {
        VtEntry x = { op, np, { a, b, c, d, e, f, g, h, 0, 0, 0, 0 }, fn };
        vt_register(x);
    }
};
#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#define VT_UNIQ(x) VT_CAT(x, __COUNTER__)
#endif
