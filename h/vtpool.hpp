// Operand objects shared by all threads of the concurrent replay (see vtthr.hpp).
#ifndef VTPOOL_HPP
#define VTPOOL_HPP
#include <map>
#include <new>
#include <string.h>
extern "C" { extern int vt_pool_mode; }
void vt_pool_register(int (*check)());
template<class T> struct VtPool {
    struct Slot { T *obj; unsigned char img[sizeof(T)]; };
    typedef std::map<u128, Slot> M;
    static M &m() { static M *x = mk(); return *x; }
    static M *mk() { vt_pool_register(check); return new M; }
    static int check() { int n = 0; for (typename M::iterator i = m().begin(); i != m().end(); ++i) n += memcmp((const void *)i->second.obj, i->second.img, sizeof(T)) != 0; return n; }
    template<class F> static const T &get(u128 b, F f)
    {
        if (vt_pool_mode == 2) { typename M::iterator i = m().find(b); if (i != m().end()) return *i->second.obj; }
        if (vt_pool_mode == 1) {
            typename M::iterator i = m().find(b);
            if (i == m().end()) {
                Slot s; s.obj = (T *)memset(::operator new(sizeof(T)), 0, sizeof(T)); new ((void *)s.obj) T(f(b)); memcpy(s.img, (const void *)s.obj, sizeof(T));
                i = m().insert(std::make_pair(b, s)).first;
            }
            return *i->second.obj;
        }
        static thread_local unsigned k; static thread_local unsigned char ring[16][sizeof(T)] __attribute__((aligned(16)));
        unsigned char *p = ring[k++ & 15]; new ((void *)p) T(f(b)); return *(const T *)p;
    }
};
#endif
