// compiled once per -DFH_T=<Val|MVal|void> -DFH_OP=<then|rec>
#include "fut.h"
namespace fh {

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifdef FH_RECOVER
#define METHOD recover
#define OPER ^
#define NAME op_rec
#else
#define METHOD then
#define OPER |
#define NAME op_then
#endif

template <class R>
static void attach(const Attach& a) {
    using T = FH_T;
    auto& f = a.src->fut<T>();
    LogExec ex{a.n, a.x};
    Fn<R> fn{a.n};
    if (a.rv || std::is_same_v<T, MVal>) {
        a.src->k = 0;
        if (!a.x) {
            if (a.form == 0) a.dst->set(std::move(f).METHOD(std::move(fn)));
            else a.dst->set(std::move(f) OPER std::move(fn));
        } else if (a.form == 0)
            a.dst->set(std::move(f).METHOD(ex, std::move(fn)));
        else if (a.form == 1)
            a.dst->set(std::move(f) OPER (stlab::executor{ex} & std::move(fn)));
        else
            a.dst->set(std::move(f) OPER (std::move(fn) & stlab::executor{ex}));
    } else if constexpr (!std::is_same_v<T, MVal>) {
        if (!a.x) {
            if (a.form == 0) a.dst->set(f.METHOD(std::move(fn)));
            else a.dst->set(f OPER std::move(fn));
        } else if (a.form == 0)
            a.dst->set(f.METHOD(ex, std::move(fn)));
        else if (a.form == 1)
            a.dst->set(f OPER (stlab::executor{ex} & std::move(fn)));
        else
            a.dst->set(f OPER (std::move(fn) & stlab::executor{ex}));
    }
}

template <>
void NAME<FH_T>(const Attach& a) {
    switch (a.rk) {
        case 'V': attach<Val>(a); break;
        case 'M': attach<MVal>(a); break;
        case '0': attach<void>(a); break;
        case 'v': attach<future<Val>>(a); break;
        case 'm': attach<future<MVal>>(a); break;
        case 'o': attach<future<void>>(a); break;
    }
}
} // namespace fh
