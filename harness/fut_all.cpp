#include "fut.h"
namespace fh {

template <class R>
static void async_(const Attach& a, const J& op) {
    LogExec ex{a.n, a.x};
    if (op.has("arg"))
        a.dst->set(stlab::async(ex, Fn<R>{a.n}, Val(op.num("arg"))));
    else
        a.dst->set(stlab::async(ex, Fn<R>{a.n}));
}
void op_async(const Attach& a, const J& op) {
    switch (a.rk) {
        case 'V': async_<Val>(a, op); break;
        case 'M': async_<MVal>(a, op); break;
        case '0': async_<void>(a, op); break;
        case 'v': async_<future<Val>>(a, op); break;
        case 'm': async_<future<MVal>>(a, op); break;
        case 'o': async_<future<void>>(a, op); break;
    }
}

template <class R>
static void pkg_(const Attach& a) {
    LogExec ex{a.n, a.x};
    auto p = stlab::package<R(Val)>(ex, Fn<R>{a.n});
    a.src->p = std::move(p.first); // the promise end goes to the source slot
    a.src->has_p = true;
    a.dst->set(std::move(p.second));
}
void op_pkg(const Attach& a) {
    switch (a.rk) {
        case 'V': pkg_<Val>(a); break;
        case 'M': pkg_<MVal>(a); break;
        case '0': pkg_<void>(a); break;
        case 'v': pkg_<future<Val>>(a); break;
        case 'm': pkg_<future<MVal>>(a); break;
        case 'o': pkg_<future<void>>(a); break;
    }
}

template <class T>
static future<T> take(Slot& s, bool rv) {
    if constexpr (std::is_same_v<T, MVal>) rv = true;
    if (rv) {
        s.k = 0;
        return std::move(s.fut<T>());
    }
    if constexpr (std::is_same_v<T, MVal>) return {};
    else return s.fut<T>();
}

static Slot& sl(const J& op, int i) { return slots[op.at("h").a[i].n]; }

template <class T>
static void all_range(const Attach& a, const J& op) {
    std::vector<future<T>> v;
    for (size_t i = 0; i < op.at("h").a.size(); ++i) v.push_back(take<T>(sl(op, i), a.rv));
    if constexpr (std::is_void_v<T>)
        a.dst->set(stlab::when_all(LogExec{a.n, a.x}, Fn<Val>{a.n}, std::make_pair(v.begin(), v.end())));
    else
        a.dst->set(stlab::when_all(LogExec{a.n, a.x}, Fn<Val>{a.n}, std::make_pair(v.begin(), v.end())));
}
template <class... T>
static void all_var(const Attach& a, const J& op) {
    int i = 0;
    auto tup = std::tuple<future<T>...>{take<T>(sl(op, i++), a.rv)...};
    a.dst->set(std::apply(
        [&](auto&&... f) { return stlab::when_all(LogExec{a.n, a.x}, Fn<Val>{a.n}, std::move(f)...); },
        std::move(tup)));
}
void op_all(const Attach& a, const J& op) {
    string k = op.str("ks");
    if (op.num("range")) {
        if (k == "V") all_range<Val>(a, op);
        else if (k == "M") all_range<MVal>(a, op);
        else all_range<void>(a, op);
        return;
    }
    if (k == "V") all_var<Val>(a, op);
    else if (k == "0") all_var<void>(a, op);
    else if (k == "VV") all_var<Val, Val>(a, op);
    else if (k == "V0") all_var<Val, void>(a, op);
    else if (k == "0V") all_var<void, Val>(a, op);
    else if (k == "00") all_var<void, void>(a, op);
    else if (k == "MV") all_var<MVal, Val>(a, op);
    else if (k == "VVV") all_var<Val, Val, Val>(a, op);
    else if (k == "V0V") all_var<Val, void, Val>(a, op);
    else if (k == "0VM") all_var<void, Val, MVal>(a, op);
}

template <class T>
static void any_range(const Attach& a, const J& op) {
    std::vector<future<T>> v;
    for (size_t i = 0; i < op.at("h").a.size(); ++i) v.push_back(take<T>(sl(op, i), a.rv));
    a.dst->set(stlab::when_any(LogExec{a.n, a.x}, Fn<Val>{a.n}, std::make_pair(v.begin(), v.end())));
}
template <class... T>
static void any_var(const Attach& a, const J& op) {
    int i = 0;
    auto tup = std::tuple<future<T>...>{take<T>(sl(op, i++), a.rv)...};
    a.dst->set(std::apply(
        [&](auto&&... f) { return stlab::when_any(LogExec{a.n, a.x}, Fn<Val>{a.n}, std::move(f)...); },
        std::move(tup)));
}
void op_any(const Attach& a, const J& op) {
    string k = op.str("ks");
    if (op.num("range")) {
        if (k == "V") any_range<Val>(a, op);
        else if (k == "M") any_range<MVal>(a, op);
        else any_range<void>(a, op);
        return;
    }
    if (k == "V") any_var<Val>(a, op);
    else if (k == "VV") any_var<Val, Val>(a, op);
    else if (k == "VVV") any_var<Val, Val, Val>(a, op);
    else if (k == "M") any_var<MVal>(a, op);
    else if (k == "MM") any_var<MVal, MVal>(a, op);
    else if (k == "0") any_var<void>(a, op);
    else if (k == "00") any_var<void, void>(a, op);
    else if (k == "000") any_var<void, void, void>(a, op);
}
} // namespace fh
