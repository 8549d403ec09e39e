// stlab::task<> against Task.tla
#include "seq.h"
#include <memory>
#include <set>
#include <stlab/concurrency/task.hpp>
#include <typeinfo>

namespace {
using namespace stlab;
struct Boom { long n; };
struct CopyFail {};

// what every callable carries: alive from its construction to its destruction, once
struct Tok {
    static inline std::set<const void*> live;
    static inline long wrong = 0;
    int id = 0;       // 0: moved from
    int count = 0;
    explicit Tok(int i) : id(i) { in(); }
    Tok(const Tok& x) : id(x.id), count(x.count) { x.here(); in(); }
    Tok(Tok&& x) noexcept : id(x.id), count(x.count) { x.here(); in(); x.id = 0; }
    Tok& operator=(const Tok&) = delete;
    ~Tok() { here(); live.erase(this); }
    void in() { if (!live.insert(this).second) ++wrong; }
    void here() const { if (!live.count(this)) ++wrong; }
    long call(long n) noexcept { here(); return id * 100 + ++count * 10 + n; }
    static long held() { // those that have not been moved away
        long r = 0;
        for (auto p : live) r += static_cast<const Tok*>(p)->id != 0;
        return r;
    }
};

// signatures: a number goes in and a number comes out
struct Int {
    using sig = int(int);
    using R = int;
    static constexpr bool nx = false;
    static R out(long v) { return int(v); }
    template <class T> static long call(T& t, long n) { return t(int(n)); }
    static long in(int n) { return n; }
};
struct IntNx : Int { using sig = int(int) noexcept; static constexpr bool nx = true; };
struct Mo {
    using R = std::unique_ptr<long>;
    using sig = R(std::unique_ptr<long>);
    static constexpr bool nx = false;
    static R out(long v) { return std::make_unique<long>(v); }
    template <class T> static long call(T& t, long n) { return *t(std::make_unique<long>(n)); }
    static long in(const std::unique_ptr<long>& n) { return *n; }
};
struct Ref {
    using R = long&;
    using sig = R(long&, const int&);
    static constexpr bool nx = false;
    static inline long cell = 0;
    static R out(long v) { cell = v; return cell; }
    template <class T> static long call(T& t, long n) {
        long a = n - 3;
        const int b = 3;
        auto& r = static_cast<long&>(t(a, b));
        if (a != n + 1000) ++Tok::wrong; // it was given a itself
        return &r == &cell ? r : -7;
    }
    static long in(long& a, const int& b) { long r = a + b; a += 1003; return r; }
};
struct Void {
    using R = void;
    using sig = void(long*, std::string);
    static constexpr bool nx = false;
    static inline long cell = 0;
    static void out(long v) { cell = v; }
    template <class T> static long call(T& t, long n) { std::string s(n + 40, 'x'); t(&n, s); if (s.size() != size_t(n) + 40) ++Tok::wrong; return cell; }
    static long in(long* p, std::string s) { return long(s.size()) - 40 == *p ? *p : -8; }
};

template <class Sig, class R, class F> struct Args;

// callables of all kinds, for signature S
template <class S, class... A>
struct Kit {
    using R = typename S::R;
    template <size_t Pad, size_t Al, bool Copy = true>
    struct alignas(Al) Fn {
        Tok t;
        unsigned char pad[Pad];
        explicit Fn(int i) : t(i) { for (size_t n = 0; n < Pad; ++n) pad[n] = (unsigned char)(i + n); }
        Fn(Fn&&) noexcept = default;
        Fn(const Fn& x) requires Copy = default;
        R operator()(A... a) noexcept {
            for (size_t n = 1; n < Pad; ++n) if (pad[n] != (unsigned char)(pad[0] + n)) ++Tok::wrong;
            if (reinterpret_cast<uintptr_t>(this) % Al) ++Tok::wrong;
            return S::out(t.call(S::in(static_cast<A&&>(a)...)));
        }
    };
    using Small = Fn<1, 4>;
    using Full = Fn<48 - sizeof(Tok), 16>;
    using Large = Fn<49 - sizeof(Tok), 1 + 3>;
    using Align = Fn<8, 64>;
    using Align2 = Fn<8, 32>; // as big as what fits, with an alignment that does not
    using MoveOnly = Fn<1, 4, false>;
    struct Thr {
        Tok t;
        explicit Thr(int i) : t(i) {}
        R operator()(A... a) { throw Boom{t.call(S::in(static_cast<A&&>(a)...))}; }
    };
    template <size_t Pad>
    struct Cp { // may not be copied
        Tok t;
        unsigned char pad[Pad] = {};
        explicit Cp(int i) : t(i) {}
        Cp(Cp&&) noexcept = default;
        Cp(const Cp& x) : t(x.t) { throw CopyFail{}; }
        R operator()(A...) noexcept { return S::out(0); }
    };
    template <int I> static R fn(A... a) noexcept { return S::out(I * 100 + S::in(static_cast<A&&>(a)...)); }
    using P = decltype(&fn<1>);
    static P func(int i) { return i == 1 ? &fn<1> : i == 2 ? &fn<2> : i == 3 ? &fn<3> : &fn<4>; }
    using Plain = std::function<R(A...)>;
    using Nest = task_<!S::nx, R, A...>;
};

template <class S, class K, class... A>
struct World {
    using T = task<typename S::sig>;
    using R = typename S::R;
    // tasks stand at all the addresses at which they may
    struct alignas(64) Slot {
        unsigned char room[sizeof(T) + 64];
        unsigned char* mem = room;
        T& t() { return *reinterpret_cast<T*>(mem); }
    };
    std::vector<std::unique_ptr<Slot>> slot;
    std::vector<std::unique_ptr<typename K::Large>> refs; // the targets of references, by name
    std::vector<std::string> seen;

    explicit World(size_t n) {
        for (size_t i = 0; i < n; ++i) {
            slot.push_back(std::make_unique<Slot>());
            slot.back()->mem += (i + 1) * alignof(T) % 64;
            memset(slot.back()->mem, 0xcd, sizeof(T));
            new (slot.back()->mem) T();
        }
    }
    ~World() { for (auto& s : slot) s->t().~T(); }

    // hands the callable of the kind with the name i to f; false when the signature has no such callable
    template <class F> bool with(const std::string& k, int i, F f) {
        if (k == "small") return f(typename K::Small(i)), true;
        if (k == "full") return f(typename K::Full(i)), true;
        if (k == "large") return f(typename K::Large(i)), true;
        if (k == "align") return f(typename K::Align(i)), true;
        if (k == "align2") return f(typename K::Align2(i)), true;
        if (k == "mo") return f(typename K::MoveOnly(i)), true;
        if (k == "func") return f(K::func(i)), true;
        if (k == "nullfunc") return f(static_cast<typename K::P>(nullptr)), true;
        if (k == "csmall") return f(typename K::template Cp<1>(i)), true;
        if (k == "clarge") return f(typename K::template Cp<80>(i)), true;
        if (k == "ref") {
            refs.push_back(std::make_unique<typename K::Large>(i));
            return f(std::ref(*refs.back())), true;
        }
        if constexpr (!S::nx) {
            if (k == "stdf") return f(typename K::Plain(typename K::Small(i))), true;
            if (k == "nullstdf") return f(typename K::Plain()), true;
            if (k == "thr") return f(typename K::Thr(i)), true;
            if (k == "nest") return f(typename K::Nest(typename K::Small(i))), true;
        }
        return false;
    }
    static bool has(const std::string& k) { return !S::nx || (k != "stdf" && k != "nullstdf" && k != "thr" && k != "nest"); }
    template <class F> static constexpr bool copyable = std::is_copy_constructible_v<F>;

    const void* held(const std::string& k, T& t, int id, int count) { // the target, as its type
        auto tok = [&](auto* p) -> const void* { return p && p->t.id == id && p->t.count == count ? p : nullptr; };
        auto both = [&](auto* q) -> const void* {
            using F = std::remove_pointer_t<decltype(q)>;
            auto p = t.template target<F>();
            auto c = static_cast<const T&>(t).template target<F>();
            if (p != c || t.target_type() != typeid(F)) return nullptr;
            return p;
        };
        if (k == "small") return both((typename K::Small*)0) ? tok(t.template target<typename K::Small>()) : nullptr;
        if (k == "full") return both((typename K::Full*)0) ? tok(t.template target<typename K::Full>()) : nullptr;
        if (k == "large") return both((typename K::Large*)0) ? tok(t.template target<typename K::Large>()) : nullptr;
        if (k == "align") return both((typename K::Align*)0) ? tok(t.template target<typename K::Align>()) : nullptr;
        if (k == "align2") return both((typename K::Align2*)0) ? tok(t.template target<typename K::Align2>()) : nullptr;
        if (k == "mo") return both((typename K::MoveOnly*)0) ? tok(t.template target<typename K::MoveOnly>()) : nullptr;
        if (k == "func") {
            auto p = t.template target<typename K::P>();
            return both((typename K::P*)0) && *p == K::func(id) ? p : nullptr;
        }
        if (k == "ref") {
            using W = std::reference_wrapper<typename K::Large>;
            auto p = t.template target<W>();
            return both((W*)0) ? tok(&p->get()) : nullptr;
        }
        if constexpr (!S::nx) {
            if (k == "stdf") {
                auto p = t.template target<typename K::Plain>();
                return both((typename K::Plain*)0) ? tok(p->template target<typename K::Small>()) : nullptr;
            }
            if (k == "thr") return both((typename K::Thr*)0) ? tok(t.template target<typename K::Thr>()) : nullptr;
            if (k == "nest") {
                auto p = t.template target<typename K::Nest>();
                return both((typename K::Nest*)0) ? tok(p->template target<typename K::Small>()) : nullptr;
            }
        }
        return nullptr;
    }

    bool compare(const J& rows) {
        long n = 0;
        bool ok = true;
        for (size_t i = 0; i < slot.size(); ++i) {
            auto& k = rows.a[i].a[0].s;
            T& t = slot[i]->t();
            if (k == "moved") continue;
            bool h = k != "empty";
            ok = S_.same("full", bool(t), h) && ok;
            ok = S_.same("== nullptr", t == nullptr, !h) && S_.same("nullptr ==", nullptr == t, !h) && ok;
            ok = S_.same("!= nullptr", t != nullptr, h) && S_.same("nullptr !=", nullptr != t, h) && ok;
            if (!h) {
                ok = S_.same("target type void", t.target_type() == typeid(void), 1) && ok;
                ok = S_.same("target", t.template target<typename K::Small>() == nullptr, 1) && ok;
                continue;
            }
            n += k != "func" && k != "ref";
            ok = S_.same(("target " + k).c_str(), held(k, t, rows.a[i].a[1].n, rows.a[i].a[2].n) != nullptr, 1) && ok;
            if (k != "small") ok = S_.same("target of another type", t.template target<typename K::Small>() == nullptr, 1) && ok;
            if (k != "large") ok = S_.same("target of another type", t.template target<typename K::Large>() == nullptr, 1) && ok;
        }
        for (auto& r : refs) n += r->t.id != 0;
        ok = S_.same("callables alive", Tok::held(), n) && ok;
        ok = S_.same("misuse of a callable", Tok::wrong, 0) && ok;
        return ok;
    }
    static inline Seq& S_ = ::S;

    long apply(const J& o) {
        auto& name = o.a[0].s;
        auto& s = *slot[o.a[1].n - 1];
        auto& k = o.a[3].s;
        T& t = s.t();
        auto fresh = [&] { t.~T(); memset(s.mem, 0xcd, sizeof(T)); };
        int id = this->id;
        if (name == "assign") with(k, id, [&](auto&& f) { t = std::move(f); });
        else if (name == "assign_task") with(k, id, [&](auto&& f) { T x(std::move(f)); t = std::move(x); });
        else if (name == "construct") with(k, id, [&](auto&& f) { fresh(); new (s.mem) T(std::move(f)); });
        else if (name == "assign_copy" || name == "construct_copy") {
            long r = 0;
            with(k, id, [&](auto&& f) {
                using F = std::decay_t<decltype(f)>;
                if constexpr (copyable<F>) {
                    F& c = f;
                    try {
                        if (name == "assign_copy") t = c;
                        else { fresh(); new (s.mem) T(c); }
                    } catch (const CopyFail&) {
                        r = -2;
                        if (name != "assign_copy") new (s.mem) T();
                    }
                }
            });
            return r;
        } else if (name == "nullptr") t = nullptr;
        else if (name == "construct_null") { fresh(); new (s.mem) T(nullptr); }
        else if (name == "default") { fresh(); new (s.mem) T; }
        else if (name == "call") {
            try { return S::call(t, 7); }
            catch (const std::bad_function_call&) { return -1; }
            catch (const Boom& b) { return 1000 + b.n; }
        } else {
            T& u = slot[o.a[2].n - 1]->t();
            if (name == "move") t = std::move(u);
            else if (name == "move_construct") { fresh(); new (s.mem) T(std::move(u)); }
            else if (name == "swap") t.swap(u);
            else if (name == "swap_free") swap(t, u);
            else if (name == "std_swap") std::swap(t, u);
        }
        return 0;
    }
    int id = 0;
    // what stands at a slot afterwards has this name
    void name(const J& o, const J& rows) { id = rows.a[o.a[1].n - 1].a[1].n; if (!id) id = 9; }
    void tidy(const J& rows) { // the targets of references that are held no more
        for (auto i = refs.begin(); i != refs.end();) {
            bool used = false;
            for (auto& r : rows.a) used |= r.a[0].s == "ref" && r.a[1].n == (*i)->t.id;
            i = used ? i + 1 : refs.erase(i);
        }
    }
    bool skip(const J& o) {
        if (!has(o.a[3].s)) return true;
        return S::nx && o.a[0].s == "call" && !slot[o.a[1].n - 1]->t();
    }
    bool step(const J& e) { // operation, what it reports, the slots
        name(e.a[0], e.a[2]);
        long r = apply(e.a[0]);
        tidy(e.a[2]);
        bool ok = S_.same("result", r, e.a[1].n);
        return compare(e.a[2]) && ok;
    }
};

template <class S, class K, class W>
void replay(const J& st, long only, size_t n) {
    auto& ops = st.at("ops").a;
    for (auto& e : st.at("path").a) if (!W::has(e.a[0].a[3].s)) return;
    for (long i = 0; i < (long)ops.size(); ++i) {
        if (only >= 0 && i != only) continue;
        ::S.at(::S.line, i);
        Tok::wrong = 0;
        bool ok = true;
        {
            W w(n);
            for (auto& e : st.at("path").a) {
                if (w.skip(e.a[0])) continue;
                if (!(ok = w.step(e))) break;
            }
            if (ok && !w.skip(ops[i].a[0])) ok = w.step(ops[i]);
            w.refs.clear();
            if (!ok) { for (auto& s : w.slot) new (s->mem) typename W::T(); Tok::live.clear(); Tok::wrong = 0; continue; }
        }
        ::S.same("callables left", (long)Tok::live.size(), 0);
        ::S.same("misuse of a callable", Tok::wrong, 0);
        Tok::live.clear();
    }
}
size_t slots(const J& st) { return st.at("ops").a[0].a[2].a.size(); }
void ints(const J& st, long only) { using K = Kit<Int, int>; replay<Int, K, World<Int, K>>(st, only, slots(st)); }
void intnx(const J& st, long only) { using K = Kit<IntNx, int>; replay<IntNx, K, World<IntNx, K>>(st, only, slots(st)); }
void mo(const J& st, long only) { using K = Kit<Mo, std::unique_ptr<long>>; replay<Mo, K, World<Mo, K>>(st, only, slots(st)); }
void ref(const J& st, long only) { using K = Kit<Ref, long&, const int&>; replay<Ref, K, World<Ref, K>>(st, only, slots(st)); }
void vd(const J& st, long only) { using K = Kit<Void, long*, std::string>; replay<Void, K, World<Void, K>>(st, only, slots(st)); }
void all(const J& st, long only) { ints(st, only); intnx(st, only); mo(st, only); ref(st, only); vd(st, only); }
} // namespace
int main(int c, char** v) { return seq_main(c, v, {{"all", all}, {"int", ints}, {"noexcept", intnx}, {"mo", mo}, {"ref", ref}, {"void", vd}}); }
