// Interpreter of future programs; see fut_main.cpp. Only the public API of the library is used.
#pragma once
#include "mini.h"

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>

#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>

namespace fh {

using stlab::future;
using stlab::packaged_task;
using stlab::task;
using std::string;

inline int TID() { return vs::self(); }

// ---- values ----------------------------------------------------------------------------------
struct Val { // copyable
    int v;
    explicit Val(int x) : v(x) { vs::counter(0, 1); }
    Val() : Val(-5) {}
    Val(const Val& x) : v(x.v) { vs::counter(0, 1); }
    Val(Val&& x) noexcept : v(x.v) { x.v = -7777; vs::counter(0, 1); }
    Val& operator=(const Val& x) { v = x.v; return *this; }
    Val& operator=(Val&& x) noexcept { if (this != &x) { v = x.v; x.v = -7777; } return *this; }
    ~Val() { v = -9999; vs::counter(0, -1); }
};
struct MVal { // move-only
    int v;
    explicit MVal(int x) : v(x) { vs::counter(0, 1); }
    MVal() : MVal(-5) {}
    MVal(MVal&& x) noexcept : v(x.v) { x.v = -7777; vs::counter(0, 1); }
    MVal& operator=(MVal&& x) noexcept { if (this != &x) { v = x.v; x.v = -7777; } return *this; }
    MVal(const MVal&) = delete;
    MVal& operator=(const MVal&) = delete;
    ~MVal() { v = -9999; vs::counter(0, -1); }
};
struct Err { int id; };

inline int err_code(const std::exception_ptr& e) {
    try {
        std::rethrow_exception(e);
    } catch (const Err& x) {
        return x.id;
    } catch (const stlab::future_error& x) {
        return x.code() == stlab::future_error_codes::broken_promise ? 9001 : 9002;
    } catch (...) {
        return 9999;
    }
}

// an error which escapes to nobody: the function object of a node; logs its destruction
struct Tok {
    int n;
    bool own;
    explicit Tok(int x) : n(x), own(true) {}
    Tok(Tok&& x) noexcept : n(x.n), own(std::exchange(x.own, false)) {}
    Tok& operator=(Tok&&) = delete;
    ~Tok() {
        if (own) vs::event("{\"e\":\"td\",\"t\":%d,\"n\":%d}", TID(), n);
    }
};

// ---- slots -----------------------------------------------------------------------------------
struct Slot {
    char k = 0; // 'V','M','0'
    future<Val> v;
    future<MVal> m;
    future<void> u;
    packaged_task<Val> p;
    bool has_p = false;
    template <class T> future<T>& fut();
    void set(future<Val>&& x) { v = std::move(x); k = 'V'; }
    void set(future<MVal>&& x) { m = std::move(x); k = 'M'; }
    void set(future<void>&& x) { u = std::move(x); k = '0'; }
};
template <> inline future<Val>& Slot::fut<Val>() { return v; }
template <> inline future<MVal>& Slot::fut<MVal>() { return m; }
template <> inline future<void>& Slot::fut<void>() { return u; }

extern Slot* slots; // [64]
extern std::map<int, const J*>* nodes;
void exec_ops(const J& ops);

// ---- logging ---------------------------------------------------------------------------------
struct Args {
    string s;
    void add(int x) { if (!s.empty()) s += ','; s += std::to_string(x); }
};
inline void put(Args& a, const Val& x) { a.add(x.v); }
inline void put(Args& a, const MVal& x) { a.add(x.v); }
inline void put(Args& a, std::size_t x) { a.add((int)x); }
template <class T>
void put(Args& a, const std::vector<T>& x) { for (auto& e : x) put(a, e); }

template <class T>
string outcome_of(future<T>& f, bool rv) {
    char b[64];
    if (!f.is_ready()) return "\"o\":\"-\",\"v\":0";
    if (auto e = f.exception()) {
        snprintf(b, sizeof b, "\"o\":\"e\",\"v\":%d", err_code(e));
        return b;
    }
    int v = 0;
    try {
        if constexpr (std::is_void_v<T>) {
            if (rv) std::move(f).get_ready(); else f.get_ready();
        } else if constexpr (std::is_same_v<T, MVal>) {
            v = std::move(f).get_ready().v;
        } else {
            v = rv ? std::move(f).get_ready().v : f.get_ready().v;
        }
    } catch (...) {
        snprintf(b, sizeof b, "\"o\":\"x\",\"v\":%d", err_code(std::current_exception()));
        return b;
    }
    snprintf(b, sizeof b, "\"o\":\"v\",\"v\":%d", v);
    return b;
}

template <class R> struct kind_of { static constexpr char k = 'V'; };

// ---- the function object of a node -------------------------------------------------------------
template <class R>
struct Fn {
    Tok tok;
    explicit Fn(int n) : tok(n) {}
    Fn(Fn&&) = default;
    Fn(const Fn&) = delete;

    // produces the outcome the program prescribes for the node
    R outcome() const {
        const J& nd = *nodes->at(tok.n);
        int n = tok.n;
        if (nd.has("b") && !vs::counter(3, 0)) exec_ops(nd.at("b"));
        for (long i = nd.num("y"); i > 0; --i) vs::point();
        const string& o = nd.str("o");
        // (when the program is over, the future a body should return may be gone)
        constexpr bool plain = std::is_void_v<R> || std::is_same_v<R, Val> || std::is_same_v<R, MVal>;
        if (o == "e" || (!plain && vs::counter(3, 0))) {
            vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"e\",\"v\":%d,\"w\":%ld}", TID(), n, 5000 + n, (long)vs::now_us());
            throw Err{5000 + n};
        }
        if constexpr (std::is_void_v<R>) {
            vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"v\",\"v\":0,\"w\":%ld}", TID(), n, (long)vs::now_us());
            return;
        } else if constexpr (std::is_same_v<R, Val> || std::is_same_v<R, MVal>) {
            vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"v\",\"v\":%d,\"w\":%ld}", TID(), n, 1000 + n, (long)vs::now_us());
            return R(1000 + n);
        } else { // a future held in slot fs
            int fs = (int)nd.num("fs");
            vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"f\",\"v\":%d,\"w\":%ld}", TID(), n, fs, (long)vs::now_us());
            using T = typename R::result_type;
            slots[fs].k = 0;
            return std::move(slots[fs].fut<T>());
        }
    }
    template <class... A>
    R operator()(A&&... a) const {
        Args s;
        (put(s, a), ...);
        vs::event("{\"e\":\"bb\",\"t\":%d,\"n\":%d,\"a\":[%s]}", TID(), tok.n, s.s.c_str());
        return outcome();
    }
    template <class T>
    R rec(future<T>& f) const {
        bool rv = nodes->at(tok.n)->num("rv");
        bool valid = f.valid();
        string o = valid ? outcome_of(f, rv) : string("\"o\":\"?\",\"v\":0");
        vs::event("{\"e\":\"bb\",\"t\":%d,\"n\":%d,%s,\"a\":[]}", TID(), tok.n, o.c_str());
        return outcome();
    }
    R operator()(future<Val> f) const { return rec(f); }
    R operator()(future<MVal> f) const { return rec(f); }
    R operator()(future<void> f) const { return rec(f); }
};

// detach(f) takes the future
struct DetFn {
    Tok tok;
    explicit DetFn(int n) : tok(n) {}
    DetFn(DetFn&&) = default;
    template <class T>
    void operator()(future<T>&& f) {
        string o = outcome_of(f, true);
        vs::event("{\"e\":\"bb\",\"t\":%d,\"n\":%d,%s,\"a\":[]}", TID(), tok.n, o.c_str());
        const J& nd = *nodes->at(tok.n);
        if (nd.has("b") && !vs::counter(3, 0)) exec_ops(nd.at("b"));
        vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"v\",\"v\":0,\"w\":%ld}", TID(), tok.n, (long)vs::now_us());
    }
};

// ---- logging executors -------------------------------------------------------------------------
// every submission through an instance is logged with the label of the node it was created for
struct LogExec {
    int lab;
    char kind;
    void operator()(task<void() noexcept> t) const;
};

// ---- operations --------------------------------------------------------------------------------
struct Attach {
    int n;
    char rk;      // result kind: V M 0 and v m o for functions returning a future
    char x;       // executor kind, 0: inherited
    int form;     // 0 method, 1 operator with exec & f, 2 operator with f & exec
    bool rv;
    Slot *src, *dst;
};
template <class T> void op_then(const Attach& a); // in fut_ops.cpp, one object per T and operation
template <class T> void op_rec(const Attach& a);
void op_async(const Attach& a, const J& op);
void op_pkg(const Attach& a);
void op_all(const Attach& a, const J& op);
void op_any(const Attach& a, const J& op);
void op_co(const Attach& a, const J& op);

} // namespace fh
