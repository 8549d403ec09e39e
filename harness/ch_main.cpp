// Channels: builds a network of processes as a program says, sends into it from several threads
// under the controlled scheduler and logs every call of every process.
#include "mini.h"

#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>

#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>

namespace ch {
using stlab::task;
using std::string;
using work_t = task<void() noexcept>;
static int TID() { return vs::self(); }
static long W() { return (long)vs::now_us(); }

enum { LIVE_V = 2, LIVE_P = 3, RUNS = 4, MAXN = 24 };

// ---- values --------------------------------------------------------------------------------
struct Val {
    int v;
    explicit Val(int i = -1) : v(i) { vs::counter(LIVE_V, 1); }
    Val(const Val& x) : v(x.v) { vs::counter(LIVE_V, 1); }
    Val(Val&& x) noexcept : v(std::exchange(x.v, -1)) { vs::counter(LIVE_V, 1); }
    Val& operator=(const Val& x) { v = x.v; return *this; }
    Val& operator=(Val&& x) noexcept { v = std::exchange(x.v, -1); return *this; }
    ~Val() { v = -2; vs::counter(LIVE_V, -1); }
};
struct MVal {
    int v;
    explicit MVal(int i = -1) : v(i) { vs::counter(LIVE_V, 1); }
    MVal(MVal&& x) noexcept : v(std::exchange(x.v, -1)) { vs::counter(LIVE_V, 1); }
    MVal& operator=(MVal&& x) noexcept { v = std::exchange(x.v, -1); return *this; }
    ~MVal() { v = -2; vs::counter(LIVE_V, -1); }
};
struct Err { int c; };
static int code(const std::exception_ptr& e) {
    try {
        if (!e) return 9999;
        std::rethrow_exception(e);
    } catch (const Err& x) {
        return x.c;
    } catch (const stlab::channel_error& x) {
        return 9000 + (int)x.code();
    } catch (...) {
        return 9998;
    }
}

// ---- executors -----------------------------------------------------------------------------
struct Manual {
    std::mutex m;
    std::condition_variable c;
    std::deque<work_t> q;
    bool stop = false;
    void push(work_t r) {
        {
            std::unique_lock<std::mutex> l{m};
            q.push_back(std::move(r));
        }
        c.notify_one();
    }
    bool pop_run(bool wait) {
        work_t r;
        {
            std::unique_lock<std::mutex> l{m};
            while (wait && q.empty() && !stop) c.wait(l);
            if (q.empty()) return false;
            r = std::move(q.front());
            q.pop_front();
        }
        r();
        return true;
    }
};
static Manual* man;
static int cur_ex[256]; // which executor the running task of a thread belongs to
static stlab::executor_t* serials; // [2]
struct Ex { // executor `id`; x names what is below
    int id;
    char x;
    void operator()(work_t f) const {
        auto r = [id = id, f = std::move(f)]() mutable noexcept {
            int t = TID();
            int old = cur_ex[t];
            cur_ex[t] = id;
            {
                auto g = std::move(f);
                g();
            }
            cur_ex[t] = old;
        };
        switch (x) {
            case 'i': stlab::immediate_executor(std::move(r)); break;
            case 'm': man->push(std::move(r)); break;
            case 's': serials[0](std::move(r)); break;
            default: stlab::default_executor(std::move(r));
        }
    }
};

// ---- processes -----------------------------------------------------------------------------
struct Node {
    int id = 0, in = 1;
    string k;
    const J* j = nullptr;
    int busy = 0, sbusy = 0; // invocations in progress: members, state()
    int calls = 0, outs = 0;
    bool ref = false; // the network has a reference to the process only
};
static Node* nodes; // [MAXN]
static void exec_ops(const J&);
static void send(int s, int v);
static bool in_list(const J* l, int i) {
    if (l)
        for (auto& e : l->a)
            if (e.n == i) return true;
    return false;
}
static string args(std::initializer_list<int> a) {
    string s;
    for (int i : a) s += (s.empty() ? "" : ",") + std::to_string(i);
    return s;
}
struct Guard { // an invocation of a member of process n
    Node& n;
    explicit Guard(Node& x) : n(x) {
        if (n.busy || n.sbusy) vs::event("{\"e\":\"ov\",\"n\":%d,\"t\":%d}", n.id, TID());
        ++n.busy;
    }
    ~Guard() { --n.busy; }
};
struct Owner { // exactly one live one per process
    int n = 0;
    explicit Owner(int i) : n(i) { if (i && !node().ref) vs::counter(LIVE_P, 1); }
    Owner(Owner&& x) noexcept : n(std::exchange(x.n, 0)) {}
    Owner& operator=(Owner&&) = delete;
    ~Owner() {
        if (n && !node().ref) {
            vs::counter(LIVE_P, -1);
            vs::event("{\"e\":\"pd\",\"n\":%d,\"t\":%d}", n, TID());
        }
    }
    Node& node() const { return nodes[n]; }
};
static void pause(const Node& n) {
    for (long i = n.j ? n.j->num("y") : 0; i > 0; --i) vs::point();
}
static int next_out(Node& n) { return n.id * 1000 + ++n.outs; }
static void after(Node& n, int v) {
    if (!n.j) return;
    if (auto p = n.j->find("fwd")) send((int)p->n, v);
}

// a call of the function of a process: returns the number of the result
static int call(Node& n, const string& a, bool out) {
    vs::event("{\"e\":\"cb\",\"n\":%d,\"a\":[%s],\"t\":%d,\"x\":%d}", n.id, a.c_str(), TID(), cur_ex[TID()]);
    int v = 0;
    {
        Guard g(n);
        int i = ++n.calls;
        pause(n);
        if (in_list(n.j->find("th"), i)) {
            int e = -(n.id * 1000 + ++n.outs);
            vs::event("{\"e\":\"ce\",\"n\":%d,\"v\":%d,\"t\":%d}", n.id, e, TID());
            throw Err{e};
        }
        v = out ? next_out(n) : 0;
        after(n, v ? v : n.id * 1000 + i);
    }
    vs::event("{\"e\":\"ce\",\"n\":%d,\"v\":%d,\"t\":%d}", n.id, v, TID());
    return v;
}
template <class O>
struct Fn : Owner {
    using Owner::Owner;
    template <class... A>
    O operator()(A... a) {
        int v = call(node(), args({a.v...}), !std::is_void_v<O>);
        if constexpr (!std::is_void_v<O>) return O(v);
    }
};

// await/yield: after every `b` values it yields `o` times; `cl` yields after close
struct AyBase : Owner {
    int have = 0, due = 0;
    using Owner::Owner;
    AyBase(AyBase&& x) noexcept : Owner(std::move(x)), have(x.have), due(x.due) {}
    void await_(const string& a) {
        auto& n = node();
        vs::event("{\"e\":\"ab\",\"n\":%d,\"a\":[%s],\"t\":%d,\"x\":%d,\"w\":%ld}", n.id, a.c_str(), TID(), cur_ex[TID()], W());
        {
            Guard g(n);
            int i = ++n.calls;
            pause(n);
            if (in_list(n.j->find("th"), i)) {
                int e = -(n.id * 1000 + ++n.outs);
                vs::event("{\"e\":\"ae\",\"n\":%d,\"v\":%d,\"s\":%d,\"t\":%d,\"w\":%ld}", n.id, e, st(), TID(), W());
                throw Err{e};
            }
            if (++have >= n.j->num("b", 1)) {
                have = 0;
                due += (int)n.j->num("o", 1);
            }
        }
        vs::event("{\"e\":\"ae\",\"n\":%d,\"v\":0,\"s\":%d,\"t\":%d,\"w\":%ld}", n.id, st(), TID(), W());
    }
    int st() const { return due > 0 ? 1 : node().j->num("to") && have ? 2 : 0; } // yield, await with time-out, await
    int yield_() {
        auto& n = node();
        vs::event("{\"e\":\"yb\",\"n\":%d,\"t\":%d,\"x\":%d,\"w\":%ld}", n.id, TID(), cur_ex[TID()], W());
        int v;
        {
            Guard g(n);
            pause(n);
            v = next_out(n);
            if (due > 0) --due;
            else have = 0; // a time-out: what there was is flushed
            if (in_list(n.j->find("thy"), n.outs)) {
                vs::event("{\"e\":\"ye\",\"n\":%d,\"v\":%d,\"s\":%d,\"t\":%d,\"w\":%ld}", n.id, -v, st(), TID(), W());
                throw Err{-v};
            }
        }
        vs::event("{\"e\":\"ye\",\"n\":%d,\"v\":%d,\"s\":%d,\"t\":%d,\"w\":%ld}", n.id, v, st(), TID(), W());
        after(n, v);
        return v;
    }
    void close_() {
        auto& n = node();
        vs::event("{\"e\":\"kb\",\"n\":%d,\"t\":%d,\"x\":%d,\"w\":%ld}", n.id, TID(), cur_ex[TID()], W());
        {
            Guard g(n);
            pause(n);
            due += (int)n.j->num("cl");
        }
        vs::event("{\"e\":\"ke\",\"n\":%d,\"s\":%d,\"t\":%d,\"w\":%ld}", n.id, st(), TID(), W());
    }
    stlab::process_state_scheduled state_() const {
        auto& n = node();
        if (n.busy) vs::event("{\"e\":\"ov\",\"n\":%d,\"t\":%d}", n.id, TID());
        ++n.sbusy;
        vs::point();
        --n.sbusy;
        if (due > 0) {
            auto d = n.j->num("dl");
            return d ? stlab::process_state_scheduled{stlab::process_state::yield, std::chrono::microseconds(d)}
                     : stlab::yield_immediate;
        }
        auto to = n.j->num("to");
        if (to && have) return {stlab::process_state::await, std::chrono::microseconds(to)};
        return stlab::await_forever;
    }
    void set_error_(const std::exception_ptr& e) {
        auto& n = node();
        vs::event("{\"e\":\"eb\",\"n\":%d,\"v\":%d,\"t\":%d,\"x\":%d,\"w\":%ld}", n.id, code(e), TID(), cur_ex[TID()], W());
        {
            Guard g(n);
            pause(n);
            due += (int)n.j->num("eo");
        }
        vs::event("{\"e\":\"ee\",\"n\":%d,\"s\":%d,\"t\":%d,\"w\":%ld}", n.id, st(), TID(), W());
    }
};
template <class V>
struct Ay : AyBase { // await, yield, state
    using AyBase::AyBase;
    void await(V a) { await_(args({a.v})); }
    V yield() { return V(yield_()); }
    stlab::process_state_scheduled state() const { return state_(); }
};
template <class V>
struct AyC : Ay<V> { // and close
    using Ay<V>::Ay;
    void close() { this->close_(); }
};
template <class V>
struct AyE : AyC<V> { // and set_error
    using AyC<V>::AyC;
    void set_error(std::exception_ptr e) { this->set_error_(e); }
};
struct Ay2 : AyBase { // for a zip
    using AyBase::AyBase;
    void await(Val a, Val b) { await_(args({a.v, b.v})); }
    Val yield() { return Val(yield_()); }
    void close() { close_(); }
    stlab::process_state_scheduled state() const { return state_(); }
};
struct Gen : AyBase { // yields only
    explicit Gen(int i, int c) : AyBase(i) { due = c; }
    Val yield() { return Val(yield_()); }
    stlab::process_state_scheduled state() const { return state_(); }
};

// ---- the network ---------------------------------------------------------------------------
struct World {
    stlab::sender<Val> s[32];
    stlab::sender<MVal> sm[32];
    int sh[32] = {}; // head of sender slot
    stlab::receiver<Val> r[32];
    stlab::receiver<MVal> rm[32];
    stlab::receiver<void> rv[32];
    int rn[32] = {}; // node of receiver slot
    char rt[32] = {}; // its type: 'V', 'M', 'v'
    std::vector<std::thread> th;
};
static World* w;
static const J* prog;

// every way to attach a process
template <class R, class F>
static auto attach(R& r, F f, const J& j) {
    using namespace stlab;
    long ex = j.num("ex"), bs = j.num("bs", -1), fm = j.num("fm");
    stlab::executor_t e;
    if (ex) e = Ex{(int)ex, j.str("x")[0]};
    if (ex && bs >= 0) {
        auto b = buffer_size((size_t)bs);
        switch (fm % 8) {
            case 0: return r | ((executor{e} & b) & std::move(f));
            case 1: return r | ((b & executor{e}) & std::move(f));
            case 2: return r | (std::move(f) & (b & executor{e}));
            case 3: return r | ((std::move(f) & executor{e}) & b);
            case 4: return r | (b & (std::move(f) & executor{e}));
            case 5: return r | ((std::move(f) & b) & executor{e});
            case 6: return r | ((executor{e} & std::move(f)) & b);
            default: return r | ((b & std::move(f)) & executor{e});
        }
    }
    if (ex) return fm % 2 ? r | (std::move(f) & executor{e}) : r | (executor{e} & std::move(f));
    if (bs >= 0) return fm % 2 ? r | (std::move(f) & buffer_size((size_t)bs)) : r | (buffer_size((size_t)bs) & std::move(f));
    return r | std::move(f);
}
template <class T> void keep(int i, stlab::receiver<T> r) {
    w->rn[i] = i;
    if constexpr (std::is_void_v<T>) { w->rv[i] = std::move(r); w->rt[i] = 'v'; }
    else if constexpr (std::is_same_v<T, Val>) { w->r[i] = std::move(r); w->rt[i] = 'V'; }
    else { w->rm[i] = std::move(r); w->rt[i] = 'M'; }
}
static std::vector<std::shared_ptr<void>>* refs; // what the network has references to
template <class P, class R> static auto attach_ref(int i, R& r, const J& j) {
    auto p = std::make_shared<P>(i);
    refs->push_back(p);
    return attach(r, std::ref(*p), j);
}
template <class V, class R>
static void attach_to(int i, R& r, const J& j) {
    const string& k = j.str("k");
    if (j.num("ref")) {
        if (k == "fn") keep(i, attach_ref<Fn<V>>(i, r, j));
        else if (k == "sink") keep(i, attach_ref<Fn<void>>(i, r, j));
        else if (k == "ay") keep(i, attach_ref<Ay<V>>(i, r, j));
        else if (k == "ayc") keep(i, attach_ref<AyC<V>>(i, r, j));
        else if (k == "aye") keep(i, attach_ref<AyE<V>>(i, r, j));
        else vs::terminal("badop");
        return;
    }
    if (k == "fn") keep(i, attach(r, Fn<V>(i), j));
    else if (k == "sink") keep(i, attach(r, Fn<void>(i), j));
    else if (k == "ay") keep(i, attach(r, Ay<V>(i), j));
    else if (k == "ayc") keep(i, attach(r, AyC<V>(i), j));
    else if (k == "aye") keep(i, attach(r, AyE<V>(i), j));
    else vs::terminal("badop");
}
struct FpOwner { // std::function copies its target
    std::shared_ptr<Fn<Val>> p;
    Val operator()(Val v) const { return (*p)(std::move(v)); }
};
template <class M, class F>
static auto merge(const J& j, F f) {
    auto& in = j.at("in").a;
    Ex e{(int)j.num("ex"), j.str("x")[0]};
    auto &a = w->r[in[0].n], &b = w->r[in[1].n];
    if (in.size() == 2) {
        if (std::is_same_v<M, stlab::zip_with_t> && j.num("fm") % 2) return stlab::zip_with(e, std::move(f), a, b);
        return stlab::merge_channel<M>(e, std::move(f), a, b);
    }
    auto& c = w->r[in[2].n];
    if (std::is_same_v<M, stlab::zip_with_t> && j.num("fm") % 2) return stlab::zip_with(e, std::move(f), a, b, c);
    return stlab::merge_channel<M>(e, std::move(f), a, b, c);
}
struct Zip2 : Owner {
    using Owner::Owner;
    Val operator()(std::tuple<Val, Val> a) { return Val(call(node(), args({std::get<0>(a).v, std::get<1>(a).v}), true)); }
};
static void make(const J& j) {
    int i = (int)j.num("n");
    const string& k = j.str("k");
    auto& n = nodes[i];
    n.id = i;
    n.j = &j;
    n.k = k;
    n.ref = j.num("ref");
    vs::event("{\"e\":\"mk\",\"n\":%d,\"t\":%d,\"w\":%ld}", i, TID(), W());
    if (k == "head") {
        Ex e{(int)j.num("ex"), j.str("x")[0]};
        if (j.num("mo")) {
            auto c = stlab::channel<MVal>(e);
            w->sm[i] = std::move(c.first);
            keep(i, std::move(c.second));
        } else {
            auto c = stlab::channel<Val>(e);
            w->s[i] = std::move(c.first);
            keep(i, std::move(c.second));
        }
        w->sh[i] = i;
    } else if (k == "gen") {
        auto c = stlab::channel<void>(Ex{(int)j.num("ex"), j.str("x")[0]});
        keep(i, attach(c, Gen(i, (int)j.num("c")), j));
        c.set_ready();
    } else if (k == "zip" || k == "rr" || k == "un") {
        bool v = j.num("v");
        if (k == "zip") v ? keep(i, merge<stlab::zip_with_t>(j, Fn<void>(i))) : keep(i, merge<stlab::zip_with_t>(j, Fn<Val>(i)));
        else if (k == "rr") v ? keep(i, merge<stlab::round_robin_t>(j, Fn<void>(i))) : keep(i, merge<stlab::round_robin_t>(j, Fn<Val>(i)));
        else v ? keep(i, merge<stlab::unordered_t>(j, Fn<void>(i))) : keep(i, merge<stlab::unordered_t>(j, Fn<Val>(i)));
    } else if (k == "zipay") {
        Ex e{(int)j.num("ex"), j.str("x")[0]};
        auto& in = j.at("in").a;
        keep(i, stlab::zip_with(e, Ay2(i), w->r[in[0].n], w->r[in[1].n]));
    } else if (k == "fp") {
        auto& r = w->r[j.at("in").a[0].n];
        auto o = std::make_shared<Fn<Val>>(i);
        keep(i, attach(r, stlab::function_process<Val(Val)>(FpOwner{std::move(o)}), j));
    } else {
        int u = (int)j.at("in").a[0].n;
        if (w->rt[u] == 'M') attach_to<MVal>(i, w->rm[u], j);
        else attach_to<Val>(i, w->r[u], j);
    }
    vs::event("{\"e\":\"mke\",\"n\":%d,\"t\":%d}", i, TID());
}

static void send(int s, int v) {
    int i = (int)vs::counter(5, 1);
    vs::event("{\"e\":\"sb\",\"s\":%d,\"h\":%d,\"i\":%d,\"v\":%d,\"t\":%d}", s, w->sh[s], i, v, TID());
    if (nodes[s].j && nodes[s].j->num("mo")) {
        if (v < 0) w->sm[s](std::make_exception_ptr(Err{v}));
        else w->sm[s](MVal(v));
    } else {
        if (v < 0) w->s[s](std::make_exception_ptr(Err{v}));
        else if (v % 2) w->s[s](Val(v));
        else {
            Val x(v);
            w->s[s](x);
            if (x.v != v) vs::terminal("argument moved");
        }
    }
    vs::event("{\"e\":\"se\",\"h\":%d,\"i\":%d,\"t\":%d}", w->sh[s], i, TID());
}

template <class R> static int try_attach(R& r, int form) {
    using namespace stlab;
    try {
        if (form == 0) auto x = r | Fn<void>(0);
        else if (form == 1) auto x = r | (buffer_size(2) & Fn<void>(0));
        else if (form == 2) auto x = r | (executor{Ex{1, 'i'}} & Fn<void>(0));
        else auto x = r | ((executor{Ex{1, 'i'}} & buffer_size(3)) & Fn<void>(0));
        return 0;
    } catch (const stlab::channel_error& e) {
        return (int)e.code();
    }
}

static void exec_op(const J& op) {
    const string& o = op.str("op");
    int s = (int)op.num("s"), d = (int)op.num("d"), r = (int)op.num("r");
    bool mo = nodes[s].j && nodes[s].j->num("mo");
    if (o == "mk") {
        for (auto& j : prog->at("nodes").a)
            if (j.num("n") == op.num("n")) make(j);
    } else if (o == "snd") {
        send(s, (int)op.num("v"));
    } else if (o == "cps") {
        vs::event("{\"e\":\"cs\",\"h\":%d,\"s\":%d,\"d\":%d,\"t\":%d}", w->sh[s], s, d, TID());
        w->s[d] = w->s[s];
        w->sh[d] = w->sh[s];
    } else if (o == "mvs") { // from now on slot s is empty
        vs::event("{\"e\":\"ms\",\"s\":%d,\"d\":%d,\"t\":%d}", s, d, TID());
        if (mo) w->sm[d] = std::move(w->sm[s]);
        else w->s[d] = std::move(w->s[s]);
        w->sh[d] = w->sh[s];
    } else if (o == "cls" || o == "dps") {
        vs::event("{\"e\":\"slb\",\"s\":%d,\"h\":%d,\"t\":%d}", s, w->sh[s], TID());
        if (o == "cls") mo ? w->sm[s].close() : w->s[s].close();
        else {
            stlab::sender<Val> a{std::move(w->s[s])};
            stlab::sender<MVal> b{std::move(w->sm[s])};
        }
        vs::event("{\"e\":\"sle\",\"s\":%d,\"h\":%d,\"t\":%d}", s, w->sh[s], TID());
    } else if (o == "rdy") {
        vs::event("{\"e\":\"rdb\",\"r\":%d,\"n\":%d,\"t\":%d}", r, w->rn[r], TID());
        if (w->rt[r] == 'V') w->r[r].set_ready();
        else if (w->rt[r] == 'M') w->rm[r].set_ready();
        else w->rv[r].set_ready();
        vs::event("{\"e\":\"rde\",\"n\":%d,\"t\":%d}", w->rn[r], TID());
    } else if (o == "dpr") {
        vs::event("{\"e\":\"drb\",\"r\":%d,\"n\":%d,\"t\":%d}", r, w->rn[r], TID());
        {
            stlab::receiver<Val> a{std::move(w->r[r])};
            stlab::receiver<MVal> b{std::move(w->rm[r])};
            stlab::receiver<void> c{std::move(w->rv[r])};
        }
        vs::event("{\"e\":\"dre\",\"n\":%d,\"t\":%d}", w->rn[r], TID());
    } else if (o == "cpr" || o == "mvr") {
        bool mv = o == "mvr";
        vs::event("{\"e\":\"%s\",\"r\":%d,\"d\":%d,\"n\":%d,\"t\":%d}", mv ? "mr" : "cr", r, d, w->rn[r], TID());
        w->rt[d] = w->rt[r];
        w->rn[d] = w->rn[r];
        if (w->rt[r] == 'V') mv ? w->r[d] = std::move(w->r[r]) : w->r[d] = w->r[r];
        else if (w->rt[r] == 'M') mv ? w->rm[d] = std::move(w->rm[r]) : w->rm[d] = w->rm[r];
        else mv ? w->rv[d] = std::move(w->rv[r]) : w->rv[d] = w->rv[r];
    } else if (o == "att") {
        for (int f = 0; f < 4; ++f) {
            int c = w->rt[r] == 'V' ? try_attach(w->r[r], f) : w->rt[r] == 'M' ? try_attach(w->rm[r], f) : 0;
            vs::event("{\"e\":\"att\",\"r\":%d,\"n\":%d,\"c\":%d,\"t\":%d}", r, w->rn[r], c, TID());
        }
    } else if (o == "fb") {
        auto f = mo ? w->sm[s].free_buffer() : w->s[s].free_buffer();
        vs::event("{\"e\":\"fb\",\"s\":%d,\"h\":%d,\"c\":%d,\"q\":%ld,\"t\":%d}", s, w->sh[s], f ? (int)*f : -1, op.num("q"), TID());
    } else if (o == "sleep") {
        std::this_thread::sleep_for(std::chrono::microseconds(op.num("us")));
    } else if (o == "y") {
        for (long i = op.num("k", 1); i > 0; --i) vs::point();
    } else if (o == "spawn") {
        for (auto& t : prog->at("thr").a) w->th.emplace_back([&t] { exec_ops(t); });
        for (long n = prog->num("pump"); n > 0; --n) w->th.emplace_back([] { while (man->pop_run(true)) {} });
    } else if (o == "q") {
        vs::quiesce();
        vs::event("{\"e\":\"q\",\"t\":0,\"w\":%ld,\"lv\":%ld,\"lp\":%ld}", W(), vs::counter(LIVE_V, 0), vs::counter(LIVE_P, 0));
    } else if (o == "stop") { // and whatever is left goes
        string kp; // the senders processes use stay a little longer
        for (auto& j : prog->at("nodes").a)
            if (auto f = j.find("fwd")) kp += (kp.empty() ? "" : ",") + std::to_string(f->n);
        vs::event("{\"e\":\"stop\",\"t\":0,\"kp\":[%s]}", kp.c_str());
        {
            std::unique_lock<std::mutex> l{man->m};
            man->stop = true;
        }
        man->c.notify_all();
        for (auto& t : w->th) t.join();
        w->th.clear();
    } else {
        fprintf(stderr, "unknown op %s\n", o.c_str());
        vs::terminal("badop");
    }
}
static void exec_ops(const J& ops) {
    for (auto& o : ops.a) exec_op(o);
}

static void body(const J& p) {
    prog = &p;
    Manual m;
    man = &m;
    auto ns = std::make_unique<Node[]>(64);
    nodes = ns.get();
    std::vector<std::shared_ptr<void>> rs;
    refs = &rs;
    stlab::serial_queue_t sq{stlab::default_executor};
    stlab::executor_t se[1] = {sq.executor()};
    serials = se;
    string tab;
    for (auto& j : p.at("nodes").a) {
        string in;
        if (auto i = j.find("in"))
            for (auto& e : i->a) in += (in.empty() ? "" : ",") + std::to_string(e.n);
        char b[400];
        snprintf(b, sizeof b, "%s{\"n\":%ld,\"k\":\"%s\",\"in\":[%s],\"bs\":%ld,\"ex\":%ld,\"v\":%ld,\"to\":%ld,\"dl\":%ld,\"c\":%ld,\"ref\":%ld}", tab.empty() ? "" : ",",
                 j.num("n"), j.str("k").c_str(), in.c_str(), j.num("bs", -1), j.num("ex"), j.num("v"), j.num("to"), j.num("dl"), j.num("c"), j.num("ref"));
        tab += b;
    }
    vs::event("{\"e\":\"start\",\"t\":0,\"nodes\":[%s]}", tab.c_str());
    {
        World wd;
        w = &wd;
        exec_ops(p.at("main"));
        for (auto& r : wd.rv) r = {};
        for (auto& r : wd.rm) r = {};
        for (auto& r : wd.r) r = {};
        bool fw = false, used[32] = {};
        for (auto& j : p.at("nodes").a)
            if (auto f = j.find("fwd")) fw = used[f->n] = true;
        for (auto& x : wd.sm) x = {};
        for (int i = 0; i < 32; ++i)
            if (!used[i]) wd.s[i] = {};
        if (fw) vs::quiesce();
        for (int i = 0; i < 32; ++i)
            if (used[i]) {
                vs::event("{\"e\":\"slb\",\"s\":%d,\"h\":%d,\"t\":0}", i, wd.sh[i]);
                wd.s[i] = {};
            }
    }
    vs::quiesce();
    vs::event("{\"e\":\"end\",\"t\":0,\"lv\":%ld,\"lp\":%ld}", vs::counter(LIVE_V, 0), vs::counter(LIVE_P, 0));
}
} // namespace ch

int main(int argc, char** argv) { return mini_main(argc, argv, ch::body); }
