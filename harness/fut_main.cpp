// Executes future programs under the controlled scheduler and logs what the public API shows.
#include "fut.h"
namespace fh {

Slot* slots;
std::map<int, const J*>* nodes;

// ---- manual executor: a FIFO drained by pump threads or by explicit "pump" operations ------------
struct Run {
    task<void() noexcept> t;
    int k = 0;
    Run(task<void() noexcept>&& f, int i) : t(std::move(f)), k(i) {}
    Run(Run&& x) noexcept : t(std::move(x.t)), k(std::exchange(x.k, 0)) {}
    Run& operator=(Run&& x) noexcept { t = std::move(x.t); k = std::exchange(x.k, 0); return *this; }
    void operator()() noexcept {
        int id = std::exchange(k, 0);
        vs::event("{\"e\":\"rb\",\"t\":%d,\"k\":%d}", TID(), id);
        {
            auto f = std::move(t);
            f();
        }
        vs::event("{\"e\":\"re\",\"t\":%d,\"k\":%d}", TID(), id);
    }
    ~Run() {
        if (k) { // destroyed without having been run
            vs::event("{\"e\":\"db\",\"t\":%d,\"k\":%d}", TID(), k);
            t = nullptr;
            vs::event("{\"e\":\"de\",\"t\":%d,\"k\":%d}", TID(), k);
        }
    }
};
struct Manual {
    std::mutex m;
    std::condition_variable c;
    std::deque<Run> q;
    bool stop = false;
    void push(Run r) {
        {
            std::unique_lock<std::mutex> l{m};
            q.push_back(std::move(r));
        }
        c.notify_one();
    }
    bool pop_run(bool wait, bool drop) {
        Run r{nullptr, 0};
        {
            std::unique_lock<std::mutex> l{m};
            while (wait && q.empty() && !stop) c.wait(l);
            if (q.empty()) return false;
            r = std::move(q.front());
            q.pop_front();
        }
        if (!drop) r();
        return true;
    }
};
static Manual* man;
static stlab::serial_queue_t* sq;
static std::vector<std::thread>* threads;
static std::mutex* fl_m;
static std::condition_variable* fl_c;
static int flags[16];

void LogExec::operator()(task<void() noexcept> t) const {
    int k = (int)vs::counter(1, 1);
    char x = kind;
    vs::event("{\"e\":\"sub\",\"t\":%d,\"k\":%d,\"x\":%d}", TID(), k, lab);
    Run r{std::move(t), k};
    switch (x) {
        case 'i': stlab::immediate_executor(std::move(r)); break;
        case 'm': man->push(std::move(r)); break;
        case 'p': stlab::default_executor(std::move(r)); break;
        case 'l': stlab::low_executor(std::move(r)); break;
        case 'h': stlab::high_executor(std::move(r)); break;
        case 's': sq->executor()(std::move(r)); break;
        case 'd': { Run gone{std::move(r)}; } break;
        default: break;
    }
    vs::event("{\"e\":\"sube\",\"t\":%d,\"k\":%d}", TID(), k);
}

struct Call {
    int c;
    Call(const char* op, const string& more) : c((int)vs::counter(2, 1)) {
        vs::event("{\"e\":\"b\",\"c\":%d,\"t\":%d,\"op\":\"%s\"%s}", c, TID(), op, more.c_str());
    }
    void end(const string& more = "") {
        vs::event("{\"e\":\"d\",\"c\":%d,\"t\":%d%s}", c, TID(), more.c_str());
    }
};
static string kv(const char* k, long v) { return string(",\"") + k + "\":" + std::to_string(v); }
static string ks(const char* k, const string& v) { return string(",\"") + k + "\":\"" + v + "\""; }
static string list(const char* k, const J& a) {
    string s = string(",\"") + k + "\":[";
    for (size_t i = 0; i < a.a.size(); ++i) s += (i ? "," : "") + std::to_string(a.a[i].n);
    return s + "]";
}

template <class F>
static auto by_kind(Slot& s, F f) {
    switch (s.k) {
        case 'V': return f(s.v);
        case 'M': return f(s.m);
        default: return f(s.u);
    }
}

template <class T>
static string try_of(future<T>& f, bool rv) {
    char b[64];
    try {
        if constexpr (std::is_void_v<T>) {
            bool r = rv ? std::move(f).get_try() : f.get_try();
            return r ? "\"o\":\"v\",\"v\":0" : "\"o\":\"-\",\"v\":0";
        } else {
            std::optional<T> r;
            if constexpr (std::is_same_v<T, MVal>) r = std::move(f).get_try();
            else r = rv ? std::move(f).get_try() : f.get_try();
            if (!r) return "\"o\":\"-\",\"v\":0";
            snprintf(b, sizeof b, "\"o\":\"v\",\"v\":%d", r->v);
            return b;
        }
    } catch (...) {
        snprintf(b, sizeof b, "\"o\":\"e\",\"v\":%d", err_code(std::current_exception()));
        return b;
    }
}

template <class T>
static string await_(future<T>&& f) {
    char b[64];
    try {
        int v = 0;
        if constexpr (std::is_void_v<T>) stlab::await(std::move(f));
        else v = stlab::await(std::move(f)).v;
        snprintf(b, sizeof b, ",\"o\":\"v\",\"v\":%d", v);
    } catch (...) {
        snprintf(b, sizeof b, ",\"o\":\"e\",\"v\":%d", err_code(std::current_exception()));
    }
    return b;
}

// ---- coroutines ----------------------------------------------------------------------------------
static void resumed(int n, int i, const string& o) {
    vs::event("{\"e\":\"cr\",\"t\":%d,\"n\":%d,\"i\":%d%s}", TID(), n, i, o.c_str());
}
struct Co {
    int n;
    std::vector<Slot> in;
    bool catches;
};
#define AWAIT_ONE(i)                                                                               \
    {                                                                                              \
        int err = 0, v = 0;                                                                        \
        try {                                                                                      \
            if (c.in[i].k == 'V') { auto x = co_await std::move(c.in[i].v); v = x.v; }              \
            else if (c.in[i].k == 'M') { auto x = co_await std::move(c.in[i].m); v = x.v; }         \
            else co_await std::move(c.in[i].u);                                                    \
        } catch (...) { err = err_code(std::current_exception()); }                                \
        resumed(c.n, (int)i + 1, ks("o", err ? "e" : "v") + kv("v", err ? err : v));                  \
        if (err && !c.catches) {                                                                   \
            vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"e\",\"v\":%d,\"w\":%ld}", TID(), c.n, err, (long)vs::now_us());     \
            throw Err{err};                                                                        \
        }                                                                                          \
    }
#define CO_BODY                                                                                    \
    vs::event("{\"e\":\"bb\",\"t\":%d,\"n\":%d,\"a\":[]}", TID(), c.n);                              \
    for (size_t i = 0; i < c.in.size(); ++i) AWAIT_ONE(i)                                          \
    if (nodes->at(c.n)->has("b") && !vs::counter(3, 0)) exec_ops(nodes->at(c.n)->at("b"));                               \
    if (nodes->at(c.n)->str("o") == "e") {                                                         \
        vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"e\",\"v\":%d,\"w\":%ld}", TID(), c.n, 5000 + c.n, (long)vs::now_us());  \
        throw Err{5000 + c.n};                                                                     \
    }
static future<Val> co_v(Co c) {
    CO_BODY
    vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"v\",\"v\":%d,\"w\":%ld}", TID(), c.n, 1000 + c.n, (long)vs::now_us());
    co_return Val(1000 + c.n);
}
static future<MVal> co_m(Co c) {
    CO_BODY
    vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"v\",\"v\":%d,\"w\":%ld}", TID(), c.n, 1000 + c.n, (long)vs::now_us());
    co_return MVal(1000 + c.n);
}
static future<void> co_0(Co c) {
    CO_BODY
    vs::event("{\"e\":\"be\",\"t\":%d,\"n\":%d,\"o\":\"v\",\"v\":0,\"w\":%ld}", TID(), c.n, (long)vs::now_us());
}
void op_co(const Attach& a, const J& op) {
    Co c{a.n, {}, op.num("catch") != 0};
    for (auto& x : op.at("h").a) {
        c.in.emplace_back(std::move(slots[x.n]));
        slots[x.n].k = 0;
    }
    switch (a.rk) {
        case 'V': a.dst->set(co_v(std::move(c))); break;
        case 'M': a.dst->set(co_m(std::move(c))); break;
        default: a.dst->set(co_0(std::move(c))); break;
    }
}

static void run_thread(const J& ops) { exec_ops(ops); }
static const J* prog;

static void exec_op(const J& op) {
    const string& o = op.str("op");
    if (o == "then" || o == "rec") {
        Attach a{};
        a.n = (int)op.num("n");
        const J& nd = *nodes->at(a.n);
        a.rk = nd.str("k")[0];
        a.x = op.str("x").empty() ? 0 : op.str("x")[0];
        a.form = (int)op.num("f");
        a.src = &slots[op.num("h")];
        Slot dst; // the handle is stored after the call: source and destination may coincide
        a.dst = &dst;
        a.rv = op.num("rv") || a.src->k == 'M';
        Call c(o.c_str(), kv("n", a.n) + kv("h", op.num("h")) + kv("d", op.num("d")) +
                              ks("x", op.str("x")) + kv("rv", a.rv));
        switch (a.src->k) {
            case 'V': o == "then" ? op_then<Val>(a) : op_rec<Val>(a); break;
            case 'M': o == "then" ? op_then<MVal>(a) : op_rec<MVal>(a); break;
            default: o == "then" ? op_then<void>(a) : op_rec<void>(a); break;
        }
        slots[op.num("d")] = std::move(dst);
        c.end();
    } else if (o == "async" || o == "pkg" || o == "all" || o == "any" || o == "co") {
        Attach a{};
        a.n = (int)op.num("n");
        const J& nd = *nodes->at(a.n);
        a.rk = nd.str("k")[0];
        a.x = op.str("x").empty() ? 'i' : op.str("x")[0];
        a.rv = op.num("rv", 1);
        Slot dst;
        a.dst = &dst;
        string more = kv("n", a.n) + kv("d", op.num("d")) + ks("x", op.str("x"));
        if (o == "async") more += op.has("arg") ? string(",\"a\":[") + std::to_string(op.num("arg")) + "]" : string(",\"a\":[]");
        if (o == "all" || o == "any") {
            more += list("h", op.at("h")) + list("arms", op.at("arms")) + kv("rv", a.rv) + ks("ks", op.str("ks")) + kv("range", op.num("range"));
        }
        if (o == "co") more += list("h", op.at("h")) + kv("catch", op.num("catch"));
        if (o == "pkg") {
            a.src = &slots[op.num("p")];
            more += kv("p", op.num("p"));
        }
        Call c(o.c_str(), more);
        if (o == "async") op_async(a, op);
        else if (o == "pkg") op_pkg(a);
        else if (o == "all") op_all(a, op);
        else if (o == "any") op_any(a, op);
        else op_co(a, op);
        auto& d = slots[op.num("d")];
        if (o == "pkg" && a.src == &d) { // promise and future share the slot
            d.k = dst.k; d.v = std::move(dst.v); d.m = std::move(dst.m); d.u = std::move(dst.u);
        } else {
            bool hp = d.has_p;
            auto p = std::move(d.p);
            d = std::move(dst);
            d.has_p = hp;
            d.p = std::move(p);
        }
        c.end();
    } else if (o == "ready" || o == "exf") { // make_ready_future / make_exceptional_future
        int n = (int)op.num("n");
        const J& nd = *nodes->at(n);
        char k = nd.str("k")[0];
        char x = op.str("x").empty() ? 'i' : op.str("x")[0];
        LogExec ex{n, x};
        Slot& d = slots[op.num("d")];
        int v = k == '0' ? 0 : 1000 + n;
        Call c(o.c_str(), kv("n", n) + kv("d", op.num("d")) + ks("x", string(1, x)) + kv("v", o == "ready" ? v : 5000 + n));
        if (o == "ready") {
            if (k == 'V') d.set(stlab::make_ready_future<Val>(Val(v), ex));
            else if (k == 'M') d.set(stlab::make_ready_future<MVal>(MVal(v), ex));
            else d.set(stlab::make_ready_future(ex));
        } else {
            auto e = std::make_exception_ptr(Err{5000 + n});
            if (k == 'V') d.set(stlab::make_exceptional_future<Val>(e, ex));
            else if (k == 'M') d.set(stlab::make_exceptional_future<MVal>(e, ex));
            else d.set(stlab::make_exceptional_future<void>(e, ex));
        }
        c.end();
    } else if (o == "det") {
        Slot& s = slots[op.num("h")];
        Call c("det", kv("h", op.num("h")));
        by_kind(s, [](auto& f) { f.detach(); });
        c.end();
    } else if (o == "detf") {
        Slot& s = slots[op.num("h")];
        int n = (int)op.num("n");
        Call c("detf", kv("h", op.num("h")) + kv("n", n));
        char k = s.k;
        s.k = 0;
        if (k == 'V') std::move(s.v).detach(DetFn{n});
        else if (k == 'M') std::move(s.m).detach(DetFn{n});
        else std::move(s.u).detach(DetFn{n});
        c.end();
    } else if (o == "drop") {
        Slot& s = slots[op.num("h")];
        Call c("drop", kv("h", op.num("h")));
        if (op.num("f") == 0) by_kind(s, [](auto& f) { f.reset(); });
        else by_kind(s, [](auto& f) { f = std::decay_t<decltype(f)>{}; });
        s.k = 0;
        c.end();
    } else if (o == "cpy" || o == "mv") {
        Slot& s = slots[op.num("h")];
        Slot& d = slots[op.num("d")];
        Call c(o.c_str(), kv("h", op.num("h")) + kv("d", op.num("d")));
        if (o == "cpy") {
            if (s.k == 'V') d.v = s.v;
            else d.u = s.u;
            d.k = s.k;
        } else {
            if (s.k == 'V') d.v = std::move(s.v);
            else if (s.k == 'M') d.m = std::move(s.m);
            else d.u = std::move(s.u);
            d.k = s.k;
            s.k = 0;
        }
        c.end();
    } else if (o == "inv") {
        Slot& s = slots[op.num("p")];
        Call c("inv", kv("p", op.num("p")) + kv("v", op.num("v")));
        s.p(Val((int)op.num("v")));
        c.end();
    } else if (o == "dropt") {
        Slot& s = slots[op.num("p")];
        Call c("dropt", kv("p", op.num("p")));
        { auto gone = std::move(s.p); }
        s.has_p = false;
        c.end();
    } else if (o == "mvt") { // move-assign one packaged task over another
        Slot& s = slots[op.num("p")];
        Slot& d = slots[op.num("q")];
        Call c("mvt", kv("p", op.num("p")) + kv("q", op.num("q")));
        d.p = std::move(s.p);
        d.has_p = true;
        s.has_p = false;
        c.end();
    } else if (o == "exct") {
        Slot& s = slots[op.num("p")];
        Call c("exct", kv("p", op.num("p")) + kv("v", op.num("v")));
        s.p.set_exception(std::make_exception_ptr(Err{(int)op.num("v")}));
        c.end();
    } else if (o == "canc") {
        Slot& s = slots[op.num("p")];
        Call c("canc", kv("p", op.num("p")));
        bool r = s.p.canceled();
        c.end(kv("r", r));
    } else if (o == "rdy") {
        Slot& s = slots[op.num("h")];
        Call c("rdy", kv("h", op.num("h")));
        bool r = by_kind(s, [](auto& f) { return f.is_ready(); });
        c.end(kv("r", r));
    } else if (o == "try") {
        Slot& s = slots[op.num("h")];
        bool rv = op.num("rv") || s.k == 'M';
        Call c("try", kv("h", op.num("h")) + kv("rv", rv));
        string r = by_kind(s, [&](auto& f) { return try_of(f, rv); });
        bool got = r.find("\"-\"") == string::npos;
        if (rv && got) { // consumed: the handle is given up
            by_kind(s, [](auto& f) { f.reset(); });
            s.k = 0;
        }
        c.end("," + r);
    } else if (o == "get") { // only if ready: get_ready or exception
        Slot& s = slots[op.num("h")];
        bool rv = op.num("rv") || s.k == 'M';
        Call c("get", kv("h", op.num("h")) + kv("rv", rv));
        string r = by_kind(s, [&](auto& f) { return outcome_of(f, rv); });
        bool got = r.find("\"-\"") == string::npos;
        if (rv && got) {
            by_kind(s, [](auto& f) { f.reset(); });
            s.k = 0;
        }
        c.end("," + r);
    } else if (o == "await") {
        Slot& s = slots[op.num("h")];
        Call c("await", kv("h", op.num("h")));
        string r = by_kind(s, [&](auto& f) { return await_(std::move(f)); });
        s.k = 0;
        c.end(r);
    } else if (o == "awf") {
        Slot& s = slots[op.num("h")];
        long us = op.num("us");
        Call c("awf", kv("h", op.num("h")) + kv("us", us) + kv("n", op.num("n")) + kv("w", vs::now_us()));
        bool r = false, valid = false;
        by_kind(s, [&](auto& f) {
            f = op.num("n") % 5 == 4 ? stlab::blocking_get_for(std::move(f), std::chrono::microseconds(us)) :
                                      stlab::await_for(std::move(f), std::chrono::microseconds(us));
            valid = f.valid();
            r = valid && f.is_ready();
        });
        if (!valid) s.k = 0;
        c.end(kv("r", r) + kv("valid", valid) + kv("w", vs::now_us()));
    } else if (o == "pump") {
        for (long i = op.num("k", 1); i > 0; --i)
            if (!man->pop_run(false, op.num("drop"))) break;
    } else if (o == "y") {
        for (long i = op.num("k", 1); i > 0; --i) vs::point();
    } else if (o == "sleep") {
        std::this_thread::sleep_for(std::chrono::microseconds(op.num("us")));
    } else if (o == "set") {
        {
            std::unique_lock<std::mutex> l{*fl_m};
            flags[op.num("v")] = 1;
        }
        fl_c->notify_all();
    } else if (o == "wait") {
        std::unique_lock<std::mutex> l{*fl_m};
        while (!flags[op.num("v")]) fl_c->wait(l);
    } else if (o == "spawn") {
        for (auto& t : prog->at("thr").a) threads->emplace_back([&t] { run_thread(t); });
        if (long n = prog->num("pump"))
            for (; n > 0; --n) threads->emplace_back([] { while (man->pop_run(true, false)) {} });
    } else if (o == "q") {
        vs::quiesce();
        vs::event("{\"e\":\"q\",\"t\":0,\"u\":%d}", prog->num("pump") > 0);
    } else if (o == "stop") { // let the pump threads end and join everybody
        {
            std::unique_lock<std::mutex> l{man->m};
            man->stop = true;
        }
        man->c.notify_all();
        for (auto& t : *threads) t.join();
        threads->clear();
    } else if (o == "preexit") {
        stlab::pre_exit();
    } else {
        fprintf(stderr, "unknown op %s\n", o.c_str());
        vs::terminal("badop");
    }
}
void exec_ops(const J& ops) {
    for (auto& o : ops.a) exec_op(o);
}

static void body(const J& p) {
    prog = &p;
    {
        Slot s[64];
        std::map<int, const J*> nd;
        Manual m;
        std::vector<std::thread> th;
        std::mutex fm;
        std::condition_variable fc;
        stlab::serial_queue_t queue{stlab::default_executor};
        for (auto& e : p.at("nodes").o) nd[atoi(e.first.c_str())] = &e.second;
        slots = s;
        nodes = &nd;
        man = &m;
        threads = &th;
        fl_m = &fm;
        fl_c = &fc;
        sq = &queue;
        exec_ops(p.at("main"));
        vs::quiesce();
        m.q.clear();
        // everything the program still holds goes
        vs::counter(3, 1); // bodies do nothing from here on
        vs::event("{\"e\":\"fin\",\"t\":0}");
        for (auto& x : s) {
            x.v.reset();
            x.m.reset();
            x.u.reset();
            { auto gone = std::move(x.p); }
            x.k = 0;
        }
        do vs::quiesce();
        while (m.pop_run(false, false));
        vs::event("{\"e\":\"end\",\"t\":0,\"lv\":%ld}", vs::counter(0, 0));
    }
}
} // namespace fh

int main(int argc, char** argv) { return mini_main(argc, argv, fh::body); }
