// Executors: the pool and await, serial queues, timers and delayed executors, pre_exit.
// Interprets a program under the controlled scheduler and logs submissions, runs and their order.
#include "mini.h"

#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>

#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>

namespace xh {
using stlab::task;
using std::string;
using work_t = task<void() noexcept>;
static int TID() { return vs::self(); }
static long W() { return (long)vs::now_us(); }

static const J* prog;
static std::map<int, const J*>* bodies;
static void exec_ops(const J& ops);

// ---- a submitted task ------------------------------------------------------------------------
struct Job {
    int k;
    explicit Job(int i) : k(i) {}
    Job(Job&& x) noexcept : k(std::exchange(x.k, 0)) {}
    Job& operator=(Job&& x) noexcept { k = std::exchange(x.k, 0); return *this; }
    void operator()() noexcept {
        vs::event("{\"e\":\"rb\",\"k\":%d,\"t\":%d,\"w\":%ld}", k, TID(), W());
        auto i = bodies->find(k);
        if (i != bodies->end()) exec_ops(*i->second);
        vs::event("{\"e\":\"re\",\"k\":%d,\"t\":%d,\"w\":%ld}", k, TID(), W());
    }
    ~Job() {
        if (k) vs::event("{\"e\":\"td\",\"k\":%d,\"t\":%d}", k, TID());
    }
};

// ---- what an executor under a serial queue or a delayed executor is given ----------------------
struct Run {
    work_t f;
    int u = 0;
    Run(work_t&& t, int i) : f(std::move(t)), u(i) {}
    Run(Run&& x) noexcept : f(std::move(x.f)), u(std::exchange(x.u, 0)) {}
    Run& operator=(Run&& x) noexcept { f = std::move(x.f); u = std::exchange(x.u, 0); return *this; }
    void operator()() noexcept {
        int id = std::exchange(u, 0);
        vs::event("{\"e\":\"ub\",\"u\":%d,\"t\":%d}", id, TID());
        {
            auto g = std::move(f);
            g();
        }
        vs::event("{\"e\":\"ue\",\"u\":%d,\"t\":%d}", id, TID());
    }
    ~Run() {
        if (u) {
            vs::event("{\"e\":\"ud\",\"u\":%d,\"t\":%d}", u, TID());
        }
    }
};

struct Manual {
    std::mutex m;
    std::condition_variable c;
    std::deque<work_t> q;
    bool stop = false;
    void push(work_t r) {
        {
            std::unique_lock<std::mutex> l{m};
            q.push_back(std::move(r));
        }
        c.notify_one();
    }
    bool pop_run(bool wait) {
        work_t r;
        {
            std::unique_lock<std::mutex> l{m};
            while (wait && q.empty() && !stop) c.wait(l);
            if (q.empty()) return false;
            r = std::move(q.front());
            q.pop_front();
        }
        r();
        return true;
    }
};
static Manual* man;

using exec_t = std::function<void(work_t)>;
struct Queue {
    std::unique_ptr<stlab::serial_queue_t> q;
    exec_t ex;        // a stored executor, which may outlive the queue object
};
static Queue* queues;  // [4]
static exec_t* delayed; // [4]
static stlab::future<void>* futs; // [64]
static std::vector<std::thread>* threads;
static std::mutex* fl_m;
static std::condition_variable* fl_c;
static int flags[16];

static void to(const string& x, work_t f) { // a plain executor by name
    switch (x[0]) {
        case 'i': stlab::immediate_executor(std::move(f)); break;
        case 'm': man->push(std::move(f)); break;
        case 'p': stlab::default_executor(std::move(f)); break;
        case 'l': stlab::low_executor(std::move(f)); break;
        case 'h': stlab::high_executor(std::move(f)); break;
        case 's': queues[x[1] - '0'].ex(std::move(f)); break;
        default: vs::terminal("badop");
    }
}

struct Under { // the executor below queue or delayed executor `id`
    int id;
    string x;
    void operator()(work_t f) const {
        int u = (int)vs::counter(1, 1);
        vs::event("{\"e\":\"us\",\"u\":%d,\"q\":%d,\"t\":%d,\"w\":%ld}", u, id, TID(), W());
        to(x, Run{std::move(f), u});
        vs::event("{\"e\":\"use\",\"u\":%d,\"t\":%d}", u, TID());
    }
};

// the same time in the unit of the caller's choice
template <class F>
static void in_units(long us, int k, F f) {
    using namespace std::chrono;
    if (us && us % 1000000 == 0 && k % 2) f(seconds(us / 1000000));
    else if (us % 1000 == 0 && k % 3) f(milliseconds(us / 1000));
    else if (k % 3 == 1) f(nanoseconds(us * 1000));
    else f(microseconds(us));
}

static void submit(int k, const string& x, const J& op) {
    int xi = x.size() > 1 ? x[1] - '0' : -1;
    vs::event("{\"e\":\"sub\",\"k\":%d,\"x\":\"%s\",\"xk\":\"%c\",\"xi\":%d,\"t\":%d,\"w\":%ld,\"us\":%ld}", k, x.c_str(), x[0], xi, TID(), W(), op.num("us"));
    Job j{k};
    switch (x[0]) {
        case 'd': delayed[x[1] - '0'](std::move(j)); break;
        case 't':
            in_units(op.num("us"), k, [&](auto d) { stlab::system_timer(d, std::move(j)); });
            break;
        case 'p': stlab::default_executor(std::move(j)); break;
        case 'l': stlab::low_executor(std::move(j)); break;
        case 'h': stlab::high_executor(std::move(j)); break;
        case 'q': (*queues[x[1] - '0'].q).executor()(std::move(j)); break; // through the queue object
        case 'f': (*queues[x[1] - '0'].q)(std::move(j)).detach(); break;   // through operator()
        default: to(x, std::move(j));
    }
    vs::event("{\"e\":\"sube\",\"k\":%d,\"t\":%d,\"w\":%ld}", k, TID(), W());
}

// ---- pre-exit handlers ---------------------------------------------------------------------------
static void handler(int h) {
    vs::event("{\"e\":\"hb\",\"h\":%d,\"t\":%d}", h, TID());
    auto i = bodies->find(900 + h);
    if (i != bodies->end()) exec_ops(*i->second);
    vs::event("{\"e\":\"he\",\"h\":%d,\"t\":%d}", h, TID());
}
template <int N> void hfun() noexcept { handler(N); }
static constexpr stlab::pre_exit_handler hs[] = {hfun<0>, hfun<1>, hfun<2>, hfun<3>, hfun<4>, hfun<5>, hfun<6>, hfun<7>,
                                                 hfun<8>, hfun<9>, hfun<10>, hfun<11>};

static void exec_op(const J& op) {
    const string& o = op.str("op");
    if (o == "sub") {
        submit((int)op.num("k"), op.str("x"), op);
    } else if (o == "warm") { // tasks of which nothing is logged
        for (long i = op.num("k"); i > 0; --i) stlab::default_executor([]() noexcept {});
        vs::quiesce();
    } else if (o == "as") { // a pool task with a future
        int k = (int)op.num("k");
        const string& x = op.str("x");
        vs::event("{\"e\":\"sub\",\"k\":%d,\"x\":\"%s\",\"t\":%d,\"w\":%ld,\"us\":0}", k, x.c_str(), TID(), W());
        if (x == "l") futs[k] = stlab::async(stlab::low_executor, Job{k});
        else if (x == "h") futs[k] = stlab::async(stlab::high_executor, Job{k});
        else futs[k] = stlab::async(stlab::default_executor, Job{k});
        vs::event("{\"e\":\"sube\",\"k\":%d,\"t\":%d,\"w\":%ld}", k, TID(), W());
    } else if (o == "aw") {
        int k = (int)op.num("k");
        vs::event("{\"e\":\"ab\",\"k\":%d,\"t\":%d}", k, TID());
        stlab::await(std::move(futs[k]));
        vs::event("{\"e\":\"ae\",\"k\":%d,\"t\":%d}", k, TID());
    } else if (o == "awf") { // await_for until it is there
        int k = (int)op.num("k");
        vs::event("{\"e\":\"ab\",\"k\":%d,\"t\":%d}", k, TID());
        do futs[k] = stlab::await_for(std::move(futs[k]), std::chrono::microseconds(op.num("us")));
        while (!futs[k].is_ready());
        vs::event("{\"e\":\"ae\",\"k\":%d,\"t\":%d}", k, TID());
    } else if (o == "iw") { // waits for a flag, announced to the pool
        vs::event("{\"e\":\"wb\",\"v\":%ld,\"t\":%d}", op.num("v"), TID());
        {
            std::unique_lock<std::mutex> l{*fl_m};
            stlab::invoke_waiting([&] { while (!flags[op.num("v")]) fl_c->wait(l); });
        }
        vs::event("{\"e\":\"we\",\"v\":%ld,\"t\":%d}", op.num("v"), TID());
    } else if (o == "set") {
        vs::event("{\"e\":\"set\",\"v\":%ld,\"t\":%d}", op.num("v"), TID());
        {
            std::unique_lock<std::mutex> l{*fl_m};
            flags[op.num("v")] = 1;
        }
        fl_c->notify_all();
    } else if (o == "wait") { // only on threads which are not the pool's
        std::unique_lock<std::mutex> l{*fl_m};
        while (!flags[op.num("v")]) fl_c->wait(l);
    } else if (o == "sleep") {
        std::this_thread::sleep_for(std::chrono::microseconds(op.num("us")));
    } else if (o == "y") {
        for (long i = op.num("k", 1); i > 0; --i) vs::point();
    } else if (o == "qdrop") { // the queue object goes, executors obtained from it stay
        queues[op.num("q")].q.reset();
    } else if (o == "edrop") {
        queues[op.num("q")].ex = nullptr;
    } else if (o == "at") {
        vs::event("{\"e\":\"at\",\"h\":%ld,\"t\":%d}", op.num("h"), TID());
        stlab::at_pre_exit(hs[op.num("h")]);
        vs::event("{\"e\":\"ate\",\"h\":%ld,\"t\":%d}", op.num("h"), TID());
    } else if (o == "preexit") {
        vs::event("{\"e\":\"pb\",\"t\":%d}", TID());
        stlab::pre_exit();
        vs::event("{\"e\":\"pe\",\"t\":%d,\"nt\":%d}", TID(), vs::blocked_threads() - (int)threads->size());
    } else if (o == "spawn") {
        for (auto& t : prog->at("thr").a) threads->emplace_back([&t] { exec_ops(t); });
        for (long n = prog->num("pump"); n > 0; --n) threads->emplace_back([] { while (man->pop_run(true)) {} });
    } else if (o == "join") { // threads which end by themselves
        for (size_t i = 0; i < prog->at("thr").a.size(); ++i) (*threads)[i].join();
        threads->erase(threads->begin(), threads->begin() + prog->at("thr").a.size());
    } else if (o == "q") {
        vs::quiesce();
        vs::event("{\"e\":\"q\",\"t\":0,\"w\":%ld}", W());
    } else if (o == "stop") {
        {
            std::unique_lock<std::mutex> l{man->m};
            man->stop = true;
        }
        man->c.notify_all();
        for (auto& t : *threads) t.join();
        threads->clear();
    } else {
        fprintf(stderr, "unknown op %s\n", o.c_str());
        vs::terminal("badop");
    }
}
static void exec_ops(const J& ops) {
    for (auto& o : ops.a) exec_op(o);
}

static void body(const J& p) {
    prog = &p;
    {
        Manual m;
        std::map<int, const J*> b;
        Queue qs[4];
        exec_t ds[4];
        auto fs = std::make_unique<stlab::future<void>[]>(200);
        std::vector<std::thread> th;
        std::mutex fm;
        std::condition_variable fc;
        if (auto t = p.find("tasks"))
            for (auto& e : t->o) b[atoi(e.first.c_str())] = &e.second;
        bodies = &b;
        man = &m;
        queues = qs;
        delayed = ds;
        futs = fs.get();
        threads = &th;
        fl_m = &fm;
        fl_c = &fc;
        if (auto q = p.find("queues"))
            for (size_t i = 0; i < q->a.size(); ++i) {
                Under u{(int)i, q->a[i].str("x")};
                if (q->a[i].num("mode")) qs[i].q = std::make_unique<stlab::serial_queue_t>(u, stlab::schedule_mode::all);
                else if (i % 2) qs[i].q = std::make_unique<stlab::serial_queue_t>(u, stlab::schedule_mode::single);
                else qs[i].q = std::make_unique<stlab::serial_queue_t>(u);
                qs[i].ex = qs[i].q->executor();
            }
        if (auto d = p.find("delayed"))
            for (size_t i = 0; i < d->a.size(); ++i) {
                Under u{100 + (int)i, d->a[i].str("x")};
                in_units(d->a[i].num("us"), (int)i, [&](auto us) {
                    if (d->a[i].num("form")) ds[i] = stlab::execute_delayed(us, u);
                    else ds[i] = stlab::execute_at(us, u);
                });
            }
        string modes, delays;
        if (auto q = p.find("queues"))
            for (auto& e : q->a) modes += (modes.empty() ? "" : ",") + std::to_string(e.num("mode"));
        if (auto d = p.find("delayed"))
            for (auto& e : d->a) delays += (delays.empty() ? "" : ",") + std::to_string(e.num("us"));
        vs::event("{\"e\":\"start\",\"t\":0,\"cores\":%u,\"ord\":%ld,\"modes\":[%s],\"delays\":[%s]}", std::thread::hardware_concurrency(), p.num("ord"), modes.c_str(), delays.c_str());
        exec_ops(p.at("main"));
        vs::quiesce();
        vs::event("{\"e\":\"end\",\"t\":0,\"w\":%ld}", W());
    }
}
} // namespace xh

int main(int argc, char** argv) { return mini_main(argc, argv, xh::body); }
