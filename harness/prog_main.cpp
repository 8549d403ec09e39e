// progress_tracker: runs a program under the controlled scheduler and logs what is counted.
#include "mini.h"
#include <optional>
#include <stlab/concurrency/progress.hpp>
#include <thread>

namespace ph {
using stlab::progress_tracker;
static int TID() { return vs::self(); }
struct Fn {
    int id;
    int kind; // 0 returns, 1 throws, 2 does so by turns with its argument
    Fn(int i, int k) : id(i), kind(k) {}
    Fn(const Fn&) = default;
    Fn(Fn&& x) noexcept : id(std::exchange(x.id, 0)), kind(x.kind) {}
    Fn& operator=(const Fn&) = default;
    Fn& operator=(Fn&& x) noexcept { id = std::exchange(x.id, 0); kind = x.kind; return *this; }
    long operator()(int a) const {
        int me = id;
        vs::event("{\"e\":\"fb\",\"id\":%d,\"a\":%d,\"t\":%d}", me, a, TID());
        vs::point();
        bool x = kind == 1 || (kind == 2 && a % 2);
        vs::event("{\"e\":\"fe\",\"x\":%d,\"t\":%d}", int(x), TID());
        if (x) throw me;
        return me * 10 + a;
    }
};
using Client = decltype(std::declval<progress_tracker&>()(std::declval<Fn>()));
static std::optional<progress_tracker>* tracker; // [6]; tracker k is of server of[k]
static int* of;
static std::optional<Client>* slot; // [8]
static const J* prog;

static void exec_op(const J& op) {
    auto& o = op.str("op");
    int s = (int)op.num("s"), f = (int)op.num("f"), k = (int)op.num("k");
    if (o == "tracker") {
        of[k] = k;
        if (op.num("cb")) tracker[k].emplace([k](size_t a, size_t b) { vs::event("{\"e\":\"cb\",\"k\":%d,\"s\":%ld,\"c\":%ld,\"t\":%d}", k, (long)a, (long)b, TID()); });
        else tracker[k].emplace();
        vs::event("{\"e\":\"tracker\",\"k\":%d,\"cb\":%ld,\"t\":%d}", k, op.num("cb"), TID());
    } else if (o == "hold") { // tracker f becomes a copy of k
        if (tracker[f]) { *tracker[f] = *tracker[k]; vs::event("{\"e\":\"unhold\",\"k\":%d,\"t\":%d}", of[f], TID()); }
        else tracker[f].emplace(*tracker[k]);
        of[f] = of[k];
        vs::event("{\"e\":\"hold\",\"k\":%d,\"t\":%d}", of[k], TID());
    } else if (o == "unhold") {
        vs::event("{\"e\":\"unhold\",\"k\":%d,\"t\":%d}", of[k], TID());
        tracker[k].reset();
    } else if (o == "call") {
        vs::event("{\"e\":\"call\",\"s\":%d,\"t\":%d}", s, TID());
        try {
            long v = static_cast<const Client&>(*slot[s])((int)op.num("a"));
            vs::event("{\"e\":\"ret\",\"v\":%ld,\"t\":%d}", v, TID());
        } catch (int id) {
            vs::event("{\"e\":\"thr\",\"v\":%d,\"t\":%d}", id, TID());
        }
    } else if (o == "steps" || o == "completed") {
        vs::event("{\"e\":\"%s\",\"k\":%d,\"t\":%d}", o.c_str(), of[k], TID());
        long v = o == "steps" ? tracker[k]->steps() : tracker[k]->completed();
        vs::event("{\"e\":\"got\",\"v\":%ld,\"t\":%d}", v, TID());
    } else if (o == "y") {
        vs::point();
    } else if (o == "spawn") {
        std::vector<std::thread> th;
        for (auto& t : prog->at("thr").a) th.emplace_back([&t] { for (auto& x : t.a) exec_op(x); });
        for (auto& t : th) t.join();
    } else {
        vs::event("{\"e\":\"edit\",\"o\":\"%s\",\"s\":%d,\"f\":%d,\"id\":%ld,\"tr\":%d,\"t\":%d}", o.c_str(), s, f, op.num("id"), o == "wrap" ? of[k] : -1, TID());
        bool as = op.num("as"); // by assignment
        if (o == "wrap") {
            Fn fn((int)op.num("id"), (int)op.num("kind"));
            if (as && slot[s]) *slot[s] = (*tracker[k])(std::move(fn));
            else { slot[s].reset(); slot[s].emplace((*tracker[k])(std::move(fn))); }
        } else if (o == "copy") {
            if (as && slot[s]) *slot[s] = *slot[f];
            else { slot[s].reset(); slot[s].emplace(*slot[f]); }
        } else if (o == "move") {
            if (as && slot[s]) *slot[s] = std::move(*slot[f]);
            else { slot[s].reset(); slot[s].emplace(std::move(*slot[f])); }
        } else if (o == "drop") slot[s].reset();
        else vs::terminal("badop");
        vs::event("{\"e\":\"edited\",\"t\":%d}", TID());
    }
}
static void body(const J& p) {
    prog = &p;
    {
        std::optional<progress_tracker> tr[6];
        int o[6] = {};
        std::optional<Client> sl[8];
        tracker = tr;
        of = o;
        slot = sl;
        for (auto& x : p.at("main").a) exec_op(x);
        vs::event("{\"e\":\"end\",\"t\":0}");
    }
}
} // namespace ph
int main(int argc, char** argv) { return mini_main(argc, argv, ph::body); }
