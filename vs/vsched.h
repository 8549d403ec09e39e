// vsched: a controlled scheduler for unmodified C++ code.
//
// The code under test is compiled with `-fsanitize=thread` (compile only) and linked against this
// runtime instead of libtsan: every atomic operation, mutex/condition-variable/thread operation and
// (optionally) plain memory access becomes a scheduling point. Exactly one thread runs at a time,
// the next one is picked by a seeded strategy, and time is virtual.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>

namespace vs {

enum strategy : int { RANDOM = 0, PCT = 1, DFS = 2 };

struct options {
    uint64_t seed = 1;
    int strat = RANDOM;
    int switch_den = 4;      // RANDOM: preempt with probability 1/switch_den at a point
    int pct_depth = 3;       // PCT: number of priority change points
    int pct_len = 400;       // PCT: estimated number of points
    int plain_den = 0;       // 0: plain accesses are no points; n: point with probability 1/n
    int park_den = 0;        // 0: none; n: hold a thread back before an access to memory others use
    int spurious_den = 0;    // 0: none; n: spurious condition wake-ups with probability 1/n a point
    int early_den = 0;       // 0: none; n: with probability 1/n at a timed wait time may jump
    int max_steps = 60000;   // livelock limit (points)
    long max_accesses = 30000000;
    unsigned cores = 2;      // what hardware_concurrency() reports
    int preempt_bound = 2;   // DFS
};

struct decision { uint8_t n, chosen, preempt, self_runnable; };

// Shared between the exploring parent and the forked child.
struct shm {
    uint32_t len;            // bytes used in log
    uint32_t overflow;
    uint32_t status;         // 0 running, 1 finished normally, 2 terminal event logged
    uint32_t steps;
    uint32_t switches;
    uint32_t ndec;
    uint32_t nprefix;
    uint32_t events;
    uint8_t prefix[8192];
    decision dec[8192];
    char log[1 << 20];
};

shm* shared();                          // the region of this process (parent creates it)
void begin(const options&);             // in the child: the calling thread becomes thread 0
[[noreturn]] void finish();             // in the child: done, flush, _exit
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void event_str(const std::string&);
[[noreturn]] void terminal(const char* what, const char* detail = "");
int self();                             // id of the running thread (0 = main), -1 outside
int64_t now_us();                       // virtual time, microseconds
void quiesce(bool advance_time = true); // block until every other thread is blocked or finished
int blocked_threads();                  // number of threads not finished, except the caller
void point();                           // an explicit scheduling point
void yield();                           // a point that favours others
uint64_t rnd();                         // schedule RNG (rarely needed by harnesses)
long counter(int which, long delta); // counters[which] += delta, atomically for the scheduler
bool active();
struct no_sched { no_sched(); ~no_sched(); };  // no scheduling points within

// exploration in the parent: runs `body` in a forked child under `o`; returns when it ended
void run_child(const options& o, void (*body)(void*), void* arg, int wall_s = 30);
// the DFS successor of the last run; false when the space is exhausted
bool dfs_next(int preempt_bound);
void dfs_reset();

} // namespace vs
