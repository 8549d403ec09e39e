// See vsched.h. This file is compiled WITHOUT -fsanitize=thread.
#include "vsched.h"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace {

long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
long futex(int* a, int op, int v) { return raw_syscall6(SYS_futex, (long)a, op, v, 0, 0, 0); }

enum st { FREE, RUN, B_MTX, B_CV, B_JOIN, B_GUARD, B_FUTEX, B_SLEEP, B_QUIESCE, B_RW, B_SEM, DONE };

constexpr int MAXT = 96;
struct thr {
    int word;
    st state;
    const void* obj;
    bool timed, timed_out, signaled;
    int64_t deadline;
    bool quiesce_time;
    bool detached;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    int64_t prio;
    uintptr_t park;          // held back until another thread uses this memory (or nothing else can run)
    uint32_t park_until;
};

thr T[MAXT];
volatile int NT = 0;
volatile int cur = -1;
volatile bool ACTIVE = false;
vs::options O;
vs::shm* S = nullptr;
volatile uint64_t rng_state;
volatile int64_t vtime = 1000000000; // microseconds
volatile int nosched = 0;
int change_points[64];
volatile int64_t low_prio = 0;
long accesses = 0;
pthread_key_t exit_key;
thread_local int my_id = -1;

uint64_t splitmix(volatile uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t rnd() { return splitmix(rng_state); }

template <class F>
F next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

bool on() { return ACTIVE && my_id >= 0; }

void wait_turn(int me) {
    while (__atomic_load_n(&T[me].word, __ATOMIC_ACQUIRE) == 0)
        futex(&T[me].word, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&T[me].word, 0, __ATOMIC_RELEASE);
    asm volatile("" ::: "memory");
}
void give_turn(int t) {
    asm volatile("" ::: "memory");
    cur = t;
    __atomic_store_n(&T[t].word, 1, __ATOMIC_RELEASE);
    futex(&T[t].word, FUTEX_WAKE_PRIVATE, 1);
}

void expire() { // wake timed waiters which are due
    for (int i = 0; i < NT; ++i) {
        thr& t = T[i];
        if (t.timed && t.deadline <= vtime &&
            (t.state == B_CV || t.state == B_SLEEP || t.state == B_MTX || t.state == B_FUTEX ||
             t.state == B_RW || t.state == B_SEM)) {
            t.timed = false;
            t.timed_out = true;
            t.state = RUN;
        }
    }
}
bool advance() { // jump to the earliest deadline
    int64_t best = INT64_MAX;
    for (int i = 0; i < NT; ++i)
        if (T[i].timed && T[i].state > RUN && T[i].state < DONE && T[i].deadline < best)
            best = T[i].deadline;
    if (best == INT64_MAX) return false;
    if (best > vtime) vtime = best;
    expire();
    return true;
}

int runnable(int* r, int me) {
    int n = 0;
    bool parked = false;
    for (int i = 0; i < NT; ++i)
        if (T[i].park && T[i].state == RUN) {
            if (S->steps >= T[i].park_until) T[i].park = 0;
            else parked = true;
        }
    for (;;) {
        if (me >= 0 && T[me].state == RUN && !T[me].park) r[n++] = me;
        for (int i = 0; i < NT; ++i)
            if (i != me && T[i].state == RUN && !T[i].park) r[n++] = i;
        if (n || !parked) return n;
        for (int i = 0; i < NT; ++i) T[i].park = 0;
        parked = false;
    }
}

// picks the next thread; `me` may be blocked or finished
int choose(int me, bool favour_others) {
    int r[MAXT];
    int n;
    for (;;) {
        n = runnable(r, me);
        if (n) break;
        // nothing can run: a quiesce without time, then time, then a full quiesce
        int q = -1;
        for (int i = 0; i < NT; ++i)
            if (T[i].state == B_QUIESCE) q = i;
        if (q >= 0 && !T[q].quiesce_time) {
            T[q].state = RUN;
            continue;
        }
        if (advance()) continue;
        if (q >= 0) {
            T[q].state = RUN;
            continue;
        }
        vs::terminal("deadlock");
    }
    bool self_run = (r[0] == me);
    if (n == 1) return r[0];
    int pick = 0;
    switch (O.strat) {
        case vs::RANDOM:
            if (self_run) {
                if (favour_others || rnd() % O.switch_den == 0) pick = 1 + rnd() % (n - 1);
            } else
                pick = rnd() % n;
            break;
        case vs::PCT: {
            if (favour_others && self_run) T[me].prio = --low_prio;
            for (int i = 0; i < O.pct_depth; ++i)
                if (change_points[i] == (int)S->steps && self_run) T[me].prio = --low_prio;
            for (int i = 1; i < n; ++i)
                if (T[r[i]].prio > T[r[pick]].prio) pick = i;
            break;
        }
        case vs::DFS: {
            // option 0 continues the running thread; anything else preempts it
            uint32_t d = S->ndec;
            if (d < S->nprefix)
                pick = S->prefix[d] < n ? S->prefix[d] : 0;
            else
                pick = (favour_others && self_run) ? 1 : 0;
            if (d < sizeof(S->prefix)) {
                S->dec[d] = {(uint8_t)n, (uint8_t)pick, (uint8_t)(self_run && !favour_others),
                             (uint8_t)(self_run && favour_others)};
                S->ndec = d + 1;
            }
            break;
        }
    }
    return r[pick];
}

void reschedule(bool favour_others = false) {
    int me = my_id;
    if (favour_others) // this thread may be waiting for one which is held back
        for (int i = 0; i < NT; ++i) T[i].park = 0;
    int nx = choose(me, favour_others);
    if (nx != me) {
        ++S->switches;
        give_turn(nx);
        if (T[me].state != DONE) wait_turn(me);
    }
}

// livelock: nothing has been seen for long (or the execution is far too long altogether)
void count_step() {
    static uint32_t ev = 0, at = 0;
    uint32_t n = ++S->steps;
    if (S->events != ev) ev = S->events, at = n;
    if (n - at > (uint32_t)O.max_steps || n > 6 * (uint32_t)O.max_steps) vs::terminal("livelock");
}

void do_point(bool favour_others = false) {
    if (nosched) return;
    count_step();
    if (O.spurious_den && rnd() % O.spurious_den == 0) {
        int c[MAXT], n = 0;
        for (int i = 0; i < NT; ++i)
            if (T[i].state == B_CV) c[n++] = i;
        if (n) {
            thr& t = T[c[rnd() % n]];
            t.state = RUN;
            t.timed = false;
        }
    }
    reschedule(favour_others);
}

// Memory that several threads use is where a preemption between two accesses can matter.
struct seen { uintptr_t addr; int tid; bool hot; };
seen table[4096];
bool hot(const volatile void* p) {
    uintptr_t a = (uintptr_t)p >> 3;
    seen& e = table[(a ^ (a >> 12)) % 4096];
    if (e.addr != a) e = seen{a, my_id, false};
    else if (e.tid != my_id) e.hot = true;
    if (e.hot && O.park_den)
        for (int i = 0; i < NT; ++i)
            if (T[i].park == a && i != my_id && rnd() % 2) T[i].park = 0;
    return e.hot;
}
void park(const volatile void* p) {
    if (nosched) return;
    T[my_id].park = (uintptr_t)p >> 3;
    T[my_id].park_until = S->steps + 20 + rnd() % 200;
    do_point();
}
// a point before an operation on the synchronization object p
void sync_point(const volatile void* p) {
    if (O.park_den && !nosched && hot(p) && rnd() % (2 * O.park_den) == 0) park(p);
    else do_point();
}

// block the caller until somebody makes it runnable
void block(st s, const void* obj) {
    thr& t = T[my_id];
    t.state = s;
    t.obj = obj;
    t.timed_out = false;
    t.signaled = false;
    if (t.timed && O.early_den && rnd() % O.early_den == 0) {
        // other threads may be slow: time may pass although they could run
        if (t.deadline > vtime) vtime = t.deadline;
        t.state = RUN;
        t.timed = false;
        t.timed_out = true;
        expire();
        reschedule(true);
        return;
    }
    count_step();
    reschedule();
    t.timed = false;
}

void wake_all(st s, const void* obj) {
    for (int i = 0; i < NT; ++i)
        if (T[i].state == s && T[i].obj == obj) {
            T[i].state = RUN;
            T[i].timed = false;
        }
}

void thread_done(void*) {
    int me = my_id;
    if (me < 0) return;
    T[me].state = DONE;
    for (int i = 0; i < NT; ++i)
        if (T[i].state == B_JOIN && T[i].obj == &T[me]) T[i].state = RUN;
    int nx = choose(me, false);
    my_id = -1;
    give_turn(nx);
}

void* trampoline(void* p) {
    thr* t = static_cast<thr*>(p);
    my_id = int(t - T);
    pthread_setspecific(exit_key, t);
    wait_turn(my_id);
    return t->fn(t->arg);
}

int64_t to_us(const timespec* ts) { return int64_t(ts->tv_sec) * 1000000 + (ts->tv_nsec + 999) / 1000; }

// ---- mutex representation inside pthread_mutex_t (zero = unlocked) -------------------------------
struct mtx {
    int owner; // thread id + 1
    unsigned count;
    int a, b;
    int kind; // same offset as glibc's __kind on x86-64
};
static_assert(offsetof(mtx, kind) == 16);

void bad_mutex(mtx* m, const char* what) {
    char buf[64];
    snprintf(buf, sizeof buf, "%s", what);
    (void)m;
    vs::terminal("ub", buf);
}
void check_mutex(mtx* m) {
    if (m->owner < 0 || m->owner > NT) bad_mutex(m, "operation on a destroyed mutex");
}

int lock_mutex(mtx* m, int64_t deadline = -1) {
    sync_point(m);
    for (;;) {
        check_mutex(m);
        if (m->owner == 0) {
            m->owner = my_id + 1;
            m->count = 1;
            return 0;
        }
        if (m->owner == my_id + 1) {
            if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
                ++m->count;
                return 0;
            }
            if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
        if (deadline >= 0) {
            if (vtime >= deadline) return ETIMEDOUT;
            T[my_id].timed = true;
            T[my_id].deadline = deadline;
        }
        block(B_MTX, m);
        if (deadline >= 0 && T[my_id].timed_out) return ETIMEDOUT;
    }
}
int unlock_nopoint(mtx* m) {
    check_mutex(m);
    if (m->owner != my_id + 1) bad_mutex(m, "unlock of a mutex not held by this thread");
    if (--m->count) return 0;
    m->owner = 0;
    wake_all(B_MTX, m);
    return 0;
}

// ---- condition variables: waiters are threads in state B_CV -------------------------------------
constexpr unsigned CV_DEAD = 0xdeadc0de;
void check_cv(pthread_cond_t* c) {
    unsigned w;
    memcpy(&w, (char*)c + sizeof(*c) - 4, 4);
    if (w == CV_DEAD) vs::terminal("ub", "operation on a destroyed condition variable");
}
int cv_wait(pthread_cond_t* c, mtx* m, int64_t deadline) {
    check_cv(c);
    do_point();
    unsigned saved = m->count;
    m->count = 1;
    unlock_nopoint(m);
    thr& t = T[my_id];
    if (deadline >= 0) {
        t.timed = true;
        t.deadline = deadline;
        if (deadline <= vtime) { // due already: still lets others run
            t.timed = false;
            t.state = RUN;
            t.timed_out = true;
            t.signaled = false;
            do_point();
        } else
            block(B_CV, c);
    } else {
        t.timed = false;
        block(B_CV, c);
    }
    bool to = deadline >= 0 && t.timed_out && !t.signaled;
    // reacquire
    for (;;) {
        check_mutex(m);
        if (m->owner == 0) break;
        block(B_MTX, m);
    }
    m->owner = my_id + 1;
    m->count = saved;
    return to ? ETIMEDOUT : 0;
}
int cv_notify(pthread_cond_t* c, bool all) {
    do_point();
    check_cv(c);
    int w[MAXT], n = 0;
    for (int i = 0; i < NT; ++i)
        if (T[i].state == B_CV && T[i].obj == c) w[n++] = i;
    if (!n) return 0;
    if (all) {
        for (int i = 0; i < n; ++i) {
            T[w[i]].state = RUN;
            T[w[i]].timed = false;
            T[w[i]].signaled = true;
        }
    } else {
        int i = w[O.strat == vs::DFS ? 0 : rnd() % n];
        T[i].state = RUN;
        T[i].timed = false;
        T[i].signaled = true;
    }
    return 0;
}

// ---- arena -----------------------------------------------------------------------------------
constexpr size_t ARENA = size_t(256) << 20;
char* arena = nullptr;
unsigned char* shadow = nullptr; // per 16 bytes: 0 never, 1 live, 2 freed
size_t arena_top = 0;
long live_blocks = 0;

bool in_arena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ARENA; }

void* arena_alloc(size_t n, size_t align) {
    if (n == 0) n = 1;
    if (align < 16) align = 16;
    size_t at = (arena_top + 16 + align - 1) & ~(align - 1);
    size_t end = at + ((n + 15) & ~size_t(15)) + 16; // trailing red zone
    if (end > ARENA) vs::terminal("oom");
    arena_top = end;
    *(size_t*)(arena + at - 16) = n;
    memset(shadow + at / 16, 1, (n + 15) / 16);
    memset(arena + at, 0xa5, n);
    ++live_blocks;
    return arena + at;
}
void arena_free(void* p) {
    size_t at = (char*)p - arena;
    if (shadow[at / 16] != 1) vs::terminal("ub", "delete of memory not allocated or freed twice");
    size_t n = *(size_t*)(arena + at - 16);
    memset(shadow + at / 16, 2, (n + 15) / 16);
    memset(p, 0xdd, n);
    --live_blocks;
}

void access_check(const void* p) {
    if (!ACTIVE) return;
    if (in_arena(p)) {
        unsigned char s = shadow[((const char*)p - arena) / 16];
        if (__builtin_expect(s != 1, 0))
            if (my_id >= 0) vs::terminal("ub", s == 2 ? "use after free" : "out of bounds access");
    }
    if (++accesses > O.max_accesses) vs::terminal("livelock", "memory accesses");
}
void plain(const void* p) {
    access_check(p);
    if ((O.plain_den || O.park_den) && on() && !nosched) {
        char here;
        ptrdiff_t d = (const char*)p - &here;
        if (d > -65536 && d < (1 << 20)) return; // own stack
        if (hot(p)) {
            if (O.park_den && rnd() % O.park_den == 0) park(p);
            else if (O.plain_den && rnd() % (3 + O.plain_den / 8) == 0) do_point();
        } else if (O.plain_den && rnd() % O.plain_den == 0)
            do_point();
    }
}

void on_signal(int s) {
    if (s == SIGALRM) vs::terminal("hang");
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "signal";
    vs::terminal("crash", n);
}

} // namespace

namespace vs {

shm* shared() {
    if (!S) {
        void* p = mmap(nullptr, sizeof(shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        S = static_cast<shm*>(p);
        arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = (unsigned char*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    return S;
}

bool active() { return on(); }
uint64_t rnd() { return ::rnd(); }
int self() { return my_id; }
int64_t now_us() { return vtime - 1000000000; }
void point() { if (on()) do_point(); }
void yield() { if (on()) do_point(true); }
no_sched::no_sched() { ++nosched; }
no_sched::~no_sched() { --nosched; }

void begin(const options& o) {
    O = o;
    rng_state = o.seed * 0x9e3779b97f4a7c15ull + 12345;
    for (int i = 0; i < 5; ++i) ::rnd();
    pthread_key_create(&exit_key, thread_done);
    NT = 1;
    my_id = 0;
    cur = 0;
    T[0].state = RUN;
    T[0].prio = (int64_t)(::rnd() % 1000000) + 1;
    for (int i = 0; i < 64; ++i) change_points[i] = 1 + ::rnd() % (o.pct_len > 0 ? o.pct_len : 1);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    ACTIVE = true;
}

void finish() {
    ACTIVE = false;
    if (S->status == 0) S->status = 1;
    raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void event_str(const std::string& s) {
    if (!S || !ACTIVE) return;
    if (S->len + s.size() + 2 > sizeof(S->log)) {
        S->overflow = 1;
        S->status = 2;
        raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    if (S->len) S->log[S->len++] = ',';
    memcpy(S->log + S->len, s.data(), s.size());
    S->len += s.size();
    ++S->events;
}
static long counters[64];
long counter(int which, long delta) { return counters[which] += delta; }

void event(const char* fmt, ...) {
    if (!S || !ACTIVE) return;
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0 || n >= (int)sizeof buf) n = sizeof buf - 1;
    if (S->len + n + 2 > sizeof(S->log)) {
        S->overflow = 1;
        S->status = 2;
        raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    if (S->len) S->log[S->len++] = ',';
    memcpy(S->log + S->len, buf, n);
    S->len += n;
    ++S->events;
}

void terminal(const char* what, const char* detail) {
    if (ACTIVE) {
        event("{\"e\":\"%s\",\"why\":\"%s\"}", what, detail);
        S->status = 2;
    }
    if (getenv("VS_ABORT_ON_TERMINAL")) {
        signal(SIGABRT, SIG_DFL);
        raw_syscall6(SYS_kill, getpid(), SIGABRT, 0, 0, 0, 0);
    }
    raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void quiesce(bool advance_time) {
    if (!on()) return;
    T[my_id].quiesce_time = advance_time;
    T[my_id].timed = false;
    T[my_id].state = B_QUIESCE;
    count_step();
    reschedule();
}
int blocked_threads() {
    int n = 0;
    for (int i = 0; i < NT; ++i)
        if (i != my_id && T[i].state != DONE && T[i].state != FREE) ++n;
    return n;
}

void run_child(const options& o, void (*body)(void*), void* arg, int wall_s) {
    shm* s = shared();
    s->len = s->overflow = s->status = s->steps = s->switches = s->ndec = s->events = 0;
    if (o.strat != DFS) s->nprefix = 0;
    pid_t pid = fork();
    if (pid == 0) {
        if (!getenv("VS_STDERR")) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
        }
        begin(o);
        alarm(wall_s);
        body(arg);
        finish();
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (s->status == 0) { // died without a word (e.g. killed)
        s->status = 3;
        if (s->len == 0) s->len = 0;
    }
}

void dfs_reset() { shared()->nprefix = 0; }
bool dfs_next(int bound) {
    shm* s = shared();
    int n = (int)s->ndec;
    if (n > (int)sizeof(s->prefix)) n = sizeof(s->prefix);
    // preemptions up to each position
    static int pre[sizeof(s->prefix) + 1];
    pre[0] = 0;
    for (int i = 0; i < n; ++i) pre[i + 1] = pre[i] + (s->dec[i].preempt && s->dec[i].chosen != 0);
    for (int i = n - 1; i >= 0; --i) {
        int nx = s->dec[i].chosen + 1;
        if (s->dec[i].self_runnable) { // a yield: alternatives are the others, 1..n-1 then stop
            if (nx >= s->dec[i].n) continue;
        } else if (nx >= s->dec[i].n)
            continue;
        int p = pre[i] + (s->dec[i].preempt ? 1 : 0);
        if (p > bound) continue;
        for (int j = 0; j < i; ++j) s->prefix[j] = s->dec[j].chosen;
        s->prefix[i] = (uint8_t)nx;
        s->nprefix = i + 1;
        return true;
    }
    return false;
}

} // namespace vs

// =================================================================================================
// interposed functions

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept {
    static auto real = next<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!on()) return real(th, at, fn, arg);
    if (NT >= MAXT) vs::terminal("toomanythreads");
    int id = NT;
    thr& t = T[id];
    memset(&t, 0, sizeof t);
    t.fn = fn;
    t.arg = arg;
    t.state = RUN;
    t.prio = (int64_t)(rnd() % 1000000) + 1;
    NT = id + 1;
    int r = real(&t.real, at, trampoline, &t);
    if (r) {
        t.state = DONE;
        return r;
    }
    *th = t.real;
    do_point();
    return 0;
}

int pthread_join(pthread_t th, void** ret) {
    static auto real = next<int (*)(pthread_t, void**)>("pthread_join");
    if (!on()) return real(th, ret);
    int id = -1;
    for (int i = 1; i < NT; ++i)
        if (T[i].real == th && !T[i].detached) id = i;
    do_point();
    if (id >= 0) {
        if (id == my_id) return EDEADLK;
        while (T[id].state != DONE) block(B_JOIN, &T[id]);
        T[id].detached = true;
    }
    return real(th, ret);
}
int pthread_detach(pthread_t th) noexcept {
    static auto real = next<int (*)(pthread_t)>("pthread_detach");
    if (on())
        for (int i = 1; i < NT; ++i)
            if (T[i].real == th) T[i].detached = true;
    return real(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!on()) return ACTIVE ? 0 : real(m);
    access_check(m);
    return lock_mutex((mtx*)m);
}
int pthread_mutex_trylock(pthread_mutex_t* m_) noexcept {
    static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!on()) return ACTIVE ? 0 : real(m_);
    access_check(m_);
    mtx* m = (mtx*)m_;
    do_point();
    check_mutex(m);
    if (m->owner == 0) {
        m->owner = my_id + 1;
        m->count = 1;
        return 0;
    }
    if (m->owner == my_id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        ++m->count;
        return 0;
    }
    do_point(true);
    return EBUSY;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) noexcept {
    if (!on()) return 0;
    return lock_mutex((mtx*)m, to_us(ts));
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept {
    if (!on()) return 0;
    return lock_mutex((mtx*)m, to_us(ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!on()) return ACTIVE ? 0 : real(m);
    access_check(m);
    int r = unlock_nopoint((mtx*)m);
    do_point();
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
    static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if (!on()) return ACTIVE ? 0 : real(m);
    check_mutex((mtx*)m);
    if (((mtx*)m)->owner) vs::terminal("ub", "destruction of a locked mutex");
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept {
    static auto real = next<int (*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init");
    if (!ACTIVE) return real(c, a);
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto real = next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!on()) return real(c, m);
    return cv_wait(c, (mtx*)m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    static auto real = next<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
    if (!on()) return real(c, m, ts);
    return cv_wait(c, (mtx*)m, to_us(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
    static auto real = next<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
    if (!on()) return real(c, m, k, ts);
    return cv_wait(c, (mtx*)m, to_us(ts));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    static auto real = next<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!on()) return ACTIVE ? 0 : real(c);
    access_check(c);
    return cv_notify(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    static auto real = next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!on()) return ACTIVE ? 0 : real(c);
    access_check(c);
    return cv_notify(c, true);
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    static auto real = next<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
    if (!ACTIVE) return real(c);
    if (my_id >= 0) {
        check_cv(c);
        for (int i = 0; i < NT; ++i)
            if (T[i].state == B_CV && T[i].obj == c)
                vs::terminal("ub", "destruction of a condition variable with waiters");
    }
    unsigned w = CV_DEAD;
    memcpy((char*)c + sizeof(*c) - 4, &w, 4);
    return 0;
}

// read-write locks: {int writer; int readers}
struct rwl { int writer, readers; };
static int rw_lock(rwl* l, bool w, bool tr, int64_t deadline) {
    do_point();
    for (;;) {
        if (w ? (!l->writer && !l->readers) : !l->writer) {
            if (w) l->writer = my_id + 1; else ++l->readers;
            return 0;
        }
        if (tr) { do_point(true); return EBUSY; }
        if (deadline >= 0) {
            if (vtime >= deadline) return ETIMEDOUT;
            T[my_id].timed = true;
            T[my_id].deadline = deadline;
        }
        block(B_RW, l);
        if (deadline >= 0 && T[my_id].timed_out) return ETIMEDOUT;
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return on() ? rw_lock((rwl*)l, false, false, -1) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return on() ? rw_lock((rwl*)l, true, false, -1) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return on() ? rw_lock((rwl*)l, false, true, -1) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return on() ? rw_lock((rwl*)l, true, true, -1) : 0; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const timespec* t) noexcept { return on() ? rw_lock((rwl*)l, false, false, to_us(t)) : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const timespec* t) noexcept { return on() ? rw_lock((rwl*)l, true, false, to_us(t)) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l_) noexcept {
    if (!on()) return 0;
    rwl* l = (rwl*)l_;
    if (l->writer) l->writer = 0; else --l->readers;
    wake_all(B_RW, l);
    do_point();
    return 0;
}

// POSIX semaphores
int sem_init(sem_t* s, int, unsigned v) noexcept { *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept {
    ++*(int*)s;
    if (on()) { wake_all(B_SEM, s); do_point(); }
    return 0;
}
static int sem_w(sem_t* s, int64_t deadline, bool tr) {
    do_point();
    for (;;) {
        if (*(int*)s > 0) { --*(int*)s; return 0; }
        if (tr) { errno = EAGAIN; do_point(true); return -1; }
        if (deadline >= 0) {
            if (vtime >= deadline) { errno = ETIMEDOUT; return -1; }
            T[my_id].timed = true;
            T[my_id].deadline = deadline;
        }
        block(B_SEM, s);
        if (deadline >= 0 && T[my_id].timed_out) { errno = ETIMEDOUT; return -1; }
    }
}
int sem_wait(sem_t* s) { return on() ? sem_w(s, -1, false) : 0; }
int sem_trywait(sem_t* s) noexcept { return on() ? sem_w(s, -1, true) : 0; }
int sem_timedwait(sem_t* s, const timespec* t) { return on() ? sem_w(s, to_us(t), false) : 0; }
int sem_clockwait(sem_t* s, clockid_t, const timespec* t) { return on() ? sem_w(s, to_us(t), false) : 0; }

// time
int clock_gettime(clockid_t k, timespec* ts) noexcept {
    if (!on() || (k != CLOCK_MONOTONIC && k != CLOCK_REALTIME))
        return (int)raw_syscall6(SYS_clock_gettime, k, (long)ts, 0, 0, 0, 0);
    vtime += 1;
    ts->tv_sec = vtime / 1000000;
    ts->tv_nsec = (vtime % 1000000) * 1000;
    return 0;
}
static void sleep_until_us(int64_t t) {
    do_point();
    if (t <= vtime) { do_point(true); return; }
    T[my_id].timed = true;
    T[my_id].deadline = t;
    block(B_SLEEP, nullptr);
}
int nanosleep(const timespec* ts, timespec* rem) {
    if (!on()) return (int)raw_syscall6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
    sleep_until_us(vtime + to_us(ts));
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const timespec* ts, timespec*) {
    if (!on()) return 0;
    sleep_until_us((flags & TIMER_ABSTIME) ? to_us(ts) : vtime + to_us(ts));
    return 0;
}
int usleep(useconds_t us) {
    timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int sched_yield() noexcept {
    if (!on()) return (int)raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    do_point(true);
    return 0;
}

// futex (std::atomic::wait, semaphores, latches and barriers of libstdc++)
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        int op = (int)a[1] & FUTEX_CMD_MASK;
        int* addr = (int*)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            do_point();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            if (a[3]) {
                T[my_id].timed = true;
                T[my_id].deadline = op == FUTEX_WAIT ? vtime + to_us((timespec*)a[3]) : to_us((timespec*)a[3]);
            } else
                T[my_id].timed = false;
            block(B_FUTEX, addr);
            if (T[my_id].timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int woke = 0;
            for (int i = 0; i < NT && woke < (int)a[2]; ++i)
                if (T[i].state == B_FUTEX && T[i].obj == addr) {
                    T[i].state = RUN;
                    T[i].timed = false;
                    ++woke;
                }
            do_point();
            return woke;
        }
    }
    long r = raw_syscall6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
    // 0 not run, 2 done, 1 running
    if (!on()) {
        if (*o != 2) { *o = 1; f(); *o = 2; }
        return 0;
    }
    do_point();
    while (*o == 1) block(B_GUARD, o);
    if (*o == 2) return 0;
    *o = 1;
    f();
    *o = 2;
    wake_all(B_GUARD, o);
    do_point();
    return 0;
}

// static initialisation: byte 0 = initialised, byte 1 = in progress, bytes 4..7 = owner
int __cxa_guard_acquire(long long* g) {
    char* b = (char*)g;
    if (b[0]) return 0;
    if (!on()) { b[1] = 1; return 1; }
    do_point();
    while (b[1]) {
        int owner;
        memcpy(&owner, b + 4, 4);
        if (owner == my_id) vs::terminal("ub", "recursive static initialisation");
        block(B_GUARD, g);
    }
    if (b[0]) return 0;
    b[1] = 1;
    int me = my_id;
    memcpy(b + 4, &me, 4);
    return 1;
}
void __cxa_guard_release(long long* g) noexcept {
    char* b = (char*)g;
    b[1] = 0;
    b[0] = 1;
    if (on()) { wake_all(B_GUARD, g); do_point(); }
}
void __cxa_guard_abort(long long* g) noexcept {
    char* b = (char*)g;
    b[1] = 0;
    if (on()) { wake_all(B_GUARD, g); do_point(); }
}

// ---- the thread sanitizer ABI --------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PLAIN(n)                                                                                   \
    void __tsan_read##n(void* p) { plain(p); }                                                     \
    void __tsan_write##n(void* p) { plain(p); }                                                    \
    void __tsan_unaligned_read##n(void* p) { plain(p); }                                           \
    void __tsan_unaligned_write##n(void* p) { plain(p); }                                          \
    void __tsan_volatile_read##n(void* p) { plain(p); }                                            \
    void __tsan_volatile_write##n(void* p) { plain(p); }                                           \
    void __tsan_unaligned_volatile_read##n(void* p) { plain(p); }                                  \
    void __tsan_unaligned_volatile_write##n(void* p) { plain(p); }                                 \
    void __tsan_read_write##n(void* p) { plain(p); }                                               \
    void __tsan_unaligned_read_write##n(void* p) { plain(p); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void* p, unsigned long) { plain(p); }
void __tsan_write_range(void* p, unsigned long) { plain(p); }
void __tsan_vptr_read(void** p) { plain(p); }
void __tsan_vptr_update(void** p, void*) { plain(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }

static inline void at_point(const volatile void* p) {
    access_check((const void*)p);
    if (on()) sync_point(p);
}
#define ATOMIC(bits, T)                                                                            \
    T __tsan_atomic##bits##_load(const volatile T* a, int) {                                       \
        at_point(a);                                                                               \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                               \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                    \
        at_point(a);                                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                    \
        at_point(a);                                                                               \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                                   \
        at_point(a);                                                                               \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                                   \
        at_point(a);                                                                               \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                                   \
        at_point(a);                                                                               \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                    \
        at_point(a);                                                                               \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                          \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                                   \
        at_point(a);                                                                               \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                                  \
        at_point(a);                                                                               \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {        \
        at_point(a);                                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);    \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {          \
        at_point(a);                                                                               \
        if (*a != *c) {                                                                            \
            *c = *a;                                                                               \
            if (on()) do_point(true);                                                              \
            return 0;                                                                              \
        }                                                                                          \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);    \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {              \
        at_point(a);                                                                               \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
        return c;                                                                                  \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

// what the code under test sees as the number of cores
namespace std {
unsigned thread::hardware_concurrency() noexcept { return ACTIVE ? O.cores : 4; }
} // namespace std

// ---- allocation ------------------------------------------------------------------------------------
static void* do_new(size_t n, size_t al) {
    if (ACTIVE) return arena_alloc(n, al);
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    if (arena && in_arena(p)) {
        arena_free(p);
        return;
    }
    free(p);
}
void* operator new(size_t n) { return do_new(n, 16); }
void* operator new[](size_t n) { return do_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
