#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "dsched.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace ds
{
static const uint64_t NEVER = UINT64_MAX;

// straight to the kernel, no errno
static inline long sys6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

enum St { RUN, BLOCK, DONE };
enum Why { WOKEN, TIMEOUT, CANCEL };
struct Th
{
    int id;
    pthread_t pt;
    int tid = 0;
    int gate = 0;
    St st = RUN;
    const void *addr = nullptr;
    const char *what = "";
    uint64_t deadline = NEVER;
    int epfd = -1;
    bool cancellable = false;
    Why why = WOKEN;
    bool cancel = false, cancel_off = false, detached = false, joined = false;
    int nofinal = 0;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    int prio = 0;
};

static bool g_active = false;
static Th *g_cur = nullptr;
static __thread Th *t_self __attribute__((tls_model("initial-exec"))) = nullptr;
static std::vector<Th *> *g_th = nullptr;
static Config g_cfg;
static uint64_t g_rng, g_steps, g_vns, g_switches, g_count_sync, g_count_mem;
static uint64_t g_real0, g_mono0;
static bool g_fair = false;
static std::vector<uint64_t> *g_changes = nullptr;
static int g_lowprio = 0;
static std::map<const void *, int> *g_once = nullptr;
std::function<void(const std::string &)> on_deadlock;
int sem_eintr = 0, sem_interrupted = 0;

static inline uint64_t rnd() { return pv::splitmix(g_rng); }
static inline bool on() { return g_active && t_self && t_self == g_cur; }
bool active() { return on(); }
uint64_t vnow() { return g_vns; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
int self() { return t_self ? t_self->id : -1; }
int threads_alive()
{
    int n = 0;
    for (auto t : *g_th) if (t != t_self && t->st != DONE) ++n;
    return n;
}
int blocked()
{
    int n = 0;
    for (auto t : *g_th) if (t != t_self && t->st == BLOCK && t->deadline == NEVER) ++n;
    return n;
}

Config config(pv::Src &h)
{
    Config c;
    uint64_t a = h.word(), b = h.word();
    c.seed = a << 32 | b;
    c.mode = (int)h.weighted({1, 4, 4, 3});
    static const int dens[] = {2, 3, 4, 8, 16, 32};
    c.sync_den = dens[h.range(0, 4)];
    c.mem_den = 1 << h.range(2, 10);
    c.changes = (int)h.range(1, 5);
    c.len_log2 = (int)h.range(5, 14);
    c.spurious_den = h.chance(1, 3) ? (int)h.range(2, 8) : 0;
    return c;
}

static void gate_wait(Th *t)
{
    while (!__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE)) sys6(SYS_futex, (long)&t->gate, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->gate, 0, __ATOMIC_RELEASE);
}
static void gate_open(Th *t)
{
    __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
    sys6(SYS_futex, (long)&t->gate, FUTEX_WAKE_PRIVATE, 1);
}

static std::string describe()
{
    std::string s;
    for (auto t : *g_th)
    {
        s += "thread " + std::to_string(t->id) + ": ";
        s += t->st == DONE ? "finished" : t->st == RUN ? "runnable" : std::string("waits in ") + t->what;
        s += "; ";
    }
    return s;
}

static bool ep_ready(int fd)
{
    pollfd p{fd, POLLIN, 0};
    timespec z{0, 0};
    return sys6(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8) == 1;
}

static void arm()
{
    auto draw = [](int den) -> uint64_t { return den <= 1 ? 1 : 1 + rnd() % (2 * (uint64_t)den - 1); };
    g_count_sync = draw(g_cfg.sync_den);
    g_count_mem = draw(g_cfg.mem_den);
}

// who may run now
static Th *choose(bool not_self)
{
    for (int round = 0;; ++round)
    {
        Th *cand[64];
        int n = 0;
        bool pollers = false;
        uint64_t first = NEVER;
        for (auto t : *g_th)
        {
            if (n >= 64) break;
            if (t->st == RUN) { if (!(not_self && t == t_self)) cand[n++] = t; }
            else if (t->st == BLOCK)
            {
                if (t->cancel && t->cancellable && !t->cancel_off) cand[n++] = t;
                else if (t->deadline <= g_vns) cand[n++] = t;
                else if (t->epfd >= 0)
                {
                    pollers = true;
                    if (ep_ready(t->epfd)) cand[n++] = t;
                    else if (t->deadline < first) first = t->deadline;
                }
                else if (t->deadline < first) first = t->deadline;
            }
        }
        if (n == 0)
        {
            if (not_self && t_self && t_self->st == RUN) return t_self;
            if (pollers && round < 3)
            {
                // the kernel may still be at work
                timespec ts{0, 300000};
                sys6(SYS_nanosleep, (long)&ts, 0);
                continue;
            }
            if (first != NEVER) { g_vns = first; continue; }
            if (pollers && round < 40)
            {
                timespec ts{0, 5000000};
                sys6(SYS_nanosleep, (long)&ts, 0);
                continue;
            }
            std::string d = describe();
            if (on_deadlock) on_deadlock(d);
            else pv::cx().soft_fail("deadlock: %s", d.c_str());
            pv::end_case();
        }
        Th *t;
        if (g_fair)
        {
            static size_t rr = 0;
            t = cand[rr++ % n];
        }
        else if (g_cfg.mode == 3)
        {
            t = cand[0];
            for (int i = 1; i < n; ++i) if (cand[i]->prio > t->prio) t = cand[i];
        }
        else t = cand[rnd() % n];
        if (t->st == BLOCK)
        {
            bool due = t->deadline <= g_vns;
            if (t->cancel && t->cancellable && !t->cancel_off) t->why = CANCEL;
            else if (t->epfd >= 0) t->why = due && !ep_ready(t->epfd) ? TIMEOUT : WOKEN;
            else t->why = TIMEOUT;
            t->st = RUN;
        }
        return t;
    }
}

static void schedule(bool not_self)
{
    Th *me = t_self;
    ++pv::nopreempt;
    Th *t = choose(not_self);
    --pv::nopreempt;
    arm();
    if (t == me) return;
    ++g_switches;
    g_cur = t;
    bool done = me->st == DONE;
    gate_open(t);
    if (!done) gate_wait(me);
}

static void count_step()
{
    ++g_steps;
    g_vns += 10;
    if (g_steps == g_cfg.fair_steps) g_fair = true;
    if (g_steps > g_cfg.max_steps)
    {
        pv::cx().soft_fail("the run does not come to an end: %s", describe().c_str());
        pv::end_case();
    }
    if (g_cfg.mode == 3)
        for (auto &c : *g_changes)
            if (c == g_steps) { g_cur->prio = --g_lowprio; g_count_sync = g_count_mem = 0; }
}

static void mem_point()
{
    if (!on() || pv::nopreempt) return;
    count_step();
    if (g_fair) { if (g_steps % 64 == 0) schedule(false); return; }
    if (g_cfg.mode == 2) { if (--g_count_mem == 0) schedule(false); }
    else if (g_cfg.mode == 3)
    {
        if (g_count_mem == 0) { g_count_mem = g_count_sync = 1u << 30; schedule(false); }
        else if (g_steps % 4096 == 0) { g_cur->prio = --g_lowprio; schedule(false); }  // nobody spins for ever
    }
}
static void sync_point()
{
    if (!on() || pv::nopreempt) return;
    count_step();
    if (g_fair) { schedule(false); return; }
    if (g_cfg.mode == 1 || g_cfg.mode == 2) { if (--g_count_sync == 0) schedule(false); }
    else if (g_cfg.mode == 3) schedule(false);
}
void point() { sync_point(); }
void yield()
{
    if (!on()) return;
    count_step();
    if (g_cfg.mode == 3) g_cur->prio = --g_lowprio;
    schedule(true);
}

static Why block(const void *addr, const char *what, uint64_t deadline = NEVER, int epfd = -1, bool cancellable = false)
{
    Th *me = t_self;
    me->st = BLOCK;
    me->addr = addr;
    me->what = what;
    me->deadline = deadline;
    me->epfd = epfd;
    me->cancellable = cancellable;
    me->why = WOKEN;
    count_step();
    schedule(false);
    me->addr = nullptr;
    me->deadline = NEVER;
    me->epfd = -1;
    me->cancellable = false;
    return me->why;
}
static int wake(const void *addr, int n = INT_MAX)
{
    std::vector<Th *> w;
    for (auto t : *g_th) if (t->st == BLOCK && t->addr == addr && addr) w.push_back(t);
    int k = 0;
    while (k < n && !w.empty())
    {
        size_t i = n == INT_MAX ? 0 : rnd() % w.size();
        w[i]->st = RUN;
        w[i]->why = WOKEN;
        w.erase(w.begin() + i);
        ++k;
    }
    return k;
}
static int wake_noalloc_guarded(const void *addr, int n = INT_MAX)
{
    ++pv::nopreempt;
    int k = wake(addr, n);
    --pv::nopreempt;
    return k;
}

void settle()
{
    if (!on()) return;
    // lowest priority, until nobody else can go on without the clock
    for (;;)
    {
        bool other = false;
        for (auto t : *g_th)
            if (t != t_self && (t->st == RUN || (t->st == BLOCK && t->epfd >= 0 && ep_ready(t->epfd)))) other = true;
        if (!other) return;
        count_step();
        schedule(true);
    }
}

static void realtimes()
{
    timespec t;
    sys6(SYS_clock_gettime, CLOCK_REALTIME, (long)&t);
    g_real0 = t.tv_sec * 1000000000ull + t.tv_nsec;
    sys6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t);
    g_mono0 = t.tv_sec * 1000000000ull + t.tv_nsec;
}

void run(const Config &c, const std::function<void()> &fn)
{
    g_cfg = c;
    g_rng = c.seed ^ 0xD1B54A32D192ED03ull;
    g_steps = g_vns = g_switches = 0;
    g_fair = false;
    g_th = new std::vector<Th *>();
    g_th->reserve(256);
    g_changes = new std::vector<uint64_t>();
    g_once = new std::map<const void *, int>();
    g_lowprio = 0;
    for (int i = 0; i < c.changes; ++i) g_changes->push_back(1 + rnd() % (1ull << c.len_log2));
    realtimes();
    if (c.epoch) g_real0 = c.epoch;
    Th *t = new Th();
    t->id = 0;
    t->pt = pthread_self();
    t->tid = (int)sys6(SYS_gettid);
    t->prio = 1 + (int)(rnd() % 1000);
    g_th->push_back(t);
    t_self = t;
    g_cur = t;
    arm();
    if (c.mode == 3) g_count_mem = g_count_sync = 1u << 30;
    g_active = true;
    struct Off { ~Off() { g_active = false; } } off;
    fn();
}

template <typename F> static F real(const char *name, const char *ver = nullptr)
{
    void *p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
    if (!p) p = dlsym(RTLD_NEXT, name);
    return (F)p;
}
#define REAL(name) (*([] { static decltype(&::name) f = ds::real<decltype(&::name)>(#name); return f; })())

static void act_on_cancel()
{
    // unwind for real
    t_self->cancel = false;
    t_self->cancel_off = true;
    REAL(pthread_cancel)(pthread_self());
    REAL(pthread_testcancel)();
}
static void cancel_point()
{
    if (on() && t_self->cancel && !t_self->cancel_off) act_on_cancel();
}

static void th_end(Th *t)
{
    t->st = DONE;
    ++pv::nopreempt;
    wake(t);
    --pv::nopreempt;
    schedule(false);
}
static void *start(void *a)
{
    Th *t = (Th *)a;
    t_self = t;
    t->tid = (int)sys6(SYS_gettid);
    gate_wait(t);
    struct End { Th *t; ~End() { th_end(t); } } end{t};
    return t->fn(t->arg);
}
static Th *find(pthread_t p)
{
    for (auto it = g_th->rbegin(); it != g_th->rend(); ++it) if ((*it)->pt == p && !(*it)->joined) return *it;
    return nullptr;
}
static uint64_t to_virtual(const timespec *abs, clockid_t c)
{
    uint64_t v = abs->tv_sec * 1000000000ull + abs->tv_nsec, base = c == CLOCK_REALTIME ? g_real0 : g_mono0;
    return v <= base ? 0 : v - base;
}
static bool vclock(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME; }
static void vtime(clockid_t c, timespec *t)
{
    uint64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g_real0 : g_mono0) + g_vns;
    t->tv_sec = v / 1000000000ull;
    t->tv_nsec = v % 1000000000ull;
}
static int mutex_lock(pthread_mutex_t *m, uint64_t deadline)
{
    for (;;)
    {
        int rc = REAL(pthread_mutex_trylock)(m);
        if (rc != EBUSY) return rc;
        int kind = m->__data.__kind & 3;
        if (m->__data.__owner == t_self->tid && kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        if (block(m, "a mutex lock", deadline) == TIMEOUT) return ETIMEDOUT;
    }
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline)
{
    sync_point();
    cancel_point();
    int rc = REAL(pthread_mutex_unlock)(m);
    if (rc) return rc;
    wake_noalloc_guarded(m);
    uint64_t d = deadline;
    bool spur = false;
    if (g_cfg.spurious_den && rnd() % g_cfg.spurious_den == 0)
    {
        uint64_t s = g_vns + rnd() % 3000;
        if (s < d) { d = s; spur = true; }
    }
    Why w = block(c, "a condition wait", d, -1, true);
    mutex_lock(m, NEVER);
    if (w == CANCEL) act_on_cancel();
    if (w == TIMEOUT && !spur) return ETIMEDOUT;
    return 0;
}
}  // namespace ds

using namespace ds;

extern "C"
{
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!on()) return REAL(pthread_create)(p, a, fn, arg);
    sync_point();
    ++pv::nopreempt;
    Th *t = new Th();
    t->id = (int)g_th->size();
    t->fn = fn;
    t->arg = arg;
    t->prio = 1 + (int)(rnd() % 1000);
    int ds_state = 0;
    if (a && pthread_attr_getdetachstate(a, &ds_state) == 0 && ds_state == PTHREAD_CREATE_DETACHED) t->detached = true;
    pthread_t id;
    int rc = REAL(pthread_create)(&id, a, start, t);
    if (rc == 0) { t->pt = id; *p = id; g_th->push_back(t); }
    --pv::nopreempt;
    if (rc == 0) sync_point();
    return rc;
}
int pthread_join(pthread_t p, void **r)
{
    if (!on()) return REAL(pthread_join)(p, r);
    sync_point();
    cancel_point();
    Th *t = find(p);
    if (!t) return ESRCH;
    if (t->detached) return EINVAL;
    if (t == t_self) return EDEADLK;
    while (t->st != DONE)
        if (block(t, "a join", NEVER, -1, true) == CANCEL) act_on_cancel();
    t->joined = true;
    return REAL(pthread_join)(p, r);
}
int pthread_detach(pthread_t p)
{
    if (!on()) return REAL(pthread_detach)(p);
    sync_point();
    Th *t = find(p);
    if (!t) return ESRCH;
    if (t->detached) return EINVAL;
    t->detached = true;
    return REAL(pthread_detach)(p);
}
int pthread_cancel(pthread_t p)
{
    if (!on()) return REAL(pthread_cancel)(p);
    sync_point();
    Th *t = find(p);
    if (!t) return ESRCH;
    if (t->st != DONE) t->cancel = true;
    return 0;
}
void pthread_testcancel(void)
{
    if (!on()) { REAL(pthread_testcancel)(); return; }
    sync_point();
    cancel_point();
}
int pthread_setcancelstate(int s, int *old)
{
    if (!on()) return REAL(pthread_setcancelstate)(s, old);
    if (s != PTHREAD_CANCEL_ENABLE && s != PTHREAD_CANCEL_DISABLE) return EINVAL;
    if (old) *old = t_self->cancel_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
    t_self->cancel_off = s == PTHREAD_CANCEL_DISABLE;
    return 0;
}
int pthread_kill(pthread_t p, int s)
{
    sync_point();
    return REAL(pthread_kill)(p, s);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!on()) return REAL(pthread_mutex_lock)(m);
    sync_point();
    return mutex_lock(m, NEVER);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    sync_point();
    return REAL(pthread_mutex_trylock)(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t)
{
    if (!on()) return REAL(pthread_mutex_timedlock)(m, t);
    sync_point();
    return mutex_lock(m, to_virtual(t, CLOCK_REALTIME));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t)
{
    if (!on()) return REAL(pthread_mutex_clocklock)(m, c, t);
    sync_point();
    return mutex_lock(m, to_virtual(t, c));
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!on()) return REAL(pthread_mutex_unlock)(m);
    int rc = REAL(pthread_mutex_unlock)(m);
    wake_noalloc_guarded(m);
    sync_point();
    return rc;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    static auto f = ds::real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait", "GLIBC_2.3.2");
    if (!on()) return f(c, m);
    return cond_wait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
    static auto f = ds::real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!on()) return f(c, m, t);
    return cond_wait(c, m, to_virtual(t, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t)
{
    if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, t);
    return cond_wait(c, m, to_virtual(t, k));
}
int pthread_cond_signal(pthread_cond_t *c)
{
    static auto f = ds::real<int (*)(pthread_cond_t *)>("pthread_cond_signal", "GLIBC_2.3.2");
    if (!on()) return f(c);
    sync_point();
    wake_noalloc_guarded(c, 1);
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    static auto f = ds::real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast", "GLIBC_2.3.2");
    if (!on()) return f(c);
    sync_point();
    wake_noalloc_guarded(c);
    sync_point();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
    static auto f = ds::real<int (*)(pthread_cond_t *)>("pthread_cond_destroy", "GLIBC_2.3.2");
    if (!on()) return f(c);
    // the real one waits for waiters; here they are ours
    for (auto t : *g_th)
        if (t->st == BLOCK && t->addr == c) { pv::cx().soft_fail("a condition is destroyed while thread %d waits on it", t->id); pv::end_case(); }
    return 0;
}

static int rw_lock(pthread_rwlock_t *l, bool wr, uint64_t deadline)
{
    for (;;)
    {
        int rc = wr ? REAL(pthread_rwlock_trywrlock)(l) : REAL(pthread_rwlock_tryrdlock)(l);
        if (rc != EBUSY && rc != EAGAIN) return rc;
        if (l->__data.__cur_writer == t_self->tid) return EDEADLK;
        if (block(l, wr ? "a write lock" : "a read lock", deadline) == TIMEOUT) return ETIMEDOUT;
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    if (!on()) return REAL(pthread_rwlock_rdlock)(l);
    sync_point();
    return rw_lock(l, false, NEVER);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    if (!on()) return REAL(pthread_rwlock_wrlock)(l);
    sync_point();
    return rw_lock(l, true, NEVER);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
    sync_point();
    return REAL(pthread_rwlock_tryrdlock)(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
    sync_point();
    return REAL(pthread_rwlock_trywrlock)(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!on()) return REAL(pthread_rwlock_unlock)(l);
    int rc = REAL(pthread_rwlock_unlock)(l);
    wake_noalloc_guarded((const void *)l);
    sync_point();
    return rc;
}

int pthread_spin_lock(pthread_spinlock_t *l)
{
    if (!on()) return REAL(pthread_spin_lock)(l);
    sync_point();
    while (REAL(pthread_spin_trylock)(l) == EBUSY) block((const void *)l, "a spinlock");
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t *l)
{
    sync_point();
    return REAL(pthread_spin_trylock)(l);
}
int pthread_spin_unlock(pthread_spinlock_t *l)
{
    if (!on()) return REAL(pthread_spin_unlock)(l);
    int rc = REAL(pthread_spin_unlock)(l);
    wake_noalloc_guarded((const void *)l);
    sync_point();
    return rc;
}

struct BarState { unsigned need, in; uint64_t gen; };
static std::map<const void *, BarState> *g_bar = nullptr;
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n)
{
    if (on())
    {
        ++pv::nopreempt;
        if (!g_bar) g_bar = new std::map<const void *, BarState>();
        (*g_bar)[b] = {n, 0, 0};
        --pv::nopreempt;
    }
    return REAL(pthread_barrier_init)(b, a, n);
}
int pthread_barrier_wait(pthread_barrier_t *b)
{
    if (!on() || !g_bar || !g_bar->count(b)) return REAL(pthread_barrier_wait)(b);
    sync_point();
    BarState &s = (*g_bar)[b];
    uint64_t gen = s.gen;
    if (++s.in == s.need)
    {
        s.in = 0;
        ++s.gen;
        wake_noalloc_guarded(b);
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    while (s.gen == gen) block(b, "a barrier");
    return 0;
}

int sem_wait(sem_t *s)
{
    if (!on()) return REAL(sem_wait)(s);
    sync_point();
    cancel_point();
    while (REAL(sem_trywait)(s) != 0)
    {
        if (errno != EAGAIN) return -1;
        uint64_t until = NEVER;
        if (sem_eintr && rnd() % sem_eintr == 0) until = g_vns + rnd() % 3000;
        Why w = block(s, "a semaphore wait", until, -1, true);
        if (w == CANCEL) act_on_cancel();
        if (w == TIMEOUT) { ++sem_interrupted; errno = EINTR; return -1; }
    }
    return 0;
}
int sem_timedwait(sem_t *s, const timespec *t)
{
    if (!on()) return REAL(sem_timedwait)(s, t);
    sync_point();
    while (REAL(sem_trywait)(s) != 0)
    {
        if (errno != EAGAIN) return -1;
        if (block(s, "a semaphore wait", to_virtual(t, CLOCK_REALTIME)) == TIMEOUT) { errno = ETIMEDOUT; return -1; }
    }
    return 0;
}
int sem_clockwait(sem_t *s, clockid_t c, const timespec *t)
{
    if (!on()) return REAL(sem_clockwait)(s, c, t);
    sync_point();
    while (REAL(sem_trywait)(s) != 0)
    {
        if (errno != EAGAIN) return -1;
        if (block(s, "a semaphore wait", to_virtual(t, c)) == TIMEOUT) { errno = ETIMEDOUT; return -1; }
    }
    return 0;
}
int sem_trywait(sem_t *s)
{
    sync_point();
    return REAL(sem_trywait)(s);
}
int sem_post(sem_t *s)
{
    if (!on()) return REAL(sem_post)(s);
    int rc = REAL(sem_post)(s);
    int e = errno;
    wake_noalloc_guarded(s);
    sync_point();
    errno = e;
    return rc;
}

int pthread_once(pthread_once_t *o, void (*f)(void))
{
    if (!on()) return REAL(pthread_once)(o, f);
    sync_point();
    while (*(volatile int *)o != 2)
    {
        ++pv::nopreempt;
        int &st = (*g_once)[o];
        --pv::nopreempt;
        if (st == 0)
        {
            st = 1;
            try { f(); }
            catch (...) { st = 0; wake_noalloc_guarded(o); throw; }
            st = 0;     // another one may come to be at this address
            *(volatile int *)o = 2;
            wake_noalloc_guarded(o);
            break;
        }
        block(o, "call_once");
    }
    return 0;
}

int sched_yield(void)
{
    if (!on()) return REAL(sched_yield)();
    yield();
    return 0;
}
static int vsleep(uint64_t until)
{
    cancel_point();
    sync_point();
    // a sleep blocks on nothing but the clock
    static int nobody;
    if (block(&nobody, "a sleep", until, -1, true) == CANCEL) act_on_cancel();
    return 0;
}
int nanosleep(const timespec *t, timespec *rem)
{
    if (!on()) return REAL(nanosleep)(t, rem);
    return vsleep(g_vns + t->tv_sec * 1000000000ull + t->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, const timespec *t, timespec *rem)
{
    if (!on()) return REAL(clock_nanosleep)(c, flags, t, rem);
    return vsleep(flags & TIMER_ABSTIME ? to_virtual(t, c) : g_vns + t->tv_sec * 1000000000ull + t->tv_nsec);
}
int usleep(useconds_t u)
{
    if (!on()) return REAL(usleep)(u);
    return vsleep(g_vns + u * 1000ull);
}
unsigned sleep(unsigned s)
{
    if (!on()) return REAL(sleep)(s);
    vsleep(g_vns + s * 1000000000ull);
    return 0;
}
int clock_gettime(clockid_t c, timespec *t)
{
    if (g_active && t_self && vclock(c)) { vtime(c, t); return 0; }
    long r = sys6(SYS_clock_gettime, c, (long)t);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int gettimeofday(timeval *__restrict v, void *__restrict)
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p)
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}

static int ep_wait(int e, epoll_event *v, int n, int timeout)
{
    uint64_t until = timeout < 0 ? NEVER : g_vns + timeout * 1000000ull;
    cancel_point();
    sync_point();
    for (;;)
    {
        long r = sys6(SYS_epoll_pwait, e, (long)v, n, 0, 0, 8);
        if (r < 0) { errno = (int)-r; return -1; }
        if (r > 0 || timeout == 0) return (int)r;
        if (g_vns >= until) return 0;
        static int nobody;
        if (block(&nobody, "epoll_wait", until, e, true) == CANCEL) act_on_cancel();
    }
}
__attribute__((weak)) int epoll_wait(int e, epoll_event *v, int n, int timeout)
{
    if (!on()) return REAL(epoll_wait)(e, v, n, timeout);
    return ep_wait(e, v, n, timeout);
}
__attribute__((weak)) int epoll_pwait(int e, epoll_event *v, int n, int timeout, const sigset_t *ss)
{
    if (!on()) return REAL(epoll_pwait)(e, v, n, timeout, ss);
    return ep_wait(e, v, n, timeout);
}

long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && on())
    {
        int op = (int)b & 127;
        const timespec *t = (const timespec *)d;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_point();
            if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
            uint64_t until = NEVER;
            if (t) until = op == FUTEX_WAIT ? g_vns + t->tv_sec * 1000000000ull + t->tv_nsec
                                            : to_virtual(t, (int)b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC);
            if (block((const void *)a, "a futex wait", until) == TIMEOUT) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            int n = wake_noalloc_guarded((const void *)a, (int)c);
            sync_point();
            return n;
        }
    }
    long r = sys6(nr, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---- what the compiler calls ------------------------------------------
void __tsan_init() {}
#define ACC(name) void name(void *) { mem_point(); }
ACC(__tsan_read1) ACC(__tsan_read2) ACC(__tsan_read4) ACC(__tsan_read8) ACC(__tsan_read16)
ACC(__tsan_write1) ACC(__tsan_write2) ACC(__tsan_write4) ACC(__tsan_write8) ACC(__tsan_write16)
ACC(__tsan_unaligned_read1) ACC(__tsan_unaligned_read2) ACC(__tsan_unaligned_read4) ACC(__tsan_unaligned_read8) ACC(__tsan_unaligned_read16)
ACC(__tsan_unaligned_write1) ACC(__tsan_unaligned_write2) ACC(__tsan_unaligned_write4) ACC(__tsan_unaligned_write8) ACC(__tsan_unaligned_write16)
ACC(__tsan_read_write1) ACC(__tsan_read_write2) ACC(__tsan_read_write4) ACC(__tsan_read_write8) ACC(__tsan_read_write16)
ACC(__tsan_unaligned_read_write2) ACC(__tsan_unaligned_read_write4) ACC(__tsan_unaligned_read_write8) ACC(__tsan_unaligned_read_write16)
ACC(__tsan_volatile_read1) ACC(__tsan_volatile_read2) ACC(__tsan_volatile_read4) ACC(__tsan_volatile_read8) ACC(__tsan_volatile_read16)
ACC(__tsan_volatile_write1) ACC(__tsan_volatile_write2) ACC(__tsan_volatile_write4) ACC(__tsan_volatile_write8) ACC(__tsan_volatile_write16)
ACC(__tsan_vptr_read)
void __tsan_vptr_update(void **, void *) { mem_point(); }
void __tsan_read_range(void *, size_t) { mem_point(); }
void __tsan_write_range(void *, size_t) { mem_point(); }
void __tsan_func_entry(void *) { mem_point(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { mem_point(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { mem_point(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { mem_point(); return memset(d, c, n); }

#define ATOMIC(bits, T)                                                                                                     \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { sync_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }   \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { sync_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); sync_point(); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { sync_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { sync_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sync_point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sync_point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sync_point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}
}
