// C12: thread objects and plain pools: run, wait, cancel, signal, join.
#include "dsched.h"
#include "cppev/runnable.h"
#include "cppev/thread_pool.h"
#include <atomic>
#include <csignal>
#include <memory>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
#if PV_DSCHED
typedef ds::Quiet Model;
const uint64_t MS = 1000000;
#else
pthread_mutex_t g_model = PTHREAD_MUTEX_INITIALIZER;
struct Model
{
    Model() { int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); old = o; pthread_mutex_lock(&g_model); }
    ~Model() { pthread_mutex_unlock(&g_model); pthread_setcancelstate(old, nullptr); }
    int old;
};
const uint64_t MS = 10000;      // a hundredth, to keep real runs short
#endif
#if PV_DSCHED
const int MAXT = 6;
#else
const int MAXT = 48;
#endif

struct Th
{
    std::vector<int> script;        // >0 sleep ms; 0 point; -1 gate; -2 testcancel
    int started = 0, ended = 0, unwound = 0;
    int tid = 0;
    pthread_t pt;
    uint64_t end_at = 0;
    bool runs = false, cancelled = false, joined = false, detached = false;
    size_t entered = 0;             // script steps whose cancellation point may be behind
    bool must_not_end = false;
};
struct World
{
    Th th[MAXT];
    int n = 1;
    bool gate = false;
    pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t gc = PTHREAD_COND_INITIALIZER;
    int alive = 0, made = 0;
    int nextid = 0;
};
World *W;
volatile int sig_tid = 0, sig_count = 0;
void on_sig(int)
{
    sig_tid = (int)syscall(SYS_gettid);
    __atomic_fetch_add(&sig_count, 1, __ATOMIC_SEQ_CST);
}
void unlock_gate(void *) { pthread_mutex_unlock(&W->gm); }

void perform(int i)
{
    Th &t = W->th[i];
    struct Leave
    {
        int i;
        ~Leave() { Model m; ++W->th[i].unwound; }
    } leave{i};
    {
        Model m;
        ++t.started;
        t.tid = (int)syscall(SYS_gettid);
        t.pt = pthread_self();
        if (t.started > 1) cx().soft_fail("the body of thread %d runs twice", i);
        if (!t.runs) cx().soft_fail("the body of thread %d runs though it was not asked to", i);
        if (t.tid == getpid()) cx().soft_fail("the body of thread %d does not run on a new thread", i);
        for (int k = 0; k < W->n; ++k)
            if (k != i && W->th[k].started && !W->th[k].unwound && W->th[k].tid == t.tid) cx().soft_fail("threads %d and %d share a thread", i, k);
    }
    for (size_t k = 0; k < t.script.size(); ++k)
    {
        int s = t.script[k];
        if (s > 0)
        {
            uint64_t ns = s * MS;
            timespec ts{(time_t)(ns / 1000000000), (long)(ns % 1000000000)};
            while (nanosleep(&ts, &ts) != 0 && errno == EINTR) { }
        }
        else if (s == 0) ds::point();
        else if (s == -1)
        {
            pthread_mutex_lock(&W->gm);
            pthread_cleanup_push(unlock_gate, nullptr);
            while (!W->gate) pthread_cond_wait(&W->gc, &W->gm);
            pthread_cleanup_pop(1);
        }
        if (s != 0)
        {
            {
                Model m;
                t.entered = k + 1;
            }
            pthread_testcancel();
        }
    }
    Model m;
    ++t.ended;
    t.end_at = ds::vnow();
}

struct Plain : runnable
{
    int i;
    explicit Plain(int i_) : i(i_) {}
    void run_impl() override { perform(i); }
};
struct Count
{
    Count() { Model m; ++W->alive; ++W->made; }
    ~Count() { Model m; --W->alive; }
};
// every category of argument
struct Arged : runnable, Count
{
    int i;
    std::string a, b;
    const std::string *ref;
    int num;
    std::shared_ptr<int> sp;
    std::vector<std::string> v;
    Arged(std::string a_, std::string &&b_, const std::string &c_, int n_, std::shared_ptr<int> sp_, std::vector<std::string> &&v_)
    : i(W->nextid++), a(std::move(a_)), b(std::move(b_)), ref(&c_), num(n_), sp(std::move(sp_)), v(std::move(v_)) {}
    void run_impl() override { perform(i); }
};
struct Lref : runnable, Count
{
    int i;
    std::string *s;
    const char *p;
    Lref(std::string &s_, const char *p_) : i(W->nextid++), s(&s_), p(p_) {}
    void run_impl() override { perform(i); }
};
struct Once : runnable, Count
{
    int i;
    std::unique_ptr<int> p;
    explicit Once(std::unique_ptr<int> p_) : i(W->nextid++), p(std::move(p_)) {}
    void run_impl() override { perform(i); }
};
struct None : runnable, Count
{
    int i;
    None() : i(W->nextid++) {}
    void run_impl() override { perform(i); }
};

struct Stats { int waits_true = 0, waits_false = 0, cancels = 0, signals = 0, during = 0, detached = 0, refused = 0; } S;

// called with the model held after a cancellation was sent
void note_cancel(Th &t)
{
    for (size_t k = t.entered; k < t.script.size(); ++k) if (t.script[k] != 0) t.must_not_end = true;
}

// one operation on thread i through its object
template <typename R> void operate(R &r, int i, int kind, Src &s)
{
    Th &t = W->th[i];
    bool started_running = t.runs && !t.joined;
    switch (kind)
    {
    case 0:
        if (t.runs) return;
        {
            Model m;
            t.runs = true;
        }
        r.run();
        break;
    case 1:
    {
        // timed wait
        static const int SP[] = {0, 1, 3, 10, 40, 2000};
        int span = SP[s.range(0, 5)];
        uint64_t ns = span * MS;
        if (!t.runs && span > 40) return;
#if !PV_DSCHED
        bool stuck = false;
        for (int x : t.script) if (x == -1 && !W->gate) stuck = true;
        if (span > 40 && (stuck || t.cancelled)) return;
        if (span > 40) ns = 10000000000ull;
#endif
        bool ended_before;
        uint64_t e0;
        {
            Model m;
            ended_before = t.ended;
            e0 = t.end_at;
        }
        uint64_t t0 = ds::vnow();
        bool ok = span % 2 ? r.wait_for(std::chrono::nanoseconds(ns)) : r.wait_for(std::chrono::duration<double>(ns / 1e9));
        uint64_t t1 = ds::vnow();
        Model m;
        if (ok) ++S.waits_true; else ++S.waits_false;
        if (ok && !ended_before) ++S.during;
        if (ok && !t.ended) cx().soft_fail("a wait of %d ms answers true but thread %d has not finished", span, i);
        if (!ok && t1 - t0 + 2000 < ns) cx().soft_fail("a wait of %llu ns answers false after %llu ns", (unsigned long long)ns, (unsigned long long)(t1 - t0));
#if PV_DSCHED
        if (!ok && t.ended && t.end_at + 5 * 1000000ull < t0 + ns) cx().soft_fail("a wait of %d ms answers false though thread %d finished %.3f ms before its end", span, i, (t0 + ns - t.end_at) / 1e6);
        if (ok && t1 > t0 + ns + 5 * 1000000ull) cx().soft_fail("a wait of %d ms took %.3f ms", span, (t1 - t0) / 1e6);
        if (ok && t.end_at + 5 * 1000000ull < t1 && !ended_before) cx().soft_fail("a wait noticed the end of thread %d only %.3f ms later", i, (t1 - t.end_at) / 1e6);
#else
        if (!ok && ended_before && span > 40) cx().soft_fail("a long wait answers false though thread %d had finished before", i);
#endif
        (void)e0;
        break;
    }
    case 2:
        if (!started_running || t.cancelled || t.detached) return;
        ++S.cancels;
        {
            Model m;
            t.cancelled = true;
        }
        if (!r.cancel()) cx().soft_fail("cancelling thread %d, not yet joined, reports failure", i);
        {
            Model m;
            note_cancel(t);
        }
        break;
    case 3:
    {
        if (!started_running || t.detached) return;
        {
            Model m;
            if (!t.started || t.unwound) return;
#if !PV_DSCHED
            // it must not end meanwhile
            bool holds = false;
            for (int x : t.script) if (x == -1 && !W->gate) holds = true;
            if (!holds || t.cancelled) return;
#endif
        }
        Model m;
        int before = sig_count;
        int sig = s.chance(1, 2) ? SIGUSR1 : SIGRTMIN + 3;
        r.send_signal(sig);
        double until = now() + 10;
        while (__atomic_load_n(&sig_count, __ATOMIC_SEQ_CST) == before && now() < until) syscall(SYS_sched_yield);
        ++S.signals;
        if (sig_count == before) cx().soft_fail("a signal sent to thread %d was not delivered", i);
        else if (sig_count != before + 1) cx().soft_fail("a signal sent once was delivered %d times", sig_count - before);
        else if (sig_tid != t.tid) cx().soft_fail("a signal sent to thread %d was delivered to another thread", i);
        break;
    }
    }
}
void after_join(int i)
{
    Model m;
    Th &t = W->th[i];
    t.joined = true;
    if (!t.started && !t.cancelled) cx().soft_fail("join returned before the body of thread %d began", i);
    if (t.started && !t.unwound) cx().soft_fail("join returned while the body of thread %d runs", i);
    if (t.ended && t.must_not_end) cx().soft_fail("thread %d finished its body past a cancellation point that followed its cancellation", i);
    if (!t.ended && !t.cancelled) cx().soft_fail("thread %d, never cancelled, did not finish its body", i);
}
void open_gate()
{
    pthread_mutex_lock(&W->gm);
    W->gate = true;
    pthread_cond_broadcast(&W->gc);
    pthread_mutex_unlock(&W->gm);
}
struct Op
{
    int kind, who;
    Words w;
};
enum { RUN, WAIT, CANCEL, SIGNAL, JOIN, GATE, SETTLE, POINTS, SLEEP, ALLRUN, ALLCANCEL, ALLJOIN, DETACH, REFUSED };
#if !PV_DSCHED
// While it lives the system creates no thread: the stack does not fit into the address space.
struct NoThreads
{
    pthread_attr_t a;
    size_t old = 0;
    NoThreads()
    {
        pthread_attr_init(&a);
        pthread_getattr_default_np(&a);
        pthread_attr_getstacksize(&a, &old);
        pthread_attr_setstacksize(&a, 1ul << 47);
        pthread_setattr_default_np(&a);
    }
    ~NoThreads()
    {
        pthread_attr_setstacksize(&a, old);
        pthread_setattr_default_np(&a);
        pthread_attr_destroy(&a);
    }
};
#endif

template <typename Get, typename All>
void play(const std::vector<Op> &ops, Get get, All all, bool pool)
{
    World &w = *W;
    auto stuck = [&](int i) {
        Th &t = w.th[i];
        if (w.gate || t.cancelled) return false;
        for (int x : t.script) if (x == -1) return true;
        return false;
    };
    for (auto &o : ops)
    {
        Src s(o.w);
        int i = o.who % w.n;
        Th &t = w.th[i];
        switch (o.kind)
        {
        case RUN: case WAIT: case CANCEL: case SIGNAL:
            if (pool && o.kind == RUN) { if (s.chance(1, 2)) break; bool any = false; for (int k = 0; k < w.n; ++k) any |= w.th[k].runs; if (!any) { { Model m; for (int k = 0; k < w.n; ++k) w.th[k].runs = true; } all(0); } break; }
            operate(get(i), i, o.kind, s);
            break;
        case JOIN:
            if (pool || !t.runs || t.joined || t.detached || stuck(i)) break;
            get(i).join();
            after_join(i);
            break;
        case DETACH:
            if (pool || !t.runs || t.joined || t.detached || t.cancelled) break;
            t.detached = true;
            ++S.detached;
            get(i).detach();
            break;
        case REFUSED:
#if !PV_DSCHED
        {
            bool any = false;
            for (int k = 0; k < w.n; ++k) any |= pool ? w.th[k].runs : k == i && t.runs;
            if (any) break;
            bool threw = false;
            {
                NoThreads no;
                try
                {
                    if (pool) all(0);
                    else get(i).run();
                }
                catch (const std::exception &) { threw = true; }
            }
            if (!threw) cx().soft_fail("run reports no error though no thread could be created");
            ++S.refused;
        }
#endif
            break;
        case GATE: open_gate(); break;
        case SETTLE: ds::settle(); break;
        case POINTS: for (int k = 0; k < 5; ++k) ds::point(); break;
        case SLEEP:
        {
            timespec ts{0, (long)(s.range(1, 20) * MS)};
            nanosleep(&ts, nullptr);
            break;
        }
        case ALLCANCEL:
            if (!pool || !w.th[0].runs) break;
            {
                Model m;
                for (int k = 0; k < w.n; ++k) w.th[k].cancelled = true;
            }
            ++S.cancels;
            all(1);
            {
                Model m;
                for (int k = 0; k < w.n; ++k) note_cancel(w.th[k]);
            }
            break;
        default: break;
        }
    }
    // whoever was cancelled comes down by itself
    bool everyone = true;
    for (int k = 0; k < w.n; ++k) everyone = everyone && (!w.th[k].runs || w.th[k].cancelled);
    if (!everyone || (pool && !w.th[0].runs)) open_gate();
    if (pool)
    {
        if (!w.th[0].runs) { { Model m; for (int k = 0; k < w.n; ++k) w.th[k].runs = true; } all(0); }
        all(2);
        for (int k = 0; k < w.n; ++k) after_join(k);
    }
    else
        for (int k = 0; k < w.n; ++k)
        {
            if (!w.th[k].runs || w.th[k].joined) continue;
            if (!w.th[k].detached)
            {
                get(k).join();
                after_join(k);
                continue;
            }
            // left alone it finishes all the same
            if (!get(k).wait_for(std::chrono::seconds(20))) cx().soft_fail("thread %d, detached, does not finish its body", k);
            Model m;
            if (w.th[k].ended != 1) cx().soft_fail("thread %d, detached, ended its body %d times", k, w.th[k].ended);
        }
    // what was sent to one must not have touched another
    for (int k = 0; k < w.n; ++k)
    {
        Model m;
        if (w.th[k].runs && !w.th[k].cancelled && w.th[k].ended != 1) cx().soft_fail("thread %d ended its body %d times", k, w.th[k].ended);
    }
    if (S.waits_true) cx().label("wait true");
    if (S.during) cx().label("finished during a wait");
    if (S.waits_false) cx().label("wait false");
    if (S.cancels) cx().label("cancel");
    if (S.signals) cx().label("signal");
    if (S.detached) cx().label("detached");
    if (S.refused) cx().label("creation refused");
    bool cut = false;
    for (int k = 0; k < w.n; ++k) cut |= w.th[k].cancelled && w.th[k].started && !w.th[k].ended;
    if (cut) cx().label("cancelled in its body");
}
template <typename P> void play_pool(P &p, const std::vector<Op> &ops, int n)
{
    PV_CHECK(p.size() == n, "a pool asked for %d objects has %d", n, p.size());
    PV_CHECK(W->alive == n, "a pool asked for %d objects keeps %d", n, W->alive);
    PV_CHECK(W->made == n, "a pool asked for %d objects made %d", n, W->made);
    const P &cp = p;
    for (int i = 0; i < n; ++i)
    {
        PV_CHECK(&cp[i] == &p[i], "the two element accesses differ");
        for (int k = 0; k < i; ++k) PV_CHECK(&p[i] != &p[k], "elements %d and %d are one object", i, k);
    }
    // whatever the order they are kept in, bodies are numbered by object
    play(ops, [&](int i) -> runnable & { for (int k = 0; k < n; ++k) if (p[k].i == i) return p[k]; return p[0]; },
         [&](int what) { if (what == 0) p.run(); else if (what == 1) p.cancel(); else p.join(); }, true);
}

void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    World *w = W = new World();
    int shape = (int)h.weighted({6, 2, 1, 1, 1});   // separate, pool with arguments, lvalues, single move-only, none
    int n = w->n = shape == 3 ? 1 : (int)h.range(1, shape ? 6 : 4);
#if !PV_DSCHED
    if (shape != 3 && h.chance(1, 12)) n = w->n = (int)h.range(7, MAXT);
#endif

    std::string val = bytes(h.word(), h.range(0, 60), Alpha::text), val2 = bytes(h.word(), h.range(0, 60));
    int num = (int)h.word();
    bool moved = h.chance(1, 2), lv = h.chance(1, 3);
    int vn = (int)h.range(0, 4);
    for (int i = 0; i < n; ++i)
    {
        uint64_t sd = h.word();
        int len = (int)h.range(0, 5);
        for (int k = 0; k < len; ++k)
        {
            uint64_t r = splitmix(sd);
            switch (r % 7)
            {
            case 0: case 1: w->th[i].script.push_back(1 + (r >> 8) % 60); break;
            case 2: w->th[i].script.push_back(-1); break;
            case 3: w->th[i].script.push_back(-2); break;
            default: w->th[i].script.push_back(0);
            }
        }
    }
    std::vector<Op> ops;
    static const char *NM[] = {"run", "wait", "cancel", "signal", "join", "gate", "settle", "points", "sleep", "", "cancelall", "", "detach", "refused"};
    cx().log("%s x%d%s%s;", shape == 0 ? "threads" : shape == 1 ? "pool(args)" : shape == 2 ? "pool(lvalues)" : shape == 3 ? "pool(unique)" : "pool()", n, moved ? " moved" : "", lv ? " lv" : "");
    for (int i = 0; i < n; ++i)
    {
        std::string d;
        for (int x : w->th[i].script) d += x > 0 ? " " + std::to_string(x) + "ms" : x == 0 ? " ." : x == -1 ? " gate" : " test";
        cx().log(" [%s]", d.c_str());
    }
    for (auto &o : c.ops)
    {
        Src s(o);
        static const int K[] = {RUN, WAIT, CANCEL, SIGNAL, JOIN, GATE, SETTLE, POINTS, SLEEP, ALLCANCEL, DETACH, REFUSED};
        int k = K[s.weighted({8, 6, 2, 2, 2, 1, 2, 2, 2, 2, 1, 1})];
        int who = (int)s.range(0, MAXT - 1);
        Words rest(o.begin() + std::min<size_t>(o.size(), 2), o.end());
        ops.push_back({k, who, rest});
        cx().log(" %s%d", NM[k], who % n);
    }
    struct sigaction sa{};
    sa.sa_handler = on_sig;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &sa, nullptr);
    sigaction(SIGRTMIN + 3, &sa, nullptr);
    ds::run(cfg, [&]() {
        if (shape == 0)
        {
            std::vector<std::unique_ptr<Plain>> v;
            for (int i = 0; i < n; ++i) v.emplace_back(new Plain(i));
            play(ops, [&](int i) -> runnable & { return *v[i]; }, [](int) {}, false);
        }
        else if (shape == 1)
        {
            std::shared_ptr<int> sp = std::make_shared<int>(num);
            std::vector<std::string> vec;
            for (int i = 0; i < vn; ++i) vec.push_back(val + std::to_string(i));
            const std::string c2 = val2;
            std::string a = val, b = val2;
            auto check = [&](auto &p) {
                for (int i = 0; i < p.size(); ++i)
                {
                    auto &r = p[i];
                    if (r.a != val) cx().fail("object %d of the pool got \"%s\" instead of \"%s\"", i, show(r.a).c_str(), show(val).c_str());
                    if (r.b != val2) cx().fail("object %d of the pool got \"%s\" instead of \"%s\"", i, show(r.b).c_str(), show(val2).c_str());
                    if (*r.ref != c2 || r.num != num) cx().fail("object %d of the pool got another argument", i);
                    if (r.sp != sp) cx().fail("object %d of the pool got another pointer", i);
                    if (r.v != vec) cx().fail("object %d of the pool got %zu elements instead of %zu", i, r.v.size(), vec.size());
                }
            };
            if (lv)
            {
                typedef thread_pool<Arged, const std::string &, std::string, const std::string &, int &, std::shared_ptr<int> &, std::vector<std::string>> P;
                int nn = num;
                P p(n, a, std::string(b), c2, nn, sp, std::vector<std::string>(vec));
                check(p);
                PV_CHECK(a == val, "a constant argument was changed");
                if (moved) { P q(std::move(p)); play_pool(q, ops, n); check(q); }
                else play_pool(p, ops, n);
            }
            else
            {
                typedef thread_pool<Arged, std::string, std::string, const std::string &, int, std::shared_ptr<int>, std::vector<std::string>> P;
                P p(n, std::string(a), std::string(b), c2, int(num), std::shared_ptr<int>(sp), std::vector<std::string>(vec));
                check(p);
                if (moved) { P q(std::move(p)); play_pool(q, ops, n); check(q); }
                else { play_pool(p, ops, n); check(p); }
            }
        }
        else if (shape == 2)
        {
            std::string a = val;
            thread_pool<Lref, std::string &, const char *> p(n, a, val2.c_str());
            for (int i = 0; i < n; ++i) PV_CHECK(p[i].s == &a && p[i].p == val2.c_str() && a == val, "object %d of the pool does not refer to the given argument", i);
            play_pool(p, ops, n);
        }
        else if (shape == 3)
        {
            thread_pool<Once, std::unique_ptr<int>> p(1, std::unique_ptr<int>(new int(num)));
            PV_CHECK(p[0].p && *p[0].p == num, "the object of the pool did not get its argument");
            play_pool(p, ops, 1);
        }
        else
        {
            thread_pool<None> p(n);
            play_pool(p, ops, n);
        }
        PV_CHECK(W->alive == 0, "%d objects are left of a destroyed pool", W->alive);
    });
    int ran = 0;
    for (int i = 0; i < n; ++i) ran += w->th[i].started;
    cx().label(shape == 0 ? "separate threads" : "pool");
    cx().nontrivial(ran >= 1 && c.ops.size() >= 3);
}
Reg r({
#if PV_DSCHED
    "threads",
    "scripts of run, timed wait, cancel, signal, detach, join on up to 4 threads or a pool of up to 6, under one generated schedule each in virtual time; non-trivial when a body ran and at least three operations were made",
#else
    "threads-native",
    "scripts of run, timed wait, cancel, signal, detach, join, refused creation on up to 48 threads or a pool of as many, on the system's threads; non-trivial when a body ran and at least three operations were made",
#endif
    ds::HDR + 30, 6, 0, 16,
#if PV_DSCHED
    40000, 1500000,
#else
    6000, 150000,
#endif
    FORKED, 30, body,
#if PV_DSCHED
    0
#else
    CONCLUSIVE
#endif
    });
}
