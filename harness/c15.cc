// C15: conditions, one-time fences and barriers, by generated scripts.
#include "dsched.h"
#include "cppev/lock.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sys/mman.h>
using namespace pv;
using namespace cppev;

namespace
{
#if PV_DSCHED
typedef ds::Quiet Model;
#define NAME(x) x
#define MODEF 0
#else
// nothing that would order the threads for the race detector
struct Model { ~Model() {} };
#define NAME(x) x "-native"
#define MODEF CONCLUSIVE
#endif
template <typename T> void inc(T &n) { __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED); }
int get(const int &n) { return __atomic_load_n(&n, __ATOMIC_RELAXED); }

void *area()
{
    char *p = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < 8192; ++i) p[i] = 0x5a;
    return p;
}
struct Thr
{
    int id;
    std::vector<Words> ops;
    pthread_t pt;
    void (*fn)(Thr &);
};
void *entry(void *a)
{
    Thr *t = (Thr *)a;
    try { t->fn(*t); }
    catch (const std::exception &e) { cx().soft_fail("thread %d: exception: %s", t->id, e.what()); }
    return nullptr;
}
void points(int n) { for (int i = 0; i < n; ++i) ds::point(); }

// ---- conditions --------------------------------------------------------
struct CW
{
    pshared_lock *lk;
    pshared_cond *level, *token;
    int v = 0, tokens = 0;          // guarded by lk
    int waiting = 0, returned = 0, blocked = 0, taken = 0;
    int goal = 0;
};
CW *C;
struct COp { int kind, k, pts, style; };
COp cop(const Words &w)
{
    Src s(w);
    s.word();
    COp o;
    o.kind = (int)s.weighted({4, 4, 4, 4, 1});
    o.k = (int)s.range(1, 4);
    o.pts = (int)s.range(0, 4);
    o.style = (int)s.range(0, 3);
    return o;
}
void cond_thread(Thr &t)
{
    for (auto &w : t.ops)
    {
        COp o = cop(w);
        points(o.pts);
        std::unique_lock<pshared_lock> lk(*C->lk);
        switch (o.kind)
        {
        case 0:     // wait for a level
        {
            if (C->v < o.k) inc(C->blocked);
            auto pred = [&]() {
                if (!lk.owns_lock()) cx().soft_fail("the predicate is looked at without the lock");
                return C->v >= o.k;
            };
            if (o.style == 0) while (!pred()) C->level->wait(lk);
            else C->level->wait(lk, pred);
            if (C->v < o.k) cx().soft_fail("a wait for %d returned at %d", o.k, C->v);
            if (!lk.owns_lock()) cx().soft_fail("a wait returned without the lock");
            break;
        }
        case 1:     // take a token
        {
            if (C->tokens < 1) inc(C->blocked);
            if (o.style == 0) while (C->tokens < 1) C->token->wait(lk);
            else C->token->wait(lk, [&]() { return C->tokens > 0; });
            if (C->tokens < 1) cx().soft_fail("a wait for a token returned without one");
            --C->tokens;
            ++C->taken;
            break;
        }
        case 2:
            ++C->v;
            if (o.style & 1) C->level->notify_all();
            lk.unlock();
            if (!(o.style & 1)) { points(o.pts); C->level->notify_all(); }
            break;
        case 3:
            if (o.style & 2)
            {
                C->tokens += o.k;
                C->token->notify_all();
                break;
            }
            ++C->tokens;
            if (o.style & 1) C->token->notify_one();
            lk.unlock();
            if (!(o.style & 1)) { points(o.pts); C->token->notify_one(); }
            break;
        default:    // notification for nothing
            C->level->notify_all();
            C->token->notify_one();
        }
    }
}
void conds(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    C = new CW();
    char *mem = (char *)area();
    C->lk = new (mem) pshared_lock();
    C->level = new (mem + 512) pshared_cond();
    C->token = new (mem + 1024) pshared_cond();
    int n = 1 + (int)h.range(1, 5);
    std::vector<Thr> th(n);
    int want = 0;
    for (auto &w : c.ops)
    {
        Src s(w);
        int t = (int)s.range(1, n - 1);
        th[t].ops.push_back(w);
        COp o = cop(w);
        want += o.kind == 1;
        static const char *N[] = {"level", "token", "raise", "give", "noise"};
        cx().log(" %d:%s%d/%d", t, N[o.kind], o.k, o.style);
    }
    bool settle = h.chance(1, 2);
    ds::run(cfg, [&]() {
        for (int i = 1; i < n; ++i)
        {
            th[i].id = i;
            th[i].fn = cond_thread;
            pthread_create(&th[i].pt, nullptr, entry, &th[i]);
        }
        if (settle) ds::settle();
        // enough for everybody, one at a time
        for (int k = 0; k < want; ++k)
        {
            {
                std::unique_lock<pshared_lock> lk(*C->lk);
                ++C->tokens;
            }
            C->token->notify_one();
        }
        {
            std::unique_lock<pshared_lock> lk(*C->lk);
            C->v += 10;
            C->level->notify_all();
        }
        for (int i = 1; i < n; ++i) pthread_join(th[i].pt, nullptr);
        if (C->taken != want) cx().soft_fail("%d tokens taken, %d waits", C->taken, want);
    });
    if (C->blocked) cx().label("had to wait");
    if (C->blocked > 1) cx().label("several waits");
    cx().nontrivial(C->blocked > 0);
}
Reg r1({NAME("condition"), "scripts of up to 5 threads waiting (with and without predicate) and notifying on two conditions; non-trivial when somebody had to wait",
        ds::HDR + 3, 6, 0, 16,
#if PV_DSCHED
        30000, 1000000,
#else
        1500, 40000,
#endif
        FORKED, 20, conds, MODEF});

#if PV_DSCHED
// one waiter for each notify_one, everybody for a notify_all
struct Count
{
    pshared_lock *lk;
    pshared_cond *cv;
    int inside = 0, out = 0;
} *K;
void plain_wait(Thr &)
{
    std::unique_lock<pshared_lock> lk(*K->lk);
    ++K->inside;
    K->cv->wait(lk);
    ++K->out;
}
void counts(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    cfg.spurious_den = 0;
    K = new Count();
    char *mem = (char *)area();
    K->lk = new (mem) pshared_lock();
    K->cv = new (mem + 512) pshared_cond();
    int n = (int)h.range(1, 6);
    std::vector<Thr> th(n);
    std::vector<bool> all;
    cx().log("%d waiters", n);
    for (auto &w : c.ops) { Src s(w); all.push_back(s.chance(1, 4)); cx().log(" %s", all.back() ? "all" : "one"); }
    ds::run(cfg, [&]() {
        for (int i = 0; i < n; ++i)
        {
            th[i].id = i;
            th[i].fn = plain_wait;
            pthread_create(&th[i].pt, nullptr, entry, &th[i]);
        }
        ds::settle();
        PV_CHECK(K->inside == n && K->out == 0, "%d of %d waiters returned without a notification", K->out, n);
        int expect = 0;
        for (bool a : all)
        {
            if (a) K->cv->notify_all(); else K->cv->notify_one();
            ds::settle();
            expect = a ? n : std::min(n, expect + 1);
            if (K->out != expect) cx().soft_fail("after a notify_%s %d of %d waiters have returned instead of %d", a ? "all" : "one", K->out, n, expect);
        }
        K->cv->notify_all();
        for (auto &t : th) pthread_join(t.pt, nullptr);
    });
    cx().nontrivial(n > 1 && all.size() >= 2);
}
Reg r2({"wakes", "up to 6 plain waiters and a sequence of notifications, each given time to act; non-trivial with two waiters and two notifications",
        ds::HDR + 2, 1, 0, 8, 6000, 200000, FORKED, 20, counts});
#endif

// ---- fences ------------------------------------------------------------
struct FW
{
    pshared_one_time_fence *f;
    long data[4] = {0, 0, 0, 0};    // written by the opener only
    int opening = 0, opened = 0;
    int waits = 0, blocked = 0, late = 0;
    int opener = 1;
} *F;
void published(const char *how)
{
    for (int i = 0; i < 4; ++i)
        if (F->data[i] != 1000 + i) { cx().soft_fail("after %s what was written before the opening is not there", how); return; }
}
struct FOp { int kind, pts; };
FOp fop(const Words &w)
{
    Src s(w);
    s.word();
    FOp o;
    o.kind = (int)s.weighted({5, 3, 2});
    o.pts = (int)s.range(0, 6);
    return o;
}
void fence_thread(Thr &t)
{
    bool opener = t.id == F->opener;
    size_t n = 0;
    for (auto &w : t.ops)
    {
        FOp o = fop(w);
        points(o.pts);
        if (opener && o.kind == 0) o.kind = 2;
        switch (o.kind)
        {
        case 0:
            inc(F->waits);
            if (!get(F->opening)) inc(F->blocked);
            if (get(F->opened)) inc(F->late);
            F->f->wait();
            if (!get(F->opening)) cx().soft_fail("a wait on a fence returns before it is opened");
            published("a wait on a fence");
            if (!F->f->ok()) cx().soft_fail("a fence is not open after a wait on it");
            break;
        case 1:
        {
            bool done = get(F->opened), ok = F->f->ok();
            if (ok && !get(F->opening)) cx().soft_fail("a fence says it is open before it is opened");
            if (!ok && done) cx().soft_fail("a fence says it is closed after it was opened");
            if (ok) published("a fence said it is open");
            break;
        }
        case 2:
            if (!opener)
            {
                // opening again is allowed to anybody who saw it open
                if (get(F->opened) && F->f->ok()) F->f->notify();
                break;
            }
            if (n++ == 0)
            {
                for (int i = 0; i < 4; ++i) F->data[i] = 1000 + i;
                __atomic_store_n(&F->opening, 1, __ATOMIC_RELAXED);
            }
            F->f->notify();
            __atomic_store_n(&F->opened, 1, __ATOMIC_RELAXED);
            if (!F->f->ok()) cx().soft_fail("a fence is not open after it was opened");
            break;
        }
    }
    if (opener && n == 0)
    {
        for (int i = 0; i < 4; ++i) F->data[i] = 1000 + i;
        __atomic_store_n(&F->opening, 1, __ATOMIC_RELAXED);
        F->f->notify();
        __atomic_store_n(&F->opened, 1, __ATOMIC_RELAXED);
    }
}
void fences(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    F = new FW();
    F->f = new (area()) pshared_one_time_fence();
    int n = 1 + (int)h.range(1, 6);
    std::vector<Thr> th(n);
    bool settle = h.chance(1, 2);
    F->opener = (int)h.range(1, n - 1);
    for (auto &w : c.ops)
    {
        Src s(w);
        int t = (int)s.range(1, n - 1);
        th[t].ops.push_back(w);
        cx().log(" %d:%s", t, fop(w).kind == 0 ? t == F->opener ? "open" : "wait" : fop(w).kind == 1 ? "ok" : "open");
    }
    ds::run(cfg, [&]() {
        PV_CHECK(!F->f->ok(), "a new fence is open");
        for (int i = 1; i < n; ++i)
        {
            th[i].id = i;
            th[i].fn = fence_thread;
            if (i == F->opener && settle) continue;
            pthread_create(&th[i].pt, nullptr, entry, &th[i]);
        }
        if (settle)
        {
            ds::settle();
            pthread_create(&th[F->opener].pt, nullptr, entry, &th[F->opener]);
        }
        for (int i = 1; i < n; ++i) pthread_join(th[i].pt, nullptr);
        F->f->wait();
    });
    if (F->blocked) cx().label("waited for the opening");
    if (F->blocked > 1) cx().label("several waits before the opening");
    if (F->late) cx().label("wait after the opening");
    cx().nontrivial(F->waits > 1);
}
Reg r3({NAME("fence"), "scripts of up to 6 threads waiting on a fence, asking it, opening it once or more; non-trivial with two waits",
        ds::HDR + 4, 3, 0, 16,
#if PV_DSCHED
        30000, 1000000,
#else
        2500, 60000,
#endif
        FORKED, 20, fences, MODEF});

// ---- barriers ----------------------------------------------------------
struct BW
{
    pshared_barrier *b;
    int n, arrived = 0, passed = 0, errors = 0;
    std::vector<int> pts;
    long data[16] = {};             // each arrival writes its own before
    int arrivals = 0;
} *Bw;
void barrier_thread(Thr &t)
{
    points(Bw->pts[t.id]);
    if (t.id < 16) Bw->data[t.id] = t.id + 1;
    inc(Bw->arrived);
    try { Bw->b->wait(); }
    catch (const std::logic_error &) { inc(Bw->errors); return; }
    int a = get(Bw->arrived);
    inc(Bw->passed);
    if (a < Bw->n) cx().soft_fail("a barrier of %d lets a waiter through after %d arrivals", Bw->n, a);
    if (Bw->arrivals == Bw->n)
        for (int i = 0; i < Bw->n && i < 16; ++i) if (Bw->data[i] != i + 1) cx().soft_fail("what an arrival wrote before is not there behind the barrier");
}
void barriers(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    Bw = new BW();
    int n = Bw->n = (int)h.range(1, 6), extra = h.chance(1, 2) ? (int)h.range(1, 4) : 0;
    Bw->b = new (area()) pshared_barrier(n);
    int total = Bw->arrivals = n + extra;
    bool hold = h.chance(1, 3);     // n - 1 of them first, for a while
    int late = hold ? n - 1 : total;
    std::vector<Thr> th(total);
    for (int i = 0; i < total; ++i)
    {
        Words w = i < (int)c.ops.size() ? c.ops[i] : Words{0};
        Src s(w);
        Bw->pts.push_back((int)s.range(0, 12));
        th[i].id = i;
        th[i].fn = barrier_thread;
    }
    cx().log("barrier of %d, %d arrivals%s", n, total, hold ? ", the last ones late" : "");
    for (int p : Bw->pts) cx().log(" %d", p);
    ds::run(cfg, [&]() {
        for (int i = 0; i < total; ++i)
        {
            if (i == late)
            {
                ds::settle();
                if (get(Bw->passed) || get(Bw->errors)) cx().soft_fail("a barrier of %d lets %d through and refuses %d of %d", n, Bw->passed, Bw->errors, i);
            }
            pthread_create(&th[i].pt, nullptr, entry, &th[i]);
        }
        for (auto &t : th) pthread_join(t.pt, nullptr);
        if (Bw->passed != n || Bw->errors != extra) cx().soft_fail("of %d arrivals at a barrier of %d %d passed and %d got an error", total, n, Bw->passed, Bw->errors);
        bool threw = false;
        try { Bw->b->wait(); } catch (const std::logic_error &) { threw = true; }
        if (!threw) cx().soft_fail("a late arrival at a used barrier gets no error");
    });
    if (extra) cx().label("surplus arrivals");
    if (hold) cx().label("all but one wait");
    cx().nontrivial(n > 1);
}
Reg r4({NAME("barrier"), "a barrier of up to 6 and up to 4 surplus arrivals at generated moments; non-trivial for two or more",
        ds::HDR + 5, 1, 0, 10,
#if PV_DSCHED
        30000, 1000000,
#else
        2500, 60000,
#endif
        FORKED, 20, barriers, MODEF});
}
