// C14: locks and their guards, by generated scripts of several threads.
#include "dsched.h"
#include "cppev/lock.h"
#include <memory>
#include <mutex>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
using namespace pv;
using namespace cppev;

#if !PV_DSCHED
// misuse of a mutex is part of the scripts, it must be refused, not reported
extern "C" const char *__tsan_default_options() { return "report_mutex_bugs=0"; }
#endif

namespace
{
#if PV_DSCHED
typedef ds::Quiet Model;
#endif
enum { SPIN, MUTEX, RW };
struct Hold
{
    int thr, lock;
    bool wr;
    bool sure;      // the call that takes it has returned, the one that drops it was not made
};
struct L
{
    int kind;
    spinlock *sp = nullptr;
    pshared_lock *mx = nullptr;
    pshared_rwlock *rw = nullptr;
    long data = 0, writes = 0;      // guarded by the lock alone
};
struct World
{
    std::vector<L> l;
    std::set<Hold *> holds;
    int n = 1;
    long births = 0;                // of conflicting holds
    int waits = 0, tries_ok = 0, tries_busy = 0, misuse = 0, shared = 0, quiet_tries = 0, moved = 0;
};
World *W;

struct Conf
{
    int sure, maybe;
};
Conf conflicts(int lock, bool wr, std::set<Hold *> *sure = nullptr)
{
    Conf c{0, 0};
    for (auto h : W->holds)
    {
        if (h->lock != lock || !(wr || h->wr)) continue;
        if (h->sure) { ++c.sure; if (sure) sure->insert(h); }
        else ++c.maybe;
    }
    return c;
}
#if PV_DSCHED
Hold *want(int thr, int lock, bool wr)
{
    Model m;
    Hold *h = new Hold{thr, lock, wr, false};
    W->holds.insert(h);
    ++W->births;
    if (conflicts(lock, wr).sure) ++W->waits;
    return h;
}
void unwant(Hold *h)
{
    Model m;
    W->holds.erase(h);
}
// the lock was granted
void got(Hold *h, const char *how)
{
    Model m;
    h->sure = true;
    for (auto o : W->holds)
        if (o != h && o->sure && o->lock == h->lock)
        {
            if (o->wr || h->wr)
                cx().soft_fail("%s of lock %d by thread %d succeeds while thread %d holds it%s", how, h->lock, h->thr, o->thr, W->l[h->lock].kind != RW ? "" : o->wr ? " for writing" : " for reading");
            else ++W->shared;
        }
}
void dropping(Hold *h)
{
    Model m;
    h->sure = false;
}
#else
// no bookkeeping of our own: it would order the threads for the race detector
Hold *want(int, int, bool) { return nullptr; }
void unwant(Hold *) {}
void got(Hold *, const char *) {}
void dropping(Hold *) {}
#endif
void count(int &n) { __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED); }
void critical(int thr, int lock, bool wr, int len)
{
    (void)thr;
    L &l = W->l[lock];
    long d = l.data;
    for (int i = 0; i < len; ++i) ds::point();
    if (l.data != d) cx().soft_fail("what lock %d guards changes under its holder", lock);
    if (wr)
    {
        l.data = d + 1;
        ++l.writes;
    }
}
bool do_try(int lock, bool wr)
{
    L &l = W->l[lock];
    if (l.kind == SPIN) return l.sp->trylock();
    if (l.kind == MUTEX) return l.mx->try_lock();
    return wr ? l.rw->try_wrlock() : l.rw->try_rdlock();
}
void do_lock(int lock, bool wr)
{
    L &l = W->l[lock];
    if (l.kind == SPIN) l.sp->lock();
    else if (l.kind == MUTEX) l.mx->lock();
    else if (wr) l.rw->wrlock();
    else l.rw->rdlock();
}
void do_unlock(int lock)
{
    L &l = W->l[lock];
    if (l.kind == SPIN) l.sp->unlock();
    else if (l.kind == MUTEX) l.mx->unlock();
    else l.rw->unlock();
}

struct Op
{
    int how, lock, wr, len, aux;
    std::vector<Op> inner;
};
void perform(int thr, const std::vector<Op> &ops, int depth = 0);
void inside(int thr, const Op &o, bool wr)
{
    critical(thr, o.lock, wr, o.len);
    if (!o.inner.empty()) perform(thr, o.inner, 1);
}
template <typename G> void with_guard(int thr, const Op &o, bool wr)
{
    L &l = W->l[o.lock];
    Hold *h = want(thr, o.lock, wr);
    switch (o.aux)
    {
    case 0:     // destruction
    {
        G g(*l.rw);
        got(h, "a guard");
        inside(thr, o, wr);
        dropping(h);
        break;
    }
    case 1:     // unlock, and take it again
    {
        G g(*l.rw);
        got(h, "a guard");
        inside(thr, o, wr);
        dropping(h);
        g.unlock();
        unwant(h);
        for (int i = 0; i < o.len; ++i) ds::point();
        h = want(thr, o.lock, wr);
        g.lock();
        got(h, "a guard's lock()");
        inside(thr, o, wr);
        dropping(h);
        break;
    }
    case 2:     // unlock, then destruction must leave it alone
    {
        G g(*l.rw);
        got(h, "a guard");
        inside(thr, o, wr);
        dropping(h);
        g.unlock();
        unwant(h);
        h = nullptr;
        for (int i = 0; i < o.len; ++i) ds::point();
        break;
    }
    case 3:     // moved out of its scope
    {
        std::unique_ptr<G> q;
        {
            G g(*l.rw);
            got(h, "a guard");
            q.reset(new G(std::move(g)));
        }
        count(W->moved);
        inside(thr, o, wr);
        dropping(h);
        q.reset();
        break;
    }
    default:    // assigned over one that had unlocked
    {
        G g(*l.rw);
        got(h, "a guard");
        inside(thr, o, wr);
        dropping(h);
        g.unlock();
        unwant(h);
        h = want(thr, o.lock, wr);
        {
            G k(*l.rw);
            got(h, "a guard");
            g = std::move(k);
        }
        count(W->moved);
        inside(thr, o, wr);
        dropping(h);
        break;
    }
    }
    if (h) unwant(h);
}
void perform(int thr, const std::vector<Op> &ops, int depth)
{
    (void)depth;
    for (auto &o : ops)
    {
        L &l = W->l[o.lock];
        bool wr = l.kind != RW || o.wr;
        switch (o.how)
        {
        case 0:     // plain
        {
            Hold *h = want(thr, o.lock, wr);
            do_lock(o.lock, wr);
            got(h, "lock");
            inside(thr, o, wr);
            dropping(h);
            do_unlock(o.lock);
            unwant(h);
            break;
        }
        case 1:     // try
        case 2:     // try, alone
        {
            Hold *h = nullptr;
            bool ok;
#if !PV_DSCHED
            ok = do_try(o.lock, wr);
#else
            if (o.how == 2)
            {
                Model m;
                Conf c = conflicts(o.lock, wr);
                h = want(thr, o.lock, wr);
                uint64_t sw = ds::switches();
                ok = do_try(o.lock, wr);
                if (ds::switches() != sw) cx().soft_fail("a try operation on lock %d waits", o.lock);
                if (ok && c.sure) cx().soft_fail("a try operation on lock %d succeeds while it is held", o.lock);
                if (!ok && !c.sure && !c.maybe) cx().soft_fail("a try operation on lock %d fails though nobody holds it", o.lock);
                ++W->quiet_tries;
                if (ok) h->sure = true;
                else { W->holds.erase(h); }
            }
            else
            {
                std::set<Hold *> before, after;
                Conf c;
                long b;
                {
                    Model m;
                    c = conflicts(o.lock, wr, &before);
                    h = new Hold{thr, o.lock, wr, false};
                    W->holds.insert(h);
                    ++W->births;
                    b = W->births;
                }
                ok = do_try(o.lock, wr);
                Model m;
                conflicts(o.lock, wr, &after);
                bool all_along = false;
                for (auto x : before) if (after.count(x)) all_along = true;
                if (ok && all_along) cx().soft_fail("a try operation on lock %d succeeds while it is held", o.lock);
                if (!ok && !c.sure && !c.maybe && b == W->births) cx().soft_fail("a try operation on lock %d fails though nobody holds it", o.lock);
                if (!ok) W->holds.erase(h);
            }
#endif
            if (!ok) { count(W->tries_busy); break; }
            count(W->tries_ok);
            got(h, "a try operation");
            inside(thr, o, wr);
            dropping(h);
            do_unlock(o.lock);
            unwant(h);
            break;
        }
        case 3:     // guards
            if (l.kind == RW)
            {
                if (wr) with_guard<wrlockguard>(thr, o, true);
                else with_guard<rdlockguard>(thr, o, false);
            }
            else
            {
                Hold *h = want(thr, o.lock, true);
                if (l.kind == SPIN)
                {
                    std::lock_guard<spinlock> g(*l.sp);
                    got(h, "a guard");
                    inside(thr, o, true);
                    dropping(h);
                }
                else
                {
                    std::unique_lock<pshared_lock> g(*l.mx);
                    got(h, "a guard");
                    inside(thr, o, true);
                    dropping(h);
                    if (o.aux & 1) g.unlock();
                }
                unwant(h);
            }
            break;
        case 4:     // misuse of the process-shared mutex, holding it
        {
            if (l.kind != MUTEX) break;
            Hold *h = want(thr, o.lock, true);
            l.mx->lock();
            got(h, "lock");
            count(W->misuse);
            bool threw = false;
            try { l.mx->lock(); } catch (const std::exception &) { threw = true; }
            if (!threw) cx().soft_fail("locking mutex %d again by its owner is not reported", o.lock);
            bool again = false;
            try { again = l.mx->try_lock(); } catch (const std::exception &) { }
            if (again) cx().soft_fail("a try operation by the owner of mutex %d succeeds", o.lock);
            inside(thr, o, true);
            dropping(h);
            l.mx->unlock();
            unwant(h);
            break;
        }
        default:    // unlocking what one does not own
        {
            if (l.kind != MUTEX) break;
            bool mine = false;
#if !PV_DSCHED
            mine = thr >= 0 && depth > 0;
#else
            {
                Model m;
                for (auto h : W->holds) if (h->lock == o.lock && h->thr == thr) mine = true;
            }
#endif
            if (mine) break;
            count(W->misuse);
            bool threw = false;
            try { l.mx->unlock(); } catch (const std::exception &) { threw = true; }
            if (!threw) cx().soft_fail("unlocking mutex %d by thread %d, which does not own it, is not reported", o.lock, thr);
            break;
        }
        }
    }
}
struct Thr
{
    int id;
    std::vector<Op> ops;
    pthread_t pt;
};
void *entry(void *a)
{
    Thr *t = (Thr *)a;
    try { perform(t->id, t->ops); }
    catch (const std::exception &e) { cx().soft_fail("thread %d: exception: %s", t->id, e.what()); }
    return nullptr;
}
Op mkop(Src &s, int low, int nl, int depth)
{
    Op o;
    o.how = (int)s.weighted({5, 3, 4, 5, 1, 1});
    o.lock = (int)s.range(low, nl - 1);
    o.wr = s.chance(1, 2);
    o.len = (int)s.range(0, 5);
    o.aux = (int)s.range(0, 4);
    if (depth > 0 && o.lock + 1 < nl && o.how != 4 && o.aux != 1 && s.chance(1, 3)) o.inner.push_back(mkop(s, o.lock + 1, nl, depth - 1));
    return o;
}
std::string text(const Op &o)
{
    static const char *N[] = {"lock", "try", "try!", "guard", "relock", "badunlock"};
    std::string r = std::string(N[o.how]) + std::to_string(o.lock) + (o.wr ? "w" : "r");
    if (o.how == 3) r += std::to_string(o.aux);
    if (!o.inner.empty()) r += "(" + text(o.inner[0]) + ")";
    return r;
}

void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    World *w = W = new World();
    int n = w->n = (int)h.weighted({1, 4, 3, 3}) + 1;
    int nl = (int)h.range(1, 4);
    std::vector<Thr> th(n);
    char *mem = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < nl; ++i)
    {
        L l;
        l.kind = (int)h.range(0, 2);
        void *at = mem + i * 512;
        if (l.kind == SPIN) l.sp = new (at) spinlock();
        else if (l.kind == MUTEX) l.mx = new (at) pshared_lock();
        else l.rw = new (at) pshared_rwlock();
        w->l.push_back(l);
        cx().log("%s ", l.kind == SPIN ? "spin" : l.kind == MUTEX ? "mutex" : "rw");
    }
    for (auto &o : c.ops)
    {
        Src s(o);
        int t = (int)s.range(0, n - 1);
        Op p = mkop(s, 0, nl, 2);
        cx().log(" %d:%s", t, text(p).c_str());
        th[t].ops.push_back(p);
    }
    ds::run(cfg, [&]() {
        for (int i = 0; i < n; ++i) th[i].id = i;
        for (int i = 1; i < n; ++i) pthread_create(&th[i].pt, nullptr, entry, &th[i]);
        entry(&th[0]);
        for (int i = 1; i < n; ++i) pthread_join(th[i].pt, nullptr);
        for (int i = 0; i < nl; ++i)
        {
            L &l = w->l[i];
            if (l.data != l.writes) cx().soft_fail("what lock %d guards was changed %ld times, %ld changes are left", i, l.writes, l.data);
            if (!do_try(i, true)) { cx().soft_fail("lock %d is still held when everybody is through", i); continue; }
            if (do_try(i, true)) cx().soft_fail("lock %d is taken twice", i);
            if (l.kind == RW && do_try(i, false)) cx().soft_fail("lock %d is taken for reading while held for writing", i);
            do_unlock(i);
            if (l.kind == RW)
            {
                bool a = do_try(i, false), b = do_try(i, false);
                if (!a || !b) cx().soft_fail("two readers do not share lock %d", i);
                if (do_try(i, true)) cx().soft_fail("lock %d is taken for writing while held for reading", i);
                if (a) do_unlock(i);
                if (a && b && do_try(i, true)) cx().soft_fail("lock %d is taken for writing while a reader is left", i);
                if (b) do_unlock(i);
            }
            if (!do_try(i, true)) cx().soft_fail("lock %d is not free after its last release", i);
            else do_unlock(i);
        }
    });
    if (w->waits) cx().label("had to wait");
    if (w->tries_ok) cx().label("try succeeded");
    if (w->tries_busy) cx().label("try failed");
    if (w->misuse) cx().label("misuse of a mutex");
    if (w->shared) cx().label("readers together");
    if (w->moved) cx().label("guard moved");
    cx().nontrivial(w->waits || w->tries_busy || w->misuse || w->shared || w->moved);
}
Reg r({
#if PV_DSCHED
    "locks", "scripts of up to 4 threads over up to 4 locks, under one generated schedule each; non-trivial when somebody had to wait, was refused, shared, misused a mutex or moved a guard",
#else
    "locks-native", "scripts of up to 4 threads over up to 4 locks, on the system's threads under ThreadSanitizer; non-trivial when somebody had to wait, was refused, shared, misused a mutex or moved a guard",
#endif
    ds::HDR + 6, 22, 0, 16,
#if PV_DSCHED
    50000, 1500000,
#else
    4000, 100000,
#endif
    FORKED, 20, body,
#if PV_DSCHED
    0
#else
    CONCLUSIVE
#endif
    });

#if PV_DSCHED
// ---- guards alone: who holds what after every step ---------------------
struct GW
{
    pshared_rwlock rw[2];
    int readers[2] = {0, 0}, writers[2] = {0, 0};
};
void probe(GW &w, const char *after)
{
    for (int i = 0; i < 2; ++i)
    {
        bool r = w.rw[i].try_rdlock();
        if (r) w.rw[i].unlock();
        bool x = w.rw[i].try_wrlock();
        if (x) w.rw[i].unlock();
        PV_CHECK(r == !w.writers[i], "after %s: lock %d is %s to readers with %d writers and %d readers in guards", after, i, r ? "open" : "closed", w.writers[i], w.readers[i]);
        PV_CHECK(x == (!w.writers[i] && !w.readers[i]), "after %s: lock %d is %s to writers with %d writers and %d readers in guards", after, i, x ? "open" : "closed", w.writers[i], w.readers[i]);
    }
}
template <typename G> struct Slot
{
    std::unique_ptr<G> g;
    int lock = -1;          // -1 refers to none (moved away)
    bool held = false;
};
void guards(const Case &c)
{
    GW w;
    Slot<rdlockguard> rs[3];
    Slot<wrlockguard> ws[2];
    int releases = 0, moves = 0;
    auto go = [&](auto *slots, int n, int *cnt, bool wr, Src &s) {
        typedef typename std::remove_reference<decltype(*slots[0].g)>::type G;
        int act = (int)s.weighted({4, 3, 3, 4, 4, 4}), i = 0, j = 0, k = (int)s.range(0, 1);
        // where that can be done
        std::vector<std::pair<int, int>> at;
        for (int x = 0; x < n; ++x)
            for (int y = 0; y < n; ++y)
            {
                if (act == 4 ? slots[x].g && !slots[y].g : act == 5 ? slots[x].g && slots[y].g : x == y && (act == 0 ? !slots[x].g : act == 3 ? slots[x].g && !slots[x].held && slots[x].lock >= 0 : !!slots[x].g)) at.push_back({x, y});
            }
        if (at.empty()) return;
        auto w0 = s.pick(at);
        i = w0.first;
        j = w0.second;
        auto &a = slots[i];
        auto &b = slots[j];
        auto free_for = [&](int l) { return wr ? !w.readers[l] && !w.writers[l] : !w.writers[l]; };
        auto give = [&](Slot<G> &x) { if (x.held) { --cnt[x.lock]; x.held = false; ++releases; } };
        switch (act)
        {
        case 0:
            if (a.g || !free_for(k)) return;
            cx().log(" %c%d=new(%d)", wr ? 'w' : 'r', i, k);
            a.g.reset(new G(w.rw[k]));
            a.lock = k;
            a.held = true;
            ++cnt[k];
            probe(w, "construction");
            break;
        case 1:
            if (!a.g) return;
            cx().log(" ~%c%d", wr ? 'w' : 'r', i);
            a.g.reset();
            give(a);
            a.lock = -1;
            probe(w, "destruction");
            break;
        case 2:
            if (!a.g) return;
            cx().log(" %c%d.unlock", wr ? 'w' : 'r', i);
            try { a.g->unlock(); } catch (const std::exception &) { PV_CHECK(!a.held, "unlocking a guard that holds its lock fails"); }
            give(a);
            probe(w, "unlock()");
            break;
        case 3:
            if (!a.g || a.lock < 0 || a.held || !free_for(a.lock)) return;
            cx().log(" %c%d.lock", wr ? 'w' : 'r', i);
            a.g->lock();
            a.held = true;
            ++cnt[a.lock];
            probe(w, "lock()");
            break;
        case 4:
            if (!a.g || b.g || i == j) return;
            cx().log(" %c%d=new(move %d)", wr ? 'w' : 'r', j, i);
            b.g.reset(new G(std::move(*a.g)));
            b.lock = a.lock;
            b.held = a.held;
            a.lock = -1;
            a.held = false;
            ++moves;
            probe(w, "a move");
            break;
        case 5:
            if (!a.g || !b.g) return;
            cx().log(" %c%d=move(%d)", wr ? 'w' : 'r', j, i);
            {
                G &src = *a.g;
                *b.g = std::move(src);
            }
            ++moves;
            if (i != j)
            {
                give(b);
                b.lock = a.lock;
                b.held = a.held;
                a.lock = -1;
                a.held = false;
            }
            probe(w, i == j ? "assigning a guard to itself" : "a move assignment");
            break;
        }
    };
    for (auto &o : c.ops)
    {
        Src s(o);
        if (s.chance(2, 5)) go(ws, 2, w.writers, true, s);
        else go(rs, 3, w.readers, false, s);
    }
    for (auto &x : rs) { x.g.reset(); if (x.held) --w.readers[x.lock]; probe(w, "destruction"); }
    for (auto &x : ws) { x.g.reset(); if (x.held) --w.writers[x.lock]; probe(w, "destruction"); }
    if (moves) cx().label("moved");
    cx().nontrivial(releases >= 2 && moves >= 1);
}
Reg r2({"guards", "histories of construction, move, assignment, unlock, lock and destruction of five guards over two locks; non-trivial with two releases and a move",
        0, 4, 0, 40, 40000, 3000000, FORKED, 20, guards});
#endif
}
