// C06: one event loop iteration at a time against a model of who is due.
#include "engine.h"
#include "net.h"
#include "cppev/event_loop.h"
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <sys/syscall.h>
using namespace pv;
using namespace cppev;

namespace
{
int interrupt_next = 0;
int interrupted = 0;
}
extern "C" int epoll_wait(int e, epoll_event *v, int n, int t)
{
    if (interrupt_next > 0)
    {
        --interrupt_next;
        ++interrupted;
        errno = EINTR;
        return -1;
    }
    return (int)syscall(SYS_epoll_pwait, e, v, n, t, nullptr, 8);
}

namespace
{
const int N = 7;
struct Obj
{
    std::shared_ptr<nstream> s;
    int peer = -1;          // raw descriptor of the other end
    bool rd = false, wr = false;
    int loop = -1;          // where it is active, -1 none
    int act = 0;            // active events
    uint64_t gen = 0;       // life of the object
    int fd = -1;
};
struct Ent
{
    int id, obj;
    uint64_t gen;
    int loop, ev, prio;
    bool live = true;
    bool fresh = false;     // registered during this iteration
    bool maybe = false, must = false;
    bool blurred = false;   // deactivated meanwhile: either is fine
    int calls = 0;
    std::vector<Words> script;
    bool released = false;  // what the handler holds
};
struct World;
struct Held
{
    World *w;
    Ent *e;
    Held(World *a, Ent *b) : w(a), e(b) {}
    Held(const Held &) = delete;
    ~Held();
};
struct Boom
{
    int id;
};
const priority PRIOS[] = {p0, p1, p2, p3, p4, p5, p6};

struct World
{
    event_loop *loops[2] = {nullptr, nullptr};
    Obj o[N];
    std::vector<std::unique_ptr<Ent>> ents;
    uint64_t gens = 1;
    int running = -1;       // loop inside an iteration
    int lastprio = 1000;
    bool finished = false;
    bool thrown = false;    // a handler threw in this iteration
    // statistics
    int throws = 0;
    int calls = 0, removed_due = 0, hup = 0, inner = 0, multi = 0, reuse = 0;

    int load(int l)
    {
        int n = 0;
        for (auto &e : ents) if (e->live && e->loop == l) ++n;
        return n;
    }
    void loads(const char *after)
    {
        for (int l = 0; l < 2; ++l)
            PV_CHECK(loops[l]->ev_loads() == load(l), "after %s the loop reports a load of %d, %d handlers are registered", after, loops[l]->ev_loads(), load(l));
    }
    void forget(int k)
    {
        for (auto &e : ents)
            if (e->live && e->obj == k && e->gen == o[k].gen)
            {
                e->live = false;
                if (running >= 0 && (e->must || e->maybe) && !e->calls) ++removed_due;
            }
    }
    void create(int k, size_t kind)
    {
        Obj &x = o[k];
        int p[2];
        if (kind <= 1)
        {
            PV_CHECK(pipe(p) == 0, "pipe");
            int mine = kind == 0 ? 0 : 1;
            x.s = std::make_shared<nstream>(p[mine]);
            x.peer = p[1 - mine];
            x.rd = kind == 0;
            x.wr = kind == 1;
        }
        else
        {
            PV_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair");
            if (kind == 2) x.s = std::make_shared<nsocktcp>(p[0], family::local);
            else x.s = std::make_shared<nstream>(p[0]);
            x.peer = p[1];
            x.rd = x.wr = true;
            int small = 4608;
            setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
        }
        fcntl(x.peer, F_SETFL, O_NONBLOCK);
        if (x.fd == x.s->fd()) ++reuse;
        x.fd = x.s->fd();
        x.gen = gens++;
        x.loop = -1;
        x.act = 0;
    }
    void drop(int k)
    {
        Obj &x = o[k];
        if (!x.s) return;
        std::weak_ptr<nstream> w = x.s;
        if (x.peer >= 0) ::close(x.peer);
        x.peer = -1;
        x.s.reset();
        // outside an iteration nobody else may hold it
        if (running < 0) PV_CHECK(w.expired(), "a removed object is still held by the event loop");
        else if (auto s = w.lock()) s->close();
        x.loop = -1;
        x.act = 0;
    }
    void call(Ent *e, const std::shared_ptr<nio> &iop)
    {
        if (finished) return;
        if (thrown && running >= 0) cx().soft_fail("handler %d is called although an earlier one threw", e->id);
        ++calls;
        if (running < 0) { cx().soft_fail("a handler ran outside an iteration"); return; }
        cx().log("[h%d] ", e->id);
        if (e->loop != running) cx().soft_fail("a handler of another loop ran");
        if (!e->live) { cx().soft_fail("handler %d was removed and is called", e->id); return; }
        if (e->calls++) cx().soft_fail("handler %d is called %d times in one iteration", e->id, e->calls);
        if (!e->fresh && !e->must && !e->maybe) cx().soft_fail("handler %d is called, but its descriptor is not ready for it", e->id);
        if (!e->fresh)
        {
            if (e->prio > lastprio) cx().soft_fail("handler %d of priority %d is called after one of priority %d", e->id, e->prio, lastprio);
            lastprio = e->prio;
        }
        Obj &x = o[e->obj];
        if (iop.get() != static_cast<nio *>(x.s.get())) cx().soft_fail("handler %d gets another object than the registered one", e->id);
        else if (&iop->evlp() != loops[e->loop]) cx().soft_fail("the object's event loop is wrong");
        auto script = e->script;     // the entry may go away
        for (auto &w : script)
        {
            Src r(w);
            ++inner;
            act(r, e->loop);
            if (w.back() % 12 == 5)
            {
                cx().log("throws ");
                thrown = true;
                ++throws;
                throw Boom{e->id};
            }
        }
    }
    void reg(int k, int l, int ev, bool activate, bool handler, priority p, std::vector<Words> script)
    {
        Obj &x = o[k];
        std::shared_ptr<nio> iop = x.s;
        Ent *e = nullptr;
        if (handler)
        {
            ents.emplace_back(new Ent());
            e = ents.back().get();
            e->id = (int)ents.size();
            e->obj = k;
            e->gen = x.gen;
            e->loop = l;
            e->ev = ev;
            e->prio = p;
            e->script = script;
            e->fresh = running >= 0;
        }
        fd_event_handler h;
        if (handler)
        {
            auto held = std::make_shared<Held>(this, e);
            h = [held](const std::shared_ptr<nio> &i) { held->w->call(held->e, i); };
        }
        loops[l]->fd_register(iop, static_cast<fd_event>(ev), h, activate, p);
        if (activate) { x.loop = l; x.act = ev; }
        PV_CHECK(&x.s->evlp() == loops[l], "registering does not set the object's event loop");
    }
    // the handler is gone, which may have happened amid a removal: the loop can be used
    std::shared_ptr<nstream> spare[2];
    int releases = 0;
    void gone(Ent *e)
    {
        if (e->released) cx().soft_fail("handler %d is destroyed twice", e->id);
        e->released = true;
        if (finished) return;
        ++releases;
        if (e->calls == 0 && running >= 0 && e->live && e->must) cx().soft_fail("handler %d, which is due, is destroyed", e->id);
        for (int l = 0; l < 2; ++l)
        {
            int n = loops[l]->ev_loads();
            if (n < 0 || n > (int)ents.size()) cx().soft_fail("a load of %d", n);
            if (!spare[l]) continue;
            loops[l]->fd_register(spare[l], fd_event::fd_readable, [](const std::shared_ptr<nio> &) { cx().soft_fail("a handler is called that was removed"); });
            loops[l]->fd_remove(spare[l]);
        }
    }
    // an action by the program or by a handler; l is the loop it prefers
    void act(Src &r, int l)
    {
        size_t op = running < 0 ? r.weighted({16, 1, 1, 1, 6, 2, 2, 1, 1}) : r.weighted({3, 4, 2, 2, 2, 1, 1, 3, 2});
        int k = (int)r.range(0, N - 1);
        if (op) for (int t = 0; t < N && !o[k].s; ++t) k = (k + 1) % N;
        Obj &x = o[k];
        auto owner = [&] {   // where handlers of this object sit
            for (auto &e : ents) if (e->live && e->obj == k && e->gen == x.gen) return e->loop;
            return x.loop;
        };
        switch (op)
        {
        case 0:
        {
            if (!x.s) create(k, r.range(0, 3));
            int ow = owner();
            if (ow >= 0) l = ow;
            int ev = (int)r.weighted({4, 3, 2}) + 1;
            bool activate = x.loop < 0 && r.chance(3, 4), handler = r.chance(5, 6);
            if (!activate && !handler) return;
            priority p = PRIOS[r.range(0, 6)];
            std::vector<Words> sc;
            size_t n = r.weighted({5, 3, 2, 1});
            if (running >= 0) n = 0;
            for (size_t i = 0; i < n; ++i)
            {
                Words w;
                for (int q = 0; q < 8; ++q) w.push_back(r.word());
                sc.push_back(w);
            }
            reg(k, l, ev, activate, handler, p, sc);
            cx().log("reg o%d ev%d%s%s p%d; ", k, ev, activate ? " on" : "", handler ? (" h" + std::to_string(ents.size())).c_str() : "", (int)p);
            break;
        }
        case 1:     // remove for good
        {
            if (!x.s || owner() < 0) return;
            loops[owner()]->fd_remove(x.s, true, x.loop >= 0);
            cx().log("remove o%d; ", k);
            forget(k);
            x.loop = -1;
            x.act = 0;
            break;
        }
        case 2:     // switch off, handlers stay
        {
            if (!x.s || x.loop < 0) return;
            loops[x.loop]->fd_remove(x.s, false, true);
            cx().log("off o%d; ", k);
            x.loop = -1;
            x.act = 0;
            for (auto &e : ents) if (e->live && e->obj == k && e->gen == x.gen && running >= 0) e->blurred = true;
            break;
        }
        case 3:     // forget handlers, stays active
        {
            if (!x.s || owner() < 0) return;
            loops[owner()]->fd_remove(x.s, true, false);
            cx().log("clean o%d; ", k);
            forget(k);
            break;
        }
        case 4:     // the peer writes, or makes room
            if (x.peer < 0) return;
            if (x.rd) { char b[3] = "ab"; if (write(x.peer, b, 2) < 0) {} }
            else { char b[70000]; while (read(x.peer, b, sizeof b) > 0) {} }
            cx().log("peer o%d; ", k);
            break;
        case 5:     // read everything, or fill up
            if (!x.s) return;
            if (x.rd && (!x.wr || r.chance(1, 2))) { char b[70000]; while (read(x.fd, b, sizeof b) > 0) {} cx().log("drain o%d; ", k); }
            else
            {
                static char b[70000];
                while (write(x.fd, b, sizeof b) > 0) {}
                while (write(x.fd, b, 1) > 0) {}
                cx().log("fill o%d; ", k);
            }
            break;
        case 6:     // the peer goes away
            if (x.peer < 0) return;
            ::close(x.peer);
            x.peer = -1;
            cx().log("peer o%d closes; ", k);
            break;
        case 7:     // close as the reactor does: handlers out, then close
        {
            if (!x.s) return;
            if (owner() >= 0) loops[owner()]->fd_remove(x.s, true, false);
            forget(k);
            x.s->close();
            drop(k);
            cx().log("close o%d; ", k);
            // its number may be taken at once
            if (r.chance(1, 2))
            {
                create(k, r.range(0, 3));
                reg(k, l, (int)r.range(1, 3), true, true, PRIOS[r.range(0, 6)], {});
                cx().log("again o%d h%zu; ", k, ents.size());
            }
            break;
        }
        default:    // remove and destroy
        {
            if (!x.s) return;
            if (owner() >= 0 || x.loop >= 0) loops[owner()]->fd_remove(x.s, true, x.loop >= 0);
            forget(k);
            drop(k);
            cx().log("destroy o%d; ", k);
        }
        }
        loads("an action");
    }
    void iterate(int l, int how)
    {
        int must = 0;
        for (auto &e : ents)
        {
            e->must = e->maybe = e->fresh = e->blurred = false;
            e->calls = 0;
            if (!e->live || e->loop != l) continue;
            Obj &x = o[e->obj];
            if (x.loop != l) continue;
            pollfd p{x.fd, (short)(((x.act & 1) ? POLLIN : 0) | ((x.act & 2) ? POLLOUT : 0)), 0};
            ::poll(&p, 1, 0);
            bool broken = p.revents & (POLLHUP | POLLERR);
            for (int b = 1; b <= 2; b <<= 1)
            {
                if (!(e->ev & b) || !(x.act & b)) continue;
                bool on = p.revents & (b == 1 ? POLLIN : POLLOUT);
                if (on || (broken && x.act == b)) e->must = true;
                if (on || broken) e->maybe = true;
                if (broken && !on && x.act == b) ++hup;
            }
            must += e->must;
        }
        if (must > 1) ++multi;
        lastprio = 1000;
        running = l;
        interrupted = 0;
        interrupt_next = how == 3 ? 1 : 0;
        // bounded even where it should not wait at all
        int timeout = must ? (how == 1 ? 3000 : how == 2 ? -1 : 0) : (how == 1 ? 1 : 0);
        cx().log("loop%d{", l);
        thrown = false;
        bool caught = false;
        try { loops[l]->loop_once(timeout); }
        catch (const Boom &) { caught = true; }
        if (thrown && !caught) cx().soft_fail("the exception of a handler does not reach the caller of the iteration");
        cx().log("}; ");
        running = -1;
        interrupt_next = 0;
        for (auto &e : ents)
        {
            if ((interrupted || thrown) && !e->calls) continue;     // the next iteration finds it due
            if (e->must && e->live && !e->blurred) PV_CHECK(e->calls == 1, "handler %d was due and was not called", e->id);
        }
        for (auto &e : ents) e->fresh = false;
        loads("an iteration");
        for (auto &e : ents) if (!e->live && !e->released) cx().soft_fail("handler %d was removed, but what it holds is not released", e->id);
        if (cx().failed()) throw CaseFail("");
    }
};

Held::~Held() { w->gone(e); }

void body(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    static int marker[2];
    World w;
    event_loop a(&marker[0], &marker[1]), b;
    w.loops[0] = &a;
    w.loops[1] = &b;
    PV_CHECK(a.data() == &marker[0] && a.back() == &marker[1] && b.data() == nullptr && b.back() == nullptr, "data() or back() is wrong");
    PV_CHECK(a.ev_loads() == 0, "a new loop has a load");
    for (int l = 0; l < 2; ++l) w.spare[l] = nio_factory::get_pipes()[0];
    struct Fin
    {
        World &w;
        ~Fin()
        {
            w.finished = true;
            interrupt_next = 0;
            for (auto &x : w.o) { if (x.peer >= 0) ::close(x.peer); x.s.reset(); }
        }
    } fin{w};
    for (auto &op : c.ops)
    {
        Src r(op);
        if (r.chance(1, 6)) { int l = r.chance(1, 6); w.iterate(l, (int)r.weighted({6, 3, 1, 1})); }
        else w.act(r, r.chance(1, 8));
    }
    w.iterate(0, 0);
    w.iterate(1, 0);
    // after everything is removed the loops hold nothing and call nothing
    for (int k = 0; k < N; ++k)
    {
        Obj &x = w.o[k];
        if (!x.s) continue;
        int ow = x.loop;
        for (auto &e : w.ents) if (e->live && e->obj == k && e->gen == x.gen) ow = e->loop;
        if (ow >= 0) w.loops[ow]->fd_remove(x.s, true, x.loop >= 0);
        w.forget(k);
        w.drop(k);
    }
    w.loads("removing everything");
    w.iterate(0, 0);
    w.iterate(1, 0);
    if (w.removed_due) cx().label("removed while due");
    if (w.hup) cx().label("hang-up or error only");
    if (w.multi) cx().label("several due");
    if (w.inner) cx().label("actions inside handlers");
    if (w.reuse) cx().label("number reused");
    if (w.releases) cx().label("handler released");
    if (w.throws) cx().label("handler threw");
    cx().nontrivial(w.calls > 1 && (w.multi || w.removed_due || w.hup));
}
Reg r1({"iterations", "histories over two loops and seven pipes/sockets: registering handlers (priorities, events, active or not), switching off, removing, closing, peers writing/draining/closing, from the program and from inside handlers, with single iterations in between; the calls of every iteration are compared with the readiness poll(2) reports just before it; non-trivial: two or more handler calls and an iteration with several handlers due, a handler removed while due, or a hang-up",
        1, 44, 8, 56, 100000, 2500000, INPROC, 30, body});

// many descriptors due at once
void crowd(const Case &c)
{
    Src h(c.hdr);
    static const int edges[] = {1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1500, 2047, 2048};
    int n = (int)(h.chance(1, 3) ? edges[h.range(0, thorough() ? 19 : 16)] : h.skew(1, 400));
    int ready = (int)h.range(0, 3);          // how many are: few to all
    int removals = (int)h.weighted({3, 2, 1});
    uint64_t seed = h.word();
    auto rnd = [&](unsigned k) { return (unsigned)(splitmix(seed) % k); };
    struct rlimit lim;
    getrlimit(RLIMIT_NOFILE, &lim);
    if (lim.rlim_cur < 4000 && lim.rlim_max >= 4000) { lim.rlim_cur = 4000; setrlimit(RLIMIT_NOFILE, &lim); }
    getrlimit(RLIMIT_NOFILE, &lim);
    if ((unsigned long)n + 100 > lim.rlim_cur) n = (int)lim.rlim_cur - 100;
    // how many descriptors one wait may report: mostly more than there are
    int batch = 2048;
    if (h.chance(1, 2))
    {
        static const int few[] = {1, 2, 3, 7, 64};
        size_t k = h.range(0, 8);
        batch = k <= 4 ? few[k] : k == 5 ? n : k == 6 ? n + 1 : k == 7 ? n - 1 : (n + 1) / 2;
        batch = std::max(batch, n / 40 + 1);
    }
    Setting number(sysconfig::event_number, batch);
    int full[2], empty[2], wfull[2], wfree[2];
    PV_CHECK(pipe2(full, O_NONBLOCK) == 0 && pipe2(empty, O_NONBLOCK) == 0 && pipe2(wfull, O_NONBLOCK) == 0 && pipe2(wfree, O_NONBLOCK) == 0, "pipe");
    struct Fin
    {
        std::vector<int> fds;
        ~Fin() { for (int f : fds) ::close(f); }
    } fin{{full[0], full[1], empty[0], empty[1], wfull[0], wfull[1], wfree[0], wfree[1]}};
    static char b[70000];
    PV_CHECK(write(full[1], "x", 1) == 1, "write");
    while (write(wfull[1], b, sizeof b) > 0) {}
    while (write(wfull[1], b, 1) > 0) {}
    event_loop loop;
    struct H { int obj; bool due; int prio; int calls = 0; bool removed = false; int total = 0; };
    std::vector<H> hs;
    std::vector<std::shared_ptr<nstream>> objs;
    int last = 1000, calls = 0, due = 0, dueobjs = 0;
    auto load = [&] { int k = 0; for (auto &x : hs) k += !x.removed; return k; };
    hs.reserve(3 * n);
    for (int i = 0; i < n; ++i)
    {
        bool rdy = ready == 3 || rnd(4) < (unsigned)ready + 1, wr = rnd(2);
        int fd = dup(wr ? rdy ? wfree[1] : wfull[1] : rdy ? full[0] : empty[0]);
        PV_CHECK(fd >= 0, "dup");
        objs.push_back(std::make_shared<nstream>(fd));
        int k = 1 + rnd(4) / 3;
        dueobjs += rdy;
        for (int q = 0; q < k; ++q)
        {
            size_t id = hs.size();
            priority p = PRIOS[rnd(7)];
            hs.push_back(H{i, rdy, (int)p});
            due += rdy;
            loop.fd_register(objs[i], wr ? fd_event::fd_writable : fd_event::fd_readable, [&, id](const std::shared_ptr<nio> &iop) {
                H &x = hs[id];
                ++calls;
                if (x.removed) cx().soft_fail("handler %zu was removed and is called", id);
                if (!x.due) cx().soft_fail("handler %zu is called, but its descriptor is not ready for it", id);
                if (x.calls++) cx().soft_fail("handler %zu is called %d times in one iteration", id, x.calls);
                if (x.prio > last) cx().soft_fail("handler %zu of priority %d is called after one of priority %d", id, x.prio, last);
                last = x.prio;
                if (iop.get() != static_cast<nio *>(objs[x.obj].get())) cx().soft_fail("handler %zu gets another object than the registered one", id);
                if (removals && rnd(20) < (unsigned)removals * 3)
                {
                    int o = (int)rnd(n);
                    bool there = false;
                    for (auto &y : hs) if (y.obj == o && !y.removed) { y.removed = true; there = true; }
                    if (there) loop.fd_remove(objs[o], true);
                }
            }, q == 0, p);
        }
    }
    PV_CHECK(loop.ev_loads() == load(), "%d handlers are registered, the load is %d", load(), loop.ev_loads());
    // where one wait cannot report all of them, the others come next
    int rounds = dueobjs > batch ? dueobjs / batch + 2 : 1;
    for (int round = 0; round < 2 * rounds; ++round)
    {
        if (round % rounds == 0) for (auto &x : hs) x.total = 0;
        for (auto &x : hs) x.calls = 0;
        last = 1000;
        loop.loop_once(0);
        if (cx().failed()) throw CaseFail("");
        for (auto &x : hs) x.total += x.calls;
        if (round % rounds == rounds - 1)
            for (size_t i = 0; i < hs.size(); ++i)
                if (hs[i].due && !hs[i].removed) PV_CHECK(hs[i].total >= 1, "handler %zu of %zu was due, with %d others, and was not called within %d iterations of up to %d descriptors", i, hs.size(), due - 1, rounds, batch);
        PV_CHECK(loop.ev_loads() == load(), "%d handlers are registered, the load is %d", load(), loop.ev_loads());
    }
    cx().log("%d descriptors, %zu handlers, %d due, %d calls, %d at a time", n, hs.size(), due, calls, batch);
    if (rounds > 1) cx().label("more due than one wait reports");
    cx().nontrivial(due > 16);
    std::vector<bool> there(n);
    for (auto &x : hs) if (!x.removed) there[x.obj] = true;
    for (int i = 0; i < n; ++i) if (there[i]) loop.fd_remove(objs[i], true);
    PV_CHECK(loop.ev_loads() == 0, "everything is removed, the load is %d", loop.ev_loads());
}
Reg r2({"crowd", "up to 2048 descriptors, some or all ready at once for one or two handlers each, some of which remove others; two rounds, each of as many iterations as it takes with event_number at 1 to more than there are; non-trivial: more than 16 handlers due",
        12, 1, 0, 0, 6000, 150000, INPROC, 30, crowd});
}
