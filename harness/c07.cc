// C07: endless loops, stop requests and registration from several threads.
#include "dsched.h"
#include "cppev/event_loop.h"
#include <atomic>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <set>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>
using namespace pv;
using namespace cppev;

namespace
{
const priority PRIOS[] = {p0, p1, p2, p3, p4, p5, p6};
const int MAXOBJ = 40;

struct Obj
{
    std::shared_ptr<nstream> s;
    int peer = -1;
    int loop = 0;
    int act = 0, arg = 0;             // what its handler does after reading
    bool spin = false;                // writable all the time
    std::atomic<long> sent{0}, got{0};
    std::atomic<int> calls{0};
    std::atomic<int> registered{0};   // 1 begun, 2 done
    std::atomic<bool> removed{false};
};
struct Act { int what, a, b, c; };
struct World
{
    int nloops, nthreads;
    std::unique_ptr<event_loop> loop[2];
    int timeout[2], delay[2];
    std::atomic<int> began[2], ended[2], stops_begun[2], stops_done[2];
    pthread_t thread[2];
    std::atomic<bool> inside[2];
    Obj obj[MAXOBJ];
    std::atomic<int> nobj{0};
    std::vector<Act> script[4];
    std::atomic<int> prestart{0}, fromhandler{0}, depth{0};
};
World *W;

void act(const Act &a, int from_loop);

void stop(int l, bool handler)
{
    { ds::Quiet q; ++W->stops_begun[l]; if (!W->began[l]) ++W->prestart; if (handler) ++W->fromhandler; }
    try { W->loop[l]->stop_loop_forever(); }
    catch (const std::exception &e) { cx().soft_fail("a request to stop threw %s", e.what()); }
    { ds::Quiet q; ++W->stops_done[l]; }
}
void send(Obj &o, int n)
{
    char b[8] = "abcdefg";
    ds::Quiet q;
    if (o.peer < 0 || o.spin) return;
    for (int i = 0; i < n; ++i) { if (::write(o.peer, b, 1) != 1) return; ++o.sent; }
}
void handler(int k)
{
    Obj &o = W->obj[k];
    int l = o.loop;
    {
        ds::Quiet q;
        if (W->inside[l]) cx().soft_fail("two handlers of one loop ran at a time");
        if (!W->began[l] || !pthread_equal(pthread_self(), W->thread[l])) cx().soft_fail("a handler ran on another thread than its loop");
        if (W->ended[l]) cx().soft_fail("a handler ran after its loop had returned");
        if (o.removed) cx().soft_fail("a removed handler ran");
        W->inside[l] = true;
        ++o.calls;
        if (!o.spin)
        {
            char b[16];
            ssize_t n = ::read(o.s->fd(), b, o.arg % 3 ? sizeof b : 1);
            if (n > 0) o.got += n;
        }
    }
    ds::point();
    if (o.act == 1 && o.calls == 1)
    {
        { ds::Quiet q; o.removed = true; }
        W->loop[l]->fd_remove(o.s);
    }
    else if (o.act >= 2 && o.calls <= 2) act({o.act == 2 ? 0 : o.act == 3 ? 2 : o.act == 4 ? 2 : 1, o.act == 4 ? 1 - l : l, o.arg, 0}, l);
    ds::Quiet q;
    W->inside[l] = false;
}
void enroll(int l, int how, int script, bool spin)
{
    int k;
    Obj *o;
    {
        ds::Quiet q;
        k = W->nobj++;
        if (k >= MAXOBJ) { W->nobj = MAXOBJ; return; }
        o = &W->obj[k];
        int p[2];
        bool sock = spin || how % 2;
        if (sock ? socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) : pipe2(p, O_NONBLOCK)) { cx().soft_fail("pipe"); return; }
        o->s = std::make_shared<nstream>(p[0]);
        o->loop = l;
        o->spin = spin;
        o->act = spin ? 0 : script % 7;
        if (o->act == 4 && W->nloops < 2) o->act = 1;
        if (o->act == 2 && ++W->depth > 12) o->act = 0;
        o->arg = script / 7 % 1000;
        o->peer = p[1];
        o->registered = 1;
    }
    int when = how / 2 % 4;
    if (when == 0) send(*o, 1 + how / 8 % 3);
    try
    {
        fd_event_handler h = [k](const std::shared_ptr<nio> &) { handler(k); };
        auto prio = PRIOS[how / 24 % 7];
        auto ev = spin ? fd_event::fd_writable : fd_event::fd_readable;
        if (how / 168 % 4 == 0)
        {
            // handler and activation on their own
            W->loop[l]->fd_register(o->s, ev, h, false, prio);
            W->loop[l]->fd_register(o->s, ev);
        }
        else W->loop[l]->fd_register(o->s, ev, h, true, prio);
    }
    catch (const std::exception &e) { cx().soft_fail("registering threw %s", e.what()); }
    { ds::Quiet q; o->registered = 2; }
    if (when == 1) send(*o, 1 + how / 8 % 3);
}
void act(const Act &a, int from_loop)
{
    int l = a.a % W->nloops;
    switch (a.what)
    {
    case 0: enroll(l, a.b, a.c, false); break;
    case 1:
    {
        int n = std::min<int>(W->nobj, MAXOBJ);
        if (n) { Obj &o = W->obj[a.b % n]; if (o.registered) send(o, 1 + a.c % 3); }
        break;
    }
    case 2: stop(l, from_loop >= 0); break;
    case 3: enroll(l, a.b, 0, true); break;
    default: for (int i = 0; i < a.b % 5; ++i) ds::point(); break;
    }
}
void *loop_thread(void *p)
{
    int l = (int)(intptr_t)p;
    for (int i = 0; i < W->delay[l]; ++i) ds::yield();
    { ds::Quiet q; W->thread[l] = pthread_self(); W->began[l] = 1; }
    try { W->loop[l]->loop_forever(W->timeout[l]); }
    catch (const std::exception &e) { cx().soft_fail("the loop threw %s", e.what()); }
    ds::Quiet q;
    if (!W->stops_begun[l]) cx().soft_fail("loop %d returned though nobody asked it to stop", l);
    W->ended[l] = 1;
    return nullptr;
}
void *script_thread(void *p)
{
    for (auto &a : W->script[(intptr_t)p]) act(a, -1);
    return nullptr;
}
bool eventually(const std::function<bool()> &f)
{
#if PV_DSCHED
    for (int i = 0; i < 1500; ++i)
    {
        { ds::Quiet q; if (f() || cx().failed()) return true; }
        usleep(i < 20 ? 5 : i < 200 ? 20 : 100);
    }
    ds::Quiet q;
    return f();
#else
    for (double t = now(); now() < t + 8; )
    {
        if (f() || cx().failed()) return true;
        usleep(50);
    }
    return f();
#endif
}
void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    (void)cfg;
    W = new World();
    World &w = *W;
    w.nloops = h.chance(1, 2) ? 2 : 1;
    w.nthreads = (int)h.range(1, 3);
    int spinners = h.chance(1, 4) ? 1 : 0;
    for (int l = 0; l < 2; ++l)
    {
        int t = h.word() % 12;
        w.timeout[l] = t == 0 ? 0 : t == 1 ? 1 : t == 2 ? 20 : -1;
        w.delay[l] = h.chance(1, 3) ? (int)h.range(0, 30) : 0;
        w.began[l] = w.ended[l] = w.stops_begun[l] = w.stops_done[l] = 0;
        w.inside[l] = false;
    }
    int finale = (int)h.range(0, 3);
    int quiet_first = (int)(h.word() % 3);
    cx().log("%d loops (%d,%d) ", w.nloops, w.timeout[0], w.timeout[1]);
    size_t i = 0;
    bool stops = false;
    for (auto &o : c.ops)
    {
        Src r(o);
        Act a{(int)r.weighted({8, 5, 2, spinners ? 1u : 0u, 3}), (int)(r.word() % 2), (int)(r.word() % 10000), (int)(r.word() % 7000)};
        int t = (int)(r.word() % w.nthreads);
        if (a.what == 2) stops = true;
        w.script[t].push_back(a);
        static const char *N[] = {"reg", "send", "stop", "spin", "-"};
        cx().log(" %d:%s", t, N[a.what]);
        if (a.what <= 3 && a.what != 1) cx().log("%d", a.a % w.nloops);
        if (a.what == 0) cx().log("(%d)", a.c % 7);
        ++i;
    }
    auto fds = open_fds();
#if PV_DSCHED
    ds::run(cfg, [&]() {
#endif
        for (int l = 0; l < w.nloops; ++l) w.loop[l].reset(new event_loop());
        pthread_t lt[2], st[4];
        for (int l = 0; l < w.nloops; ++l) pthread_create(&lt[l], nullptr, loop_thread, (void *)(intptr_t)l);
        if (quiet_first) { if (w.timeout[0] < 0 && w.timeout[1] < 0) ds::settle(); else usleep(100); }
        for (int t = 0; t < w.nthreads; ++t) pthread_create(&st[t], nullptr, script_thread, (void *)(intptr_t)t);
        for (int t = 0; t < w.nthreads; ++t) pthread_join(st[t], nullptr);
        // what nobody stopped serves everything
        auto owed = [&]() -> int {
            for (int k = 0; k < std::min<int>(w.nobj, MAXOBJ); ++k)
            {
                Obj &o = w.obj[k];
                if (o.registered != 2 || o.removed || w.stops_begun[o.loop]) continue;
                if (o.spin ? o.calls == 0 : o.got != o.sent) return k;
            }
            return -1;
        };
        bool ok = eventually([&]() { return owed() < 0; });
        {
            ds::Quiet q;
            int k = owed();
            if (!ok && k >= 0) cx().fail("descriptor %d is registered and ready, but its handler does not run (%ld of %ld bytes read, %d calls)", k, (long)w.obj[k].got, (long)w.obj[k].sent, (int)w.obj[k].calls);
        }
        // the stopped ones are over
        for (int round = 0; round < 2; ++round)
        {
            for (int l = 0; l < w.nloops; ++l)
            {
                bool stopped = w.stops_done[l] > 0;
                if (round == 1 && !stopped)
                {
                    stop(l, false);
                    if (finale == 3) stop(l, false);
                    stopped = true;
                }
                if (stopped) PV_CHECK(eventually([&]() { return w.ended[l] == 1; }), "loop %d does not return though it was asked to stop (%d requests, timeout %d)", l, (int)w.stops_done[l], w.timeout[l]);
                if (cx().failed()) end_case();
            }
        }
        for (int l = 0; l < w.nloops; ++l) pthread_join(lt[l], nullptr);
        {
            ds::Quiet q;
            if (w.prestart) cx().label("stop before start");
            if (w.fromhandler) cx().label("stop from a handler");
            if (stops) cx().label("stop meanwhile");
            if (spinners) cx().label("busy loop");
            long calls = 0;
            for (auto &o : w.obj) calls += o.calls;
            cx().nontrivial(calls > 0 && i > 1);
        }
        for (int l = 0; l < w.nloops; ++l) w.loop[l].reset();
#if PV_DSCHED
    });
#endif
    for (auto &o : w.obj) { o.s.reset(); if (o.peer >= 0) ::close(o.peer); }
    PV_CHECK(open_fds().size() == fds.size(), "%zu descriptors are open, %zu were", open_fds().size(), fds.size());
}
#if PV_DSCHED
Reg r1({"schedules", "1 or 2 endless loops (some with a timeout, some busy) and 1 to 3 threads that register descriptors, make them ready and request stops, also from inside handlers and before the start, under a generated interleaving; non-trivial if a handler ran",
        ds::HDR + 16, 6, 0, 24, 60000, 1500000, FORKED, 8, body, CONCLUSIVE});
#else
Reg r1({"threads", "the same on the system's own scheduler under ThreadSanitizer; non-trivial if a handler ran",
        ds::HDR + 16, 6, 0, 24, 5000, 120000, FORKED, 20, body, CONCLUSIVE});
#endif
}
