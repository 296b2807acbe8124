// C11: the task-queue thread pool, every task once, under generated schedules.
#include "dsched.h"
#include "cppev/thread_pool.h"
#include <atomic>
#include <memory>
#include <pthread.h>
using namespace pv;
using namespace cppev;

namespace
{
#ifdef PV_NATIVE
pthread_mutex_t g_model = PTHREAD_MUTEX_INITIALIZER;
struct Model
{
    Model() { pthread_mutex_lock(&g_model); }
    ~Model() { pthread_mutex_unlock(&g_model); }
};
#else
typedef ds::Quiet Model;
#endif

struct Task
{
    int id = 0;
    long call = -1, ret = -1;   // instants of its add call
    int seq = 0;                // place in its batch
    bool racing = false;        // added by another thread after stop was called
    int started = 0, ended = 0;
    bool gate = false;
    int work = 0;
    std::vector<int> kids;      // added by this one
    int kidkind = 0;
    bool holds = false;         // something that is to be released
    int late = -1;              // added when it is released
    int held = 0, released = 0;
};
void released(int id);
struct Guard
{
    int id;
    explicit Guard(int i) : id(i) {}
    Guard(const Guard &) = delete;
    ~Guard() { released(id); }
};
struct World
{
    std::vector<std::unique_ptr<Task>> t;
    long clock = 0;
    int threads = 1, running = 0, most = 0, gate_size = 0, gate_in = 0;
    bool stop_called = false, stopped = false;
    int overtaken = 0;
    pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t gc = PTHREAD_COND_INITIALIZER;
    thread_pool_task_queue *pool = nullptr;

    thread_pool_task_handler handler(int id)
    {
        if (t[id]->holds)
        {
            std::shared_ptr<Guard> g;
            {
                Model m;
                ++t[id]->held;
            }
            g = std::make_shared<Guard>(id);
            return [this, id, g]() { run(g->id); };
        }
        return [this, id]() { run(id); };
    }
    void add(const std::vector<int> &ids, int kind, bool outside)
    {
        {
            Model m;
            long c = ++clock;
            for (size_t i = 0; i < ids.size(); ++i)
            {
                t[ids[i]]->call = c;
                t[ids[i]]->seq = (int)i;
                t[ids[i]]->racing = outside && stop_called;
            }
        }
        if (kind == 0)
        {
            std::vector<thread_pool_task_handler> v;
            for (int i : ids) v.push_back(handler(i));
            const auto &cv = v;
            pool->add_task(cv);
            Model m;
            long r = ++clock;
            for (int i : ids) { t[i]->ret = r; if (outside && stop_called) t[i]->racing = true; }
            return;
        }
        for (int i : ids)
        {
            {
                Model m;
                t[i]->call = ++clock;
                if (outside && stop_called) t[i]->racing = true;
            }
            if (kind == 1)
            {
                const thread_pool_task_handler h = handler(i);
                pool->add_task(h);
            }
            else pool->add_task(handler(i));
            Model m;
            t[i]->ret = ++clock;
            if (outside && stop_called) t[i]->racing = true;
        }
    }
    void run(int id)
    {
        Task &k = *t[id];
        {
            Model m;
            ++clock;
            ++k.started;
            ++running;
            if (running > most) most = running;
            if (k.started > 1) cx().soft_fail("task %d runs a second time", id);
            if (k.call < 0) cx().soft_fail("task %d runs before it was added", id);
            if (stopped) cx().soft_fail("task %d starts after stop() returned", id);
            if (running > threads) cx().soft_fail("%d tasks run at once on %d threads", running, threads);
            // those that were certainly added earlier and did not start yet can only
            // be in the hands of the other threads
            int waiting = 0;
            for (auto &o : t)
            {
                if (o->id == id || o->call < 0 || o->started) continue;
                bool earlier = (o->ret >= 0 && o->ret < k.call) || (o->call == k.call && o->seq < k.seq);
                if (earlier) ++waiting;
            }
            if (waiting) ++overtaken;
            // running counts this one
            if (waiting > threads - running)
                cx().soft_fail("task %d starts while %d tasks added earlier do not run yet, with %d of %d threads at work", id, waiting, running, threads);
        }
        for (int i = 0; i < k.work; ++i) ds::point();
        if (k.gate)
        {
            pthread_mutex_lock(&gm);
            if (++gate_in >= gate_size) pthread_cond_broadcast(&gc);
            while (gate_in < gate_size) pthread_cond_wait(&gc, &gm);
            pthread_mutex_unlock(&gm);
        }
        if (!k.kids.empty()) add(k.kids, k.kidkind, false);
        Model m;
        ++k.ended;
        --running;
        ++clock;
    }
};
World *W;
void released(int id)
{
    Task &k = *W->t[id];
    int kid = -1;
    {
        Model m;
        ++k.released;
        if (k.started != k.ended) cx().soft_fail("what task %d holds is released while it runs", id);
        // a task that was never run adds nothing, its pool may be going away
        if (k.ended) kid = k.late;
    }
    if (kid >= 0) W->add({kid}, k.kidkind, true);
}
struct Step
{
    int kind;               // 0 batch, 1 copies, 2 moves, 3 settle, 4 yields
    std::vector<int> ids;
};
struct Producer
{
    std::vector<Step> steps;
    pthread_t pt;
};
void produce(Producer &p, bool outside)
{
    for (auto &s : p.steps)
    {
        if (s.kind == 3) { if (!outside) ds::settle(); else ds::yield(); }
        else if (s.kind == 4) for (size_t i = 0; i < 3; ++i) ds::point();
        else W->add(s.ids, s.kind, outside);
    }
}
void *producer(void *a)
{
    produce(*(Producer *)a, true);
    return nullptr;
}

void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    World *w = W = new World();
    int n = w->threads = (int)h.range(1, 5);
    int np = (int)h.range(0, 3);
    int when = (int)h.weighted({3, 2, 1});          // run() first, in the middle, last
    bool idle_stop = h.chance(1, 3);
    bool race_stop = np && h.chance(1, 3);
    int gate_at = h.chance(1, 2) ? (int)h.range(0, 11) : -1;
    std::vector<Producer> ps(np + 1);
    auto mk = [&](Src &s, int depth, auto &&self) -> int {
        int id = (int)w->t.size();
        w->t.emplace_back(new Task());
        w->t[id]->id = id;
        w->t[id]->work = (int)s.range(0, 3);
        if (s.chance(1, 4))
        {
            w->t[id]->holds = true;
            if (depth > 0 && s.chance(1, 2)) { int l = self(s, 0, self); w->t[id]->late = l; }
        }
        if (depth > 0 && s.chance(1, 4))
        {
            int k = (int)s.range(1, 3);
            std::vector<int> kids;
            for (int i = 0; i < k; ++i) kids.push_back(self(s, depth - 1, self));
            w->t[id]->kids = kids;
            w->t[id]->kidkind = (int)s.range(0, 2);
        }
        return id;
    };
    int nops = 0;
    for (auto &o : c.ops)
    {
        Src s(o);
        Producer &p = ps[s.range(0, np)];
        Step st;
        st.kind = (int)s.weighted({2, 3, 3, 1, 1});
        if (nops == gate_at)
        {
            st.kind = (int)s.range(0, 2);
            for (int i = 0; i < n; ++i)
            {
                int id = (int)w->t.size();
                w->t.emplace_back(new Task());
                w->t[id]->id = id;
                w->t[id]->gate = true;
                st.ids.push_back(id);
            }
            w->gate_size = n;
            if (race_stop) race_stop = false;   // they all have to be there
        }
        else if (st.kind < 3)
        {
            int k = st.kind == 0 ? (int)s.range(0, 4) : (int)s.range(1, 2);
            for (int i = 0; i < k; ++i) st.ids.push_back(mk(s, 2, mk));
        }
        p.steps.push_back(st);
        ++nops;
    }
    cx().log("threads=%d producers=%d run=%s%s%s", n, np, when == 0 ? "first" : when == 1 ? "amid" : "last", idle_stop ? " idle" : "", race_stop ? " race" : "");
    for (int i = 0; i <= np; ++i)
        for (auto &s : ps[i].steps)
        {
            std::string d;
            for (int k : s.ids) d += " " + std::to_string(k) + (w->t[k]->gate ? "g" : "") + (w->t[k]->kids.empty() ? "" : "+" + std::to_string(w->t[k]->kids.size()));
            cx().log(" %d:%c%s", i, "bcmsy"[s.kind], d.c_str());
        }
    ds::run(cfg, [&]() {
        thread_pool_task_queue pool(n);
        w->pool = &pool;
        PV_CHECK(pool.size() == n, "a pool asked for %d threads has %d", n, pool.size());
        if (when == 0) pool.run();
        for (int i = 1; i <= np; ++i) pthread_create(&ps[i].pt, nullptr, producer, &ps[i]);
        if (when == 1)
        {
            Producer a, b;
            for (size_t i = 0; i < ps[0].steps.size(); ++i) (i < ps[0].steps.size() / 2 ? a : b).steps.push_back(ps[0].steps[i]);
            produce(a, false);
            pool.run();
            produce(b, false);
        }
        else produce(ps[0], false);
        if (when == 2) pool.run();
        if (!race_stop) for (int i = 1; i <= np; ++i) pthread_join(ps[i].pt, nullptr);
        if (idle_stop)
        {
            ds::settle();
#ifndef PV_NATIVE
            // nobody is at work, or the run has been stopped short
            Model m;
            for (auto &k : w->t)
                if (k->ended && k->released != k->held) cx().soft_fail("task %d ended, the pool is idle, but what the task holds is not released", k->id);
#endif
        }
        {
            Model m;
            w->stop_called = true;
        }
        pool.stop();
        int done = 0, racing = 0;
        {
            Model m;
            w->stopped = true;
            for (auto &k : w->t)
            {
                if (k->started != k->ended) cx().soft_fail("stop() returned while task %d runs", k->id);
                if (k->started) { ++done; continue; }
                if (k->call < 0 || k->racing || k->ret < 0) { ++racing; continue; }
                cx().soft_fail("task %d, added before stop() was called%s, was not run when stop() returned", k->id, "");
            }
        }
        if (race_stop) for (int i = 1; i <= np; ++i) pthread_join(ps[i].pt, nullptr);
        ds::settle();
        {
            Model m;
            if (w->running) cx().soft_fail("a task runs after stop() returned");
            for (auto &k : w->t)
                if (k->ended && k->released != k->held) cx().soft_fail("task %d was run and the pool has stopped, but what the task holds is not released", k->id);
        }
        if (n > 1 && w->most > 1) cx().label("tasks in parallel");
        if (w->most == n) cx().label("all threads busy");
        if (w->gate_size) cx().label("rendezvous of all threads");
        if (w->overtaken) cx().label("start order differs from add order");
        if (racing) cx().label("task too late for stop");
        if (idle_stop) cx().label("stop while idle");
        if (np) cx().label("several producers");
        for (auto &k : w->t) if (!k->kids.empty()) { cx().label("nested tasks"); break; }
        for (auto &k : w->t) if (k->late >= 0 && k->released) { cx().label("added by what a task held"); break; }
        cx().nontrivial(done >= 3);
    });
}
Reg r({
#ifdef PV_NATIVE
    "pool-native",
    "scripts of adding tasks (single, batches, nested, several producers) with start and stop, on the system's threads; non-trivial when at least three tasks ran",
#else
    "pool",
    "scripts of adding tasks (single, batches, nested, several producers) with start and stop, under one generated schedule each; non-trivial when at least three tasks ran",
#endif
    ds::HDR + 8, 40, 0, 14,
#ifdef PV_NATIVE
    3000, 60000,
#else
    50000, 1500000,
#endif
    FORKED, 20, body,
#ifdef PV_NATIVE
    CONCLUSIVE
#else
    0
#endif
    });
}
