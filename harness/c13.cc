// C13: the timed scheduler against the list of instants it should trigger.
#include "dsched.h"
#include "cppev/scheduler.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <vector>
#include <unistd.h>
using namespace pv;
using cppev::priority;

namespace
{
const priority PRIO[] = {priority::p0, priority::p1, priority::p2, priority::p3, priority::p4, priority::p5, priority::p6};
const int64_t SEC = 1000000000;

// ---- clocks over the (virtual) time of day ---------------------------------
int64_t g_base;     // reading at virtual time 0
int g_num, g_den;   // a clock that runs slow wakes the sleeper early
int64_t ticks_ns() { return g_base + (int64_t)((__int128)ds::vnow() * g_num / g_den); }
template <typename D, bool Steady> struct FakeClock
{
    using duration = D;
    using rep = typename D::rep;
    using period = typename D::period;
    using time_point = std::chrono::time_point<FakeClock>;
    static constexpr bool is_steady = Steady;
    static time_point now() { return time_point(std::chrono::duration_cast<D>(std::chrono::nanoseconds(ticks_ns()))); }
};
typedef std::chrono::duration<int64_t, std::ratio<1, 10000000>> tick100;

struct Trigger { int task; int64_t stamp, begin, end; };   // readings in ns of the clock
struct World
{
    struct Task { double freq; int64_t period; int prio; };
    std::vector<Task> tasks;
    int ninit, nexit;
    bool align, shortform;
    std::vector<int64_t> durations;    // of triggers, init and exit tasks in turn
    size_t turn = 0;
    int64_t run;                        // until destroyed
    std::vector<Trigger> log;
    std::vector<int> inits, exits;      // times run
    std::vector<int> order;             // 0 init, 1 trigger, 2 exit
    int64_t init_end = -1;
    std::vector<pthread_t> threads;
    std::mutex mu;
    bool over = false;
    size_t limit = 4000;
    std::atomic<bool> enough{false};
};

void pass(int64_t ns)
{
    if (ns <= 0) return;
    timespec t{(time_t)(ns / SEC), (long)(ns % SEC)};
    nanosleep(&t, nullptr);
}

template <typename Clock> int64_t reading()
{
    return std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count();
}

// tick: how coarse the clock is; slack < 0: no bound on lateness (real time)
template <typename Clock> void drive(World &w, int64_t tick, int64_t slack)
{
    auto duration = [&]() -> int64_t { return w.durations.empty() ? 0 : w.durations[w.turn++ % w.durations.size()]; };
    auto enter = [&](int kind) {
        ds::Quiet q;
        if (w.over) cx().soft_fail("a task ran after the scheduler was destroyed");
        w.order.push_back(kind);
        w.threads.push_back(pthread_self());
    };
    std::vector<cppev::init_task_handler> in;
    std::vector<cppev::exit_task_handler> out;
    w.inits.assign(w.ninit, 0);
    w.exits.assign(w.nexit, 0);
    for (int i = 0; i < w.ninit; ++i) in.push_back([&, i]() { enter(0); pass(duration()); ds::Quiet q; ++w.inits[i]; w.init_end = reading<Clock>(); });
    for (int i = 0; i < w.nexit; ++i) out.push_back([&, i]() { enter(2); pass(duration()); ds::Quiet q; ++w.exits[i]; });
    auto handler = [&](int i) -> cppev::timed_task_handler {
        return [&, i](const std::chrono::nanoseconds &stamp) {
            enter(1);
            size_t k;
            { ds::Quiet q; k = w.log.size(); w.log.push_back({i, stamp.count(), reading<Clock>(), 0}); if (k >= w.limit) w.enough = true; }
            pass(duration());
            ds::Quiet q;
            w.log[k].end = reading<Clock>();
        };
    };
    std::vector<std::tuple<double, priority, cppev::timed_task_handler>> timed;
    for (size_t i = 0; i < w.tasks.size(); ++i) timed.push_back({w.tasks[i].freq, PRIO[w.tasks[i].prio], handler((int)i)});
    int64_t before = reading<Clock>(), asked, after;
    {
        std::unique_ptr<cppev::timed_scheduler<Clock>> s;
        if (w.shortform) s.reset(new cppev::timed_scheduler<Clock>(w.tasks[0].freq, handler(0), w.align));
        else s.reset(new cppev::timed_scheduler<Clock>(timed, in, out, w.align));
        in.clear();
        out.clear();
        timed.clear();
        for (int64_t left = w.run; left > 0 && !w.enough; )
        {
            int64_t part = std::max<int64_t>(1, std::min(left, w.run / 16));
            pass(part);
            left -= part;
        }
        { ds::Quiet q; asked = reading<Clock>(); }
        s.reset();
        { ds::Quiet q; after = reading<Clock>(); w.over = true; }
    }
    size_t done = w.log.size();
#if PV_DSCHED
    PV_CHECK(ds::threads_alive() == 0, "%d threads are left of the destroyed scheduler", ds::threads_alive());
    pass(3 * SEC);
#endif
    PV_CHECK(w.log.size() == done, "tasks ran after the scheduler was destroyed");
    (void)after;
    // start and exit tasks
    for (int i = 0; i < w.ninit; ++i) PV_CHECK(w.inits[i] == 1, "start task %d ran %d times", i, w.inits[i]);
    for (int i = 0; i < w.nexit; ++i) PV_CHECK(w.exits[i] == 1, "exit task %d ran %d times", i, w.exits[i]);
    PV_CHECK(std::is_sorted(w.order.begin(), w.order.end()), "start tasks, triggers and exit tasks are not in this order");
    for (auto t : w.threads) PV_CHECK(pthread_equal(t, w.threads[0]), "tasks ran on different threads");
    // the start instant
    int64_t e0 = w.init_end >= 0 ? w.init_end : before, start;
    if (w.log.empty())
    {
        if (slack >= 0) PV_CHECK(w.align ? asked - e0 < SEC + slack + tick : asked - e0 < slack + tick, "nothing was triggered in %lld ns%s", (long long)(asked - e0), w.align ? " (aligned)" : "");
        return;
    }
    start = w.log[0].stamp;
    PV_CHECK(start >= e0, "the start instant %lld is before the scheduler started at %lld", (long long)start, (long long)e0);
    if (w.align)
    {
        PV_CHECK(start % SEC == 0, "the start instant %lld is not a whole second", (long long)start);
        if (slack >= 0) PV_CHECK(start - e0 <= SEC + slack + tick, "started at %lld, the next whole second after %lld was earlier", (long long)start, (long long)e0);
    }
    else if (slack >= 0) PV_CHECK(start - e0 <= slack + tick, "started at %lld, %lld ns late", (long long)start, (long long)(start - e0));
    // the instants
    std::vector<int64_t> next(w.tasks.size(), start);
    size_t k = 0;
    int64_t idle = start;
    size_t late_instants = 0, overruns = 0, together = 0;
    for (;;)
    {
        int64_t due = *std::min_element(next.begin(), next.end());
        std::vector<int> who;
        for (size_t i = 0; i < next.size(); ++i) if (next[i] == due) who.push_back((int)i);
        if (k == done)
        {
            // all before the request to stop must have run
            if (slack >= 0) PV_CHECK(std::max(due, idle) + slack + tick >= asked, "task %d was not triggered at start + %lld ns though the scheduler ran for %lld ns (idle since + %lld)", who[0], (long long)(due - start), (long long)(asked - start), (long long)(idle - start));
            break;
        }
        int prio = -1;
        bool begun = false;
        while (!who.empty() && k < done)
        {
            auto &t = w.log[k];
            auto it = std::find(who.begin(), who.end(), t.task);
            if (t.stamp != due || it == who.end())
                cx().fail("trigger %zu is task %d at start + %lld ns, expected task %d at start + %lld ns (period %lld)", k, t.task, (long long)(t.stamp - start), who[0], (long long)(due - start), (long long)w.tasks[who[0]].period);
            PV_CHECK(t.begin >= due, "task %d for start + %lld ns ran %lld ns too early", t.task, (long long)(due - start), (long long)(due - t.begin));
            if (slack >= 0) PV_CHECK(t.begin - std::max(due, idle) <= slack + tick, "task %d for start + %lld ns ran %lld ns late (idle since + %lld)", t.task, (long long)(due - start), (long long)(t.begin - due), (long long)(idle - start));
            PV_CHECK(w.tasks[t.task].prio >= prio, "task %d of priority p%d at start + %lld ns ran after p%d", t.task, w.tasks[t.task].prio, (long long)(due - start), prio);
            prio = w.tasks[t.task].prio;
            if (begun) ++together;
            if (idle > due && !begun && k) ++overruns;
            // the request itself may have been held up between the reading of the clock and the store
            if (t.begin > asked + tick + std::max<int64_t>(slack, 0) && !begun) ++late_instants;
            begun = true;
            idle = t.end;
            next[t.task] += w.tasks[t.task].period;
            who.erase(it);
            ++k;
        }
    }
    if (slack >= 0) PV_CHECK(late_instants <= 1, "%zu more instants were served after the request to stop", late_instants);
    if (done > w.tasks.size()) cx().nontrivial();
    if (together) cx().label("several at one instant");
    if (overruns) cx().label("overrun");
    if (done >= 100) cx().label("100+ triggers");
}

World::Task task_of(double f, int prio) { return {f, (int64_t)(SEC / f), prio}; }
double frequency(Src &r, int family, double base)
{
    static const double round[] = {1, 2, 4, 5, 8, 10, 20, 25, 40, 50};
    static const double odd[] = {1, 3, 6, 7, 9, 12, 2.997, 2.4, 0.3, 1.1, 14.4, 2.5};
    static const double mult[] = {1, 2, 3, 4, 5, 6, 8, 12, 16};
    switch (family)
    {
    case 0: return base * r.pick(std::vector<double>(round, round + 10));
    case 1: return base * odd[r.word() % 12];
    case 2: return base * mult[r.word() % 9];
    case 3: return base / mult[r.word() % 9];
    default: return base * (0.3 + (r.word() % 100000) / 10000.0);
    }
}

#if PV_DSCHED
void run_virtual(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    cfg.spurious_den = 0;
    static World *wp;
    wp = new World();
    World &w = *wp;
    static const double bases[] = {1, 10, 100, 60, 24, 1000, 0.5, 44.1, 0.1, 5000};
    int kind = (int)h.weighted({4, 2, 3, 2, 2, 2});
    int family = (int)h.weighted({4, 3, 3, 2, 2});
    double base = bases[h.word() % 10];
    int64_t frac[] = {0, 1, 999999999, 500000000, 999000000, 999999000, 123456789};
    int64_t f = frac[h.word() % 7];
    int64_t secs[] = {1700000000, 3, 0, 1700000059, 2000000000};
    g_base = secs[h.word() % 5] * SEC + f;
    if (g_base == 0) g_base = SEC;
    cfg.epoch = (uint64_t)g_base;
    g_num = 1; g_den = 1;
    w.align = h.chance(1, 2);
    w.shortform = h.chance(1, 8);
    w.ninit = w.shortform ? 0 : (int)h.range(0, 3);
    w.nexit = w.shortform ? 0 : (int)h.range(0, 3);
    int slow = h.word() % 4;
    int busy = (int)h.weighted({3, 2, 2, 1});
    for (auto &o : c.ops)
    {
        if (w.tasks.size() == 6 || (w.shortform && w.tasks.size() == 1)) break;
        Src r(o);
        double fr = frequency(r, family, base);
        w.tasks.push_back(task_of(fr, w.shortform ? 0 : (int)(r.word() % 7)));
    }
    if (w.tasks.empty()) w.tasks.push_back(task_of(base, 0));
    int64_t least = INT64_MAX, most = 0;
    for (auto &t : w.tasks) { least = std::min(least, t.period); most = std::max(most, t.period); }
    // long enough for some periods of the slow ones, not too many triggers
    int64_t per = h.chance(1, 2) ? least * h.range(0, 40) : most * h.range(0, 6);
    per = std::min(per, least * 300);
    w.run = per + least / 7;
    if (w.align && h.chance(7, 8)) w.run += SEC;
    static const int64_t parts[] = {0, 0, 0, 1, 2, 3, 7};
    if (busy)
        for (int i = 0; i < 12; ++i)
        {
            uint32_t m = h.word();
            int64_t d = 0;
            if (busy == 1) d = m % 6 == 0 ? least * (m / 6 % 40) / 10 : 0;           // now and then an overrun
            else if (busy == 2) d = least * parts[m % 7] / 10;                        // some work
            else d = least / 2 + (int64_t)(m % 1000) * least / 700;                   // too much work
            w.durations.push_back(d);
        }
    const int64_t SLACK = 200000;
    cx().log("%s%s init%d exit%d busy%d run %lldns base ..%lld:", w.align ? "aligned " : "", w.shortform ? "short " : "", w.ninit, w.nexit, busy, (long long)w.run, (long long)(g_base % (100 * SEC)));
    for (auto &t : w.tasks) cx().log(" %gHz/p%d", t.freq, t.prio);
    ds::run(cfg, [&]() {
        switch (kind)
        {
        case 0: drive<std::chrono::system_clock>(w, 1, SLACK); break;
        case 1:
            cx().label("steady_clock");
            drive<std::chrono::steady_clock>(w, 1, SLACK);
            break;
        case 2:
            g_num = slow ? 4 - slow : 1;
            g_den = slow ? 4 : 1;
            cx().label(slow ? "clock that wakes early" : "own clock");
            drive<FakeClock<std::chrono::nanoseconds, false>>(w, 1, SLACK);
            break;
        case 3: cx().label("microsecond clock"); drive<FakeClock<std::chrono::microseconds, false>>(w, 1000, SLACK); break;
        case 4: cx().label("100 ns clock"); drive<FakeClock<tick100, false>>(w, 100, SLACK); break;
        default: cx().label("millisecond clock"); drive<FakeClock<std::chrono::milliseconds, false>>(w, 1000000, SLACK); break;
        }
    });
}
Reg r1({"virtual", "1 to 6 periodic tasks of commensurable, awkward or arbitrary frequencies and random priorities, start and exit tasks, aligned or not, over six kinds of clocks and start times, with tasks that take virtual time and overrun, destroyed at a random moment; non-trivial if tasks ran more than once",
        ds::HDR + 40, 4, 1, 6, 60000, 1500000, FORKED, 8, run_virtual, CONCLUSIVE});
#else
void real(const Case &c)
{
    Src h(c.hdr);
    static World *wp;
    wp = new World();
    World &w = *wp;
    w.align = h.chance(1, 8);
    w.shortform = h.chance(1, 6);
    w.ninit = w.shortform ? 0 : (int)h.range(0, 2);
    w.nexit = w.shortform ? 0 : (int)h.range(0, 2);
    int family = (int)h.weighted({4, 3, 3, 2, 2});
    w.run = h.range(0, 60000000) + (w.align && h.chance(1, 2) ? SEC : 0);
    bool steady = h.chance(1, 3);
    for (int i = 0; i < 8; ++i) { uint32_t m = h.word(); w.durations.push_back(m % 4 ? 0 : m / 4 % 9 * 500000); }
    for (auto &o : c.ops)
    {
        if (w.tasks.size() == 5 || (w.shortform && w.tasks.size() == 1)) break;
        Src r(o);
        w.tasks.push_back(task_of(frequency(r, family, 100), w.shortform ? 0 : (int)(r.word() % 7)));
    }
    if (w.tasks.empty()) w.tasks.push_back(task_of(100, 0));
    cx().log("%s%s init%d exit%d run %lldns:", w.align ? "aligned " : "", w.shortform ? "short " : "", w.ninit, w.nexit, (long long)w.run);
    for (auto &t : w.tasks) cx().log(" %gHz/p%d", t.freq, t.prio);
    if (steady) drive<std::chrono::steady_clock>(w, 1, -1);
    else drive<std::chrono::system_clock>(w, 1, -1);
}
Reg r1({"real", "as above on the system's clocks and threads for up to 60 ms (1.06 s when aligned), without bounds on lateness; non-trivial if tasks ran more than once",
        24, 4, 1, 5, 400, 8000, FORKED, 12, real, CONCLUSIVE});
#endif
}
