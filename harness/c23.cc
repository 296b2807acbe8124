// C23: signal and process helpers.  One process per case: main thread and
// helper threads execute one command at a time; a model predicts masks,
// pending sets, dispositions and handler runs.
#include "engine.h"
#include "cppev/utils.h"
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <csignal>
#include <cstring>
#include <map>
#include <mutex>
#include <pthread.h>
#include <set>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <unistd.h>
using namespace pv;

namespace
{
const int SIGS[] = {SIGUSR1, SIGUSR2, SIGHUP, SIGWINCH, SIGALRM, SIGTERM, SIGURG, SIGCONT, SIGRTMIN + 2, SIGRTMAX};
const int NS = 10;
int sigidx(int s) { for (int i = 0; i < NS; ++i) if (SIGS[i] == s) return i; return -1; }

// what handlers saw
struct Rec { std::atomic<int> sig; int tid; };
std::atomic<int> nrec{0};
Rec recs[4096];
void on_sig(int s)
{
    int i = nrec.fetch_add(1);
    if (i < 4096) { recs[i].tid = (int)syscall(SYS_gettid); recs[i].sig = s; }   // sig last: it says that the record is complete
}

struct Worker
{
    std::thread t;
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false, quit = false;
    std::string err;
    std::atomic<int> tid{0};
    void loop()
    {
        tid = (int)syscall(SYS_gettid);
        for (;;)
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return busy || quit; });
            if (quit) return;
            auto j = job;
            l.unlock();
            try { j(); } catch (const CaseFail &e) { err = e.what(); } catch (const std::exception &e) { err = std::string("exception: ") + e.what(); }
            l.lock();
            busy = false;
            cv.notify_all();
        }
    }
    void start(std::function<void()> f)
    {
        std::lock_guard<std::mutex> l(m);
        job = f;
        busy = true;
        cv.notify_all();
    }
    void wait()
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return !busy; });
        if (!err.empty()) { std::string e = err; l.unlock(); cx().fail("%s", e.c_str()); }
    }
};

std::set<int> mask_of()
{
    sigset_t s;
    pthread_sigmask(SIG_SETMASK, nullptr, &s);
    std::set<int> r;
    for (int i = 1; i < 65; ++i) if (sigismember(&s, i) == 1) r.insert(i);
    return r;
}
std::set<int> pend_of()
{
    sigset_t s;
    sigpending(&s);
    std::set<int> r;
    for (int i = 1; i < 65; ++i) if (sigismember(&s, i) == 1) r.insert(i);
    return r;
}
std::string showset(const std::set<int> &s) { std::string o = "{"; for (int x : s) o += std::to_string(x) + " "; return o + "}"; }

bool shared_pending(int sig)
{
    FILE *f = fopen("/proc/self/status", "r");
    char b[256];
    unsigned long long m = 0;
    while (f && fgets(b, sizeof b, f)) if (sscanf(b, "ShdPnd: %llx", &m) == 1) break;
    if (f) fclose(f);
    return m >> (sig - 1) & 1;
}

enum Disp { DFL, IGN, HANDLER };
// default action of these in the model: only ignored-by-default ones are sent in DFL
bool dfl_harmless(int s) { return s == SIGWINCH || s == SIGURG || s == SIGCONT; }

const int T = 3;   // thread 0 is the main thread
void masks(const Case &c)
{
    signal(SIGCHLD, SIG_DFL);
    Worker *w = new Worker[T];   // never destroyed: a failed case leaves its helpers behind
    int tids[T];
    tids[0] = getpid();
    for (int i = 1; i < T; ++i)
    {
        w[i].t = std::thread([&, i] { w[i].loop(); });
        while (!w[i].tid) sched_yield();
        tids[i] = w[i].tid;
    }
    struct Stop
    {
        Worker *w;
        // a failed case leaves at once: helpers may be stuck
        ~Stop() { if (cx().failed()) { for (int i = 1; i < T; ++i) w[i].t.detach(); return; } for (int i = 1; i < T; ++i) { { std::lock_guard<std::mutex> l(w[i].m); w[i].quit = true; } w[i].cv.notify_all(); w[i].t.join(); } }
    };
    auto on = [&](int t, std::function<void()> f) {
        if (t == 0) f();
        else { w[t].start(f); w[t].wait(); }
    };
    std::set<int> mask[T], pend[T], ppend;
    for (int t = 0; t < T; ++t) on(t, [&, t] { mask[t] = mask_of(); });
    Disp disp[NS];
    std::map<int, int> count;    // expected handler runs per signal
    for (int i = 0; i < NS; ++i) disp[i] = DFL;
    int reci = 0;
    struct sigaction others[65];
    for (int s = 1; s < 65; ++s) sigaction(s, nullptr, &others[s]);

    auto await_rec = [&](int want) {
        double t0 = now();
        while (nrec < want || recs[want - 1].sig == 0 || (want > 1 && recs[want - 2].sig == 0))
        {
            usleep(50);
            PV_CHECK(now() - t0 < 30, "a signal that was due was not handled (%d of %d handler runs)", (int)nrec, want);
        }
    };
    // expect exactly one handler run of sig, on thread t (or any unblocked one if t < 0)
    auto expect_rec = [&](int sig, int t) {
        await_rec(reci + 1);
        PV_CHECK(recs[reci].sig == sig, "signal %d was handled where %d was due", (int)recs[reci].sig, sig);
        if (t >= 0) PV_CHECK(recs[reci].tid == tids[t], "signal %d was handled on another thread than the one it was sent to", sig);
        else
        {
            bool ok = false;
            for (int q = 0; q < T; ++q) if (recs[reci].tid == tids[q] && !mask[q].count(sig)) ok = true;
            PV_CHECK(ok, "signal %d was handled on a thread that blocks it", sig);
        }
        ++reci;
    };
    auto pickset = [&](Src &r) {
        std::vector<int> v;
        int n = (int)r.weighted({1, 5, 3, 2, 1});
        for (int i = 0; i < n; ++i) v.push_back(SIGS[r.range(0, NS - 1)]);
        return v;
    };
    int waits = 0, deferred = 0, suspends = 0;
    Src hd(c.hdr);
    for (int i = 0; i < NS; ++i)
        if (hd.chance(3, 5)) { cppev::handle_signal(SIGS[i], on_sig); disp[i] = HANDLER; cx().log("handle %d; ", SIGS[i]); }
    Stop stop{w};
    for (auto &ow : c.ops)
    {
        Src r(ow);
        size_t op = r.weighted({5, 4, 4, 4, 3, 3, 3, 2});
        int t = (int)r.range(0, T - 1);
        if (op == 0 || op == 1)
        {
            bool block = op == 0;
            std::vector<int> v = pickset(r);
            if (!block && r.chance(1, 2))
                for (int q : {pend[t].empty() ? 0 : *pend[t].begin(), ppend.empty() ? 0 : *ppend.begin()}) if (q) v.push_back(q);
            if (!block)
                // an unblocked pending signal would act by its disposition
                for (size_t i = 0; i < v.size();)
                {
                    int s = v[i], k = sigidx(s);
                    bool p = pend[t].count(s) || ppend.count(s);
                    if (p && disp[k] == DFL && !dfl_harmless(s)) v.erase(v.begin() + i);
                    else ++i;
                }
            bool single = v.size() == 1 && r.chance(1, 2);
            cx().log("t%d:%s", t, block ? "block" : "unblock");
            for (int s : v) cx().log(" %d", s);
            cx().log("; ");
            int before = reci;
            on(t, [&] {
                if (single) { if (block) cppev::thread_block_signal(v[0]); else cppev::thread_unblock_signal(v[0]); }
                else { if (block) cppev::thread_block_signal(v); else cppev::thread_unblock_signal(v); }
            });
            std::multiset<int> due;
            for (int s : v)
            {
                if (block) mask[t].insert(s);
                else
                {
                    mask[t].erase(s);
                    for (auto *p : {&pend[t], &ppend})
                        if (p->erase(s) && disp[sigidx(s)] == HANDLER) due.insert(s);
                }
            }
            if (!due.empty())
            {
                await_rec(before + (int)due.size());
                std::multiset<int> got;
                for (size_t i = 0; i < due.size(); ++i) { got.insert(recs[reci].sig); PV_CHECK(recs[reci].tid == tids[t], "a pending signal unblocked on one thread was handled on another"); ++reci; }
                PV_CHECK(got == due, "unblocking released other signals than those pending");
                ++deferred;
            }
        }
        else if (op == 2 || op == 3)
        {
            // raise on the thread itself, or send to the process
            int s = SIGS[r.range(0, NS - 1)];
            if (r.chance(1, 2))
                for (int i = 0; i < NS; ++i) if (mask[t].count(SIGS[i]) && !pend[t].count(SIGS[i])) { s = SIGS[i]; if (r.chance(1, 2)) break; }
            int k = sigidx(s);
            bool toproc = op == 3;
            bool anyopen = false;
            for (int q = 0; q < T; ++q) anyopen = anyopen || !mask[q].count(s);
            bool open = toproc ? anyopen : !mask[t].count(s);
            bool already = ppend.count(s);
            for (int q = 0; q < T; ++q) already = already || pend[q].count(s);
            if (open && disp[k] == DFL && !dfl_harmless(s)) continue;   // would end the process
            if (!open && already) continue;                             // coalescing is not the point
            cx().log("t%d:%s %d; ", t, toproc ? "send to process" : "raise", s);
            on(t, [&] { if (toproc) cppev::send_signal(getpid(), s); else cppev::thread_raise_signal(s); });
            if (open)
            {
                if (disp[k] == HANDLER) expect_rec(s, toproc ? -1 : t);
                // another thread takes and drops it in its own time
                else for (double t0 = now(); shared_pending(s) && now() - t0 < 20;) usleep(50);
            }
            else
            {
                // an ignored signal is discarded unless blocked; a blocked one stays
                // pending on Linux whatever its disposition
                (toproc ? ppend : pend[t]).insert(s);
            }
        }
        else if (op == 4)
        {
            int s = SIGS[r.range(0, NS - 1)], k = sigidx(s);
            size_t d = r.weighted({3, 2, 2});
            // while pending, changing to ignore discards it
            cx().log("t%d:%s %d; ", t, d == 0 ? "handle" : d == 1 ? "ignore" : "reset", s);
            on(t, [&] { if (d == 0) cppev::handle_signal(s, on_sig); else if (d == 1) cppev::ignore_signal(s); else cppev::reset_signal(s); });
            disp[k] = d == 0 ? HANDLER : d == 1 ? IGN : DFL;
            if (d == 1 || (d == 2 && dfl_harmless(s)))
            {
                ppend.erase(s);
                for (int q = 0; q < T; ++q) pend[q].erase(s);
            }
        }
        else if (op == 5)
        {
            // wait for one of a set: all blocked in the caller, some pending now or sent later
            std::vector<int> v = pickset(r);
            if (v.empty()) continue;
            bool ok = true;
            for (int s : v) if (!mask[t].count(s)) ok = false;
            if (!ok)
            {
                on(t, [&] { cppev::thread_block_signal(v); });
                for (int s : v) mask[t].insert(s);
                cx().log("t%d:block for wait; ", t);
            }
            int have = 0;
            for (int s : v) have += pend[t].count(s) || ppend.count(s);
            bool single = v.size() == 1 && r.chance(1, 2);
            int got = 0, sent = 0;
            if (have)
                on(t, [&] { if (single) { cppev::thread_wait_for_signal(v[0]); got = v[0]; } else got = cppev::thread_wait_for_signal(v); });
            else
            {
                if (t == 0) continue;
                int s = v[r.range(0, v.size() - 1)];
                // another thread's own pending copy does not matter, an ignored one would be lost
                if (disp[sigidx(s)] == IGN || (disp[sigidx(s)] == DFL && dfl_harmless(s))) continue;
                bool lurking = false;
                for (int q = 0; q < T; ++q) lurking = lurking || pend[q].count(s);
                if (lurking) continue;
                sent = s;
                w[t].start([&] { if (single) { cppev::thread_wait_for_signal(v[0]); got = v[0]; } else got = cppev::thread_wait_for_signal(v); });
                if (r.chance(1, 2)) usleep(300);
                pthread_kill(w[t].t.native_handle(), s);
                w[t].wait();
                pend[t].insert(s);
            }
            cx().log("t%d:wait", t);
            for (int s : v) cx().log(" %d", s);
            cx().log(" -> %d%s; ", got, sent ? " (sent later)" : "");
            bool in = false;
            for (int s : v) in = in || s == got;
            PV_CHECK(in && (pend[t].count(got) || ppend.count(got)), "waiting for signals returned %d, which was not pending and awaited", got);
            // the thread's own copy goes first
            if (!pend[t].erase(got)) ppend.erase(got);
            ++waits;
        }
        else if (op == 6)
        {
            // suspend: blocked and pending, or sent while suspended
            std::vector<int> v = pickset(r);
            if (v.empty()) continue;
            std::set<int> vs(v.begin(), v.end());
            bool handled = true;
            for (int s : vs) if (disp[sigidx(s)] != HANDLER) handled = false;
            if (!handled)
            {
                for (int s : vs) { cppev::handle_signal(s, on_sig); disp[sigidx(s)] = HANDLER; }
                cx().log("t0:handle for suspend; ");
            }
            bool single = vs.size() == 1 && r.chance(1, 2);
            std::set<int> due;
            for (int s : vs) if (pend[t].count(s) || ppend.count(s)) due.insert(s);
            auto susp = [&] { if (single) cppev::thread_suspend_for_signal(*vs.begin()); else cppev::thread_suspend_for_signal(v); };
            int before = reci;
            int extra = 0;
            if (!due.empty())
            {
                on(t, susp);
            }
            else
            {
                if (t == 0) continue;
                int s = *vs.begin();
                // blocked before, so that it cannot be handled before the suspension
                on(t, [&] { cppev::thread_block_signal(v); });
                for (int x : vs) mask[t].insert(x);
                bool lurking = false;
                for (int q = 0; q < T; ++q) lurking = lurking || pend[q].count(s);
                if (lurking) continue;
                std::atomic<int> st{0};
                w[t].start([&] { st = 1; susp(); st = 2; });
                while (st == 0) sched_yield();
                // wait until it really sleeps
                double t0 = now();
                for (;;)
                {
                    char p[64], b[256] = {};
                    snprintf(p, sizeof p, "/proc/self/task/%d/stat", tids[t]);
                    FILE *f = fopen(p, "r");
                    if (f) { if (!fgets(b, sizeof b, f)) b[0] = 0; fclose(f); }
                    char *q = strrchr(b, ')');
                    if (q && q[2] == 'S') break;
                    if (st == 2) break;
                    PV_CHECK(now() - t0 < 30, "suspended thread never sleeps");
                    usleep(20);
                }
                PV_CHECK(st == 1, "suspending returned although no signal of the set was sent");
                // another signal, open in the old mask, must wait until afterwards
                for (int i = 0; i < NS; ++i)
                    if (!vs.count(SIGS[i]) && !mask[t].count(SIGS[i]) && disp[i] == HANDLER && r.chance(1, 2))
                    {
                        extra = SIGS[i];
                        break;
                    }
                if (extra)
                {
                    pthread_kill(w[t].t.native_handle(), extra);
                    usleep(400);
                    PV_CHECK(nrec == reci, "signal %d was handled while the thread was suspended for others", extra);
                    PV_CHECK(st == 1, "suspending returned for signal %d, which is not in the set", extra);
                }
                pthread_kill(w[t].t.native_handle(), s);
                w[t].wait();
                pend[t].insert(s);
                due.insert(s);
            }
            cx().log("t%d:suspend", t);
            for (int s : v) cx().log(" %d", s);
            if (extra) cx().log(" (and %d deferred)", extra);
            cx().log("; ");
            await_rec(before + 1);
            // at least one of those due ran, and nothing else
            int n = nrec;
            std::set<int> ran;
            for (; reci < n; ++reci)
            {
                int s = recs[reci].sig;
                if (s == extra && extra && !ran.empty()) { extra = 0; continue; }
                PV_CHECK(due.count(s), "signal %d was handled during a suspension for others", s);
                PV_CHECK(recs[reci].tid == tids[t], "a suspension was ended by a signal handled elsewhere");
                ran.insert(s);
                if (!pend[t].erase(s)) ppend.erase(s);
            }
            if (extra)
            {
                await_rec(reci + 1);
                PV_CHECK(recs[reci].sig == extra, "the deferred signal %d was not handled after the suspension", extra);
                ++reci;
            }
            // those of the set that did not run stay as they were: if they are open
            // in the restored mask they run now
            for (int s : due)
                if (!ran.count(s) && !mask[t].count(s)) { PV_CHECK(false, "an open signal was pending before the suspension"); }
            ++suspends;
        }
        else
        {
            // thread ids
            on(t, [&] { PV_CHECK((int)cppev::gettid() == tids[t], "gettid() gave %d on thread %d", (int)cppev::gettid(), tids[t]); });
            cx().log("t%d:gettid; ", t);
            if (r.chance(1, 3))
            {
                std::string e;
                on(t, [&] {
                    fflush(stdout);
                    pid_t p = fork();
                    if (p == 0)
                    {
                        prctl(PR_SET_PDEATHSIG, SIGKILL);
                        bool ok = cppev::gettid() == getpid();
                        _exit(ok ? 0 : 1);
                    }
                    int st = 0;
                    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                    PV_CHECK(st == 0, "gettid() in a child forked from thread %d does not give the child's id", t);
                });
                cx().log("forked; ");
            }
        }
        // the system's view equals the model, and the queries report it
        for (int q = 0; q < T; ++q)
            on(q, [&, q] {
                std::set<int> m = mask_of(), p = pend_of();
                PV_CHECK(m == mask[q], "thread %d has mask %s, expected %s", q, showset(m).c_str(), showset(mask[q]).c_str());
                std::set<int> ep = pend[q];
                ep.insert(ppend.begin(), ppend.end());
                PV_CHECK(p == ep, "thread %d has pending %s, expected %s", q, showset(p).c_str(), showset(ep).c_str());
                for (int s : {SIGUSR1, SIGUSR2, SIGHUP, SIGWINCH, SIGALRM, SIGTERM, SIGURG, SIGCONT, SIGINT, SIGCHLD, SIGRTMIN + 2, SIGRTMAX, SIGRTMIN + 3})
                {
                    PV_CHECK(cppev::thread_check_signal_mask(s) == (m.count(s) > 0), "thread_check_signal_mask(%d) is wrong on thread %d", s, q);
                    PV_CHECK(cppev::thread_check_signal_pending(s) == (p.count(s) > 0), "thread_check_signal_pending(%d) is wrong on thread %d", s, q);
                }
            });
        for (int s = 1; s < 65; ++s)
        {
            struct sigaction a;
            if (sigaction(s, nullptr, &a) != 0) continue;
            int k = sigidx(s);
            void (*exp)(int) = k >= 0 ? (disp[k] == HANDLER ? on_sig : disp[k] == IGN ? SIG_IGN : SIG_DFL) : others[s].sa_handler;
            PV_CHECK(a.sa_handler == exp, "the disposition of signal %d is not as set", s);
        }
        PV_CHECK(nrec == reci, "signal %d was handled although it was not due", (int)recs[reci].sig);
    }
    if (waits) cx().label("waited");
    if (suspends) cx().label("suspended");
    if (deferred) cx().label("pending signal released");
    cx().nontrivial(waits || suspends || deferred);
}
Reg r1({"signal-model", "histories of blocking, unblocking, raising, sending, installing, waiting, suspending and thread-id queries on three threads of a fresh process, masks, pending sets, dispositions and handler runs compared with a model after each step; non-trivial: a wait, a suspension or the release of a pending signal",
        9, 16, 1, 34, 50000, 400000, FORKED, 30, masks});

// -------------------------------------------------- processes and groups
void procs(const Case &c)
{
    Src h(c.hdr);
    struct P { pid_t pid; pid_t pg; int state; bool exists, zombie, lead; int fd; };
    std::vector<P> ps;
    // children in groups; each reports the signals it gets through a pipe
    int ng = (int)h.range(1, 2), np = (int)h.range(1, 4);
    std::vector<pid_t> leaders;
    static const int hs[] = {SIGUSR1, SIGUSR2, SIGHUP, SIGTERM};
    struct Cleanup { std::vector<P> &ps; ~Cleanup() { for (auto &p : ps) if (p.exists) { kill(p.pid, SIGKILL); waitpid(p.pid, nullptr, 0); } } } cl{ps};
    for (int i = 0; i < np; ++i)
    {
        int fd[2];
        PV_CHECK(pipe(fd) == 0, "pipe");
        pid_t lead = i < ng ? 0 : leaders[i % ng];
        sigset_t all, old;
        sigfillset(&all);
        sigprocmask(SIG_SETMASK, &all, &old);
        pid_t p = fork();
        if (p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, lead);
            close(fd[0]);
            sigset_t s;
            sigemptyset(&s);
            for (int x : hs) sigaddset(&s, x);
            char ready = 1;
            if (write(fd[1], &ready, 1) != 1) _exit(1);
            for (;;)
            {
                int g = 0;
                if (sigwait(&s, &g)) continue;
                unsigned char b = (unsigned char)g;
                if (write(fd[1], &b, 1) != 1) _exit(1);
            }
        }
        setpgid(p, lead);
        sigprocmask(SIG_SETMASK, &old, nullptr);
        close(fd[1]);
        if (lead == 0) leaders.push_back(p);
        ps.push_back({p, lead ? lead : p, 0, true, false, lead == 0, fd[0]});
        char b;
        PV_CHECK(read(fd[0], &b, 1) == 1, "child did not start");
    }
    auto expect = [&](P &p, int sig) {
        unsigned char b = 0;
        ssize_t n;
        while ((n = read(p.fd, &b, 1)) < 0 && errno == EINTR) {}
        PV_CHECK(n == 1 && b == sig, "process got signal %d, expected %d", n == 1 ? b : -1, sig);
    };
    int sends = 0, ends = 0;
    for (auto &ow : c.ops)
    {
        Src r(ow);
        size_t op = r.weighted({4, 3, 2, 2, 3, 1});
        P &p = ps[r.range(0, ps.size() - 1)];
        int sig = hs[r.range(0, 3)];
        if (op == 0)
        {
            if (!p.exists || p.zombie) continue;
            cppev::send_signal(p.pid, sig);
            expect(p, sig);
            cx().log("send %d; ", sig);
            ++sends;
        }
        else if (op == 1)
        {
            int alive = 0;
            for (auto &q : ps) alive += q.exists && q.pg == p.pg;
            if (!alive) continue;
            cppev::send_signal(-p.pg, sig);
            for (auto &q : ps) if (q.exists && !q.zombie && q.pg == p.pg) expect(q, sig);
            cx().log("group send %d; ", sig);
            ++sends;
        }
        else if (op == 2)
        {
            if (!p.exists || p.zombie) continue;
            cppev::send_signal(p.pid, SIGKILL);
            siginfo_t si;
            while (waitid(P_PID, p.pid, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR) {}
            PV_CHECK(si.si_code == CLD_KILLED && si.si_status == SIGKILL, "SIGKILL did not end the process as sent");
            p.zombie = true;
            cx().log("kill; ");
            ++ends;
        }
        else if (op == 3)
        {
            if (!p.exists || !p.zombie) continue;
            waitpid(p.pid, nullptr, 0);
            p.exists = false;
            close(p.fd);
            cx().log("reap; ");
        }
        else if (op == 4)
        {
            // pids are not reused this quickly
            PV_CHECK(cppev::check_process(p.pid) == p.exists, "check_process says %d for a process that %s", (int)!p.exists, p.exists ? (p.zombie ? "has ended but is not reaped" : "runs") : "is gone");
            bool g = false;
            for (auto &q : ps) g = g || (q.exists && q.pg == p.pg);
            PV_CHECK(cppev::check_process_group(p.pg) == g, "check_process_group says %d for a group that %s", (int)!g, g ? "exists" : "is gone");
            PV_CHECK(cppev::check_process(getpid()), "check_process denies the caller");
            cx().log("check; ");
        }
        else
        {
            bool t1 = false, t2 = false, t3 = false;
            try { cppev::send_signal(p.pid, 0); } catch (const std::exception &) { t1 = true; }
            if (!p.exists) { try { cppev::send_signal(p.pid, SIGTERM); } catch (const std::system_error &e) { t2 = e.code().value() == ESRCH; } }
            else t2 = true;
            if (p.exists && !p.zombie) { try { cppev::send_signal(p.pid, 1000); } catch (const std::system_error &e) { t3 = e.code().value() == EINVAL; } }
            else t3 = true;
            PV_CHECK(t1, "sending signal 0 was accepted");
            PV_CHECK(t2, "sending to a process that is gone was not reported");
            PV_CHECK(t3, "sending an invalid signal number was not reported");
            bool t4 = false;
            try { cppev::handle_signal(SIGKILL, on_sig); } catch (const std::exception &) { t4 = true; }
            PV_CHECK(t4, "installing a handler for SIGKILL was accepted");
            cx().log("errors; ");
        }
        // nobody got anything it should not
        for (auto &q : ps)
            if (q.exists && !q.zombie)
            {
                fd_set f;
                FD_ZERO(&f);
                FD_SET(q.fd, &f);
                timeval tv = {0, 0};
                PV_CHECK(select(q.fd + 1, &f, nullptr, nullptr, &tv) == 0, "a process got a signal that was sent to another one");
            }
    }
    cx().nontrivial(sends && np > 1);
    if (ends) cx().label("process ended");
    if (ng > 1 && np > 1) cx().label("two groups");
}
Reg r2({"process-model", "1-4 child processes in 1-2 groups; sends to a process or a group, kills, reaps, existence checks and errors against a model; non-trivial: something was sent with more than one process alive",
        3, 4, 1, 20, 10000, 100000, FORKED, 30, procs});
}
