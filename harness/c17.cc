// C17: named semaphores: token accounting over handles, threads and processes.
#include "dsched.h"
#include "cppev/ipc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace pv;
typedef cppev::semaphore Sem;

namespace
{
std::string name_of(int k) { return "/" + tag() + ".s" + std::to_string(k); }
std::string file_of(int k) { return "/dev/shm/sem." + name_of(k).substr(1); }
int mapped()
{
    FILE *f = fopen("/proc/self/maps", "r");
    char line[600];
    int n = 0;
    std::string want = "/dev/shm/sem.";    // the creator maps it under another name
    while (fgets(line, sizeof line, f)) n += strstr(line, want.c_str()) != nullptr;
    fclose(f);
    return n;
}
// the value, from the file
int value(int k)
{
    int fd = open(file_of(k).c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return -1;
    sem_t *s = (sem_t *)mmap(nullptr, sizeof(sem_t), PROT_READ, MAP_SHARED, fd, 0);
    close(fd);
    int v = -1;
    sem_getvalue(s, &v);
    munmap(s, sizeof(sem_t));
    return v;
}

#if PV_DSCHED
// ---- threads under a schedule ----------------------------------------------
struct Act { int what, n, k; };
struct World
{
    int n;
    long taken[2] = {0, 0}, released[2] = {0, 0}, begun[2] = {0, 0}, inside[2] = {0, 0};
    std::unique_ptr<Sem> sem[2];
    std::vector<Act> script[6];
};
World *W;
void *thr(void *a)
{
    int t = (int)(intptr_t)a;
    // some have a handle of their own, some share
    std::unique_ptr<Sem> own[2];
    for (int k = 0; k < 2; ++k) if (t % 2) own[k].reset(new Sem(name_of(k)));
    for (auto &x : W->script[t])
    {
        Sem &s = own[x.k] ? *own[x.k] : *W->sem[x.k];
        if (x.what == 0)
        {
            { ds::Quiet q; ++W->inside[x.k]; }
            if (x.n == 1) s.acquire();
            else s.acquire(x.n);
            ds::Quiet q;
            --W->inside[x.k];
            W->taken[x.k] += x.n;
            if (W->taken[x.k] > W->begun[x.k]) cx().soft_fail("%ld tokens taken, %ld released", W->taken[x.k], W->begun[x.k]);
        }
        else if (x.what == 1)
        {
            { ds::Quiet q; W->begun[x.k] += x.n; }
            if (x.n == 1) s.release();
            else s.release(x.n);
            ds::Quiet q;
            W->released[x.k] += x.n;
        }
        else
        {
            bool got = s.try_acquire();
            ds::Quiet q;
            if (got) ++W->taken[x.k];
            if (W->taken[x.k] > W->begun[x.k]) cx().soft_fail("%ld tokens taken, %ld released, after a try", W->taken[x.k], W->begun[x.k]);
        }
    }
    return nullptr;
}
void sched(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    W = new World();
    W->n = (int)h.range(2, 6);
    ds::sem_eintr = h.chance(1, 2) ? (int)h.range(1, 4) : 0;
    int start = (int)h.range(0, 3);
    cx().log("threads=%d start=%d%s", W->n, start, ds::sem_eintr ? " signals" : "");
    long need[2] = {0, 0}, give[2] = {start, start};
    for (auto &o : c.ops)
    {
        Src s(o);
        int t = (int)s.range(0, W->n - 1);
        Act a{(int)s.weighted({4, 4, 2}), (int)s.range(1, 4), (int)s.range(0, 1)};
        if (a.what == 2) a.n = 1;
        if (a.what != 1) need[a.k] += a.n;
        else give[a.k] += a.n;
        W->script[t].push_back(a);
        static const char *N[] = {"acquire", "release", "try"};
        cx().log(" %d:%s%d(%d)", t, N[a.what], a.k, a.n);
    }
    for (int k = 0; k < 2; ++k) sem_unlink(name_of(k).c_str());
    // the first thread releases what is missing at the end, so that all can go on
    ds::run(cfg, [&]() {
        for (int k = 0; k < 2; ++k) W->sem[k].reset(new Sem(name_of(k)));
        if (start) for (int k = 0; k < 2; ++k) { W->begun[k] += start; W->sem[k]->release(start); W->released[k] += start; }
        pthread_t pt[6];
        for (int i = 0; i < W->n; ++i) pthread_create(&pt[i], nullptr, thr, (void *)(intptr_t)i);
        ds::settle();
        // everybody waits or is done: nobody may wait for a token that is there
        {
            ds::Quiet q;
            for (int k = 0; k < 2; ++k)
            {
                int v = value(k);
                if (W->inside[k] && v > 0) cx().soft_fail("a thread waits for a token while %d are free", v);
                if (!W->inside[k] && v != W->released[k] - W->taken[k]) cx().soft_fail("nobody waits, %ld released, %ld taken, but %d are free", W->released[k], W->taken[k], v);
            }
        }
        for (int k = 0; k < 2; ++k)
        {
            long m = std::max(0l, need[k]);
            if (m)
            {
                { ds::Quiet q; W->begun[k] += m; }
                W->sem[k]->release((int)m);
                ds::Quiet q;
                W->released[k] += m;
            }
        }
        for (int i = 0; i < W->n; ++i) pthread_join(pt[i], nullptr);
        for (int k = 0; k < 2; ++k)
        {
            int v = value(k);
            if (v != W->released[k] - W->taken[k]) cx().soft_fail("at the end %ld were released, %ld taken, but %d are free", W->released[k], W->taken[k], v);
        }
    });
    for (int k = 0; k < 2; ++k) W->sem[k].reset();
    if (mapped()) cx().soft_fail("%d semaphores are left mapped", mapped());
    for (int k = 0; k < 2; ++k) sem_unlink(name_of(k).c_str());
    if (ds::sem_interrupted) cx().label("interrupted waits");
    cx().nontrivial(need[0] + need[1] > 0 && c.ops.size() > 2);
}
Reg r({"threads", "up to 6 threads acquiring, trying and releasing tokens of two semaphores under a generated schedule with interrupted waits; non-trivial with 3 operations",
       ds::HDR + 6, 4, 0, 20, 15000, 400000, FORKED, 20, sched});
#else
// ---- histories of handles ------------------------------------------------
struct Obj { int v = 0, mode = 0; };
struct Hnd { std::unique_ptr<Sem> s; std::shared_ptr<Obj> o; int k = 0; bool creator = false; };
void noop(int) {}

void body(const Case &c)
{
    const int NS = 5, NN = 3;
    Hnd S[NS];
    std::shared_ptr<Obj> live[NN];
    for (int k = 0; k < NN; ++k) sem_unlink(name_of(k).c_str());
    auto fds0 = open_fds();
    int shared = 0, tokens = 0;
    auto verify = [&](const char *when) {
        std::map<Obj *, int> objs;
        for (auto &h : S) if (h.s) { ++objs[h.o.get()]; PV_CHECK(h.s->creator() == h.creator, "%s: a handle is %sthe creator", when, h.creator ? "not " : ""); }
        for (auto &x : objs) shared += x.second > 1;
        PV_CHECK(mapped() == (int)objs.size(), "%s: %d semaphores are mapped instead of %zu", when, mapped(), objs.size());
        PV_CHECK(open_fds() == fds0, "%s: descriptors are left open", when);
        for (int k = 0; k < NN; ++k)
        {
            if (live[k]) PV_CHECK(value(k) == live[k]->v, "%s: semaphore %d has %d tokens instead of %d", when, k, value(k), live[k]->v);
            struct stat st;
            if (live[k]) PV_CHECK(stat(file_of(k).c_str(), &st) == 0 && (int)(st.st_mode & 0777) == live[k]->mode, "%s: semaphore %d has the permissions %o instead of %o", when, k, (unsigned)(st.st_mode & 0777), (unsigned)live[k]->mode);
            else PV_CHECK(access(file_of(k).c_str(), F_OK) != 0, "%s: a semaphore exists that nobody made", when);
        }
    };
    for (auto &op : c.ops)
    {
        Src s(op);
        size_t what = s.weighted({6, 5, 4, 4, 3, 3, 3, 2, 2, 1});
        int i = (int)s.range(0, NS - 1), j = (int)s.range(0, NS - 1), k = (int)s.range(0, NN - 1), n = (int)s.skew(1, 40);
        uint32_t w = s.word();
        Hnd &h = S[i];
        if (w >> 8 & 1 && (w >> 9) % 16 == 5) n *= 1000 + (w >> 13) % 1500;
        switch (what)
        {
        case 0:
        {
            cx().log(" %d=open(%d)", i, k);
            h = Hnd();
            bool exists = (bool)live[k];
            // the permissions, which only the creator's opening gives
            static const int MODE[] = {0600, 0600, 0640, 0666, 0700, 0622}, MASK[] = {022, 0, 077};
            int m = (int)(w >> 20) % 6, um = MASK[(w >> 28) % 3];
            mode_t old = umask(um);
            h.s.reset(m ? new Sem(name_of(k), MODE[m]) : new Sem(name_of(k)));
            umask(old);
            if (!exists) { live[k] = std::make_shared<Obj>(); live[k]->mode = MODE[m] & ~um; }
            PV_CHECK(h.s->creator() == !exists, exists ? "a second creator" : "no creator");
            h.o = live[k];
            h.k = k;
            h.creator = !exists;
            break;
        }
        case 1:
            if (!h.s) break;
            cx().log(" %d:release(%d)", i, n);
            if (n == 1) h.s->release();
            else h.s->release(n);
            h.o->v += n;
            tokens += n;
            break;
        case 2:
            if (!h.s || h.o->v == 0) break;
            n = std::min(n, h.o->v);
            if (w & 1) n = h.o->v;
            cx().log(" %d:acquire(%d)", i, n);
            if (n == 1) h.s->acquire();
            else h.s->acquire(n);
            h.o->v -= n;
            break;
        case 3:
        {
            if (!h.s) break;
            cx().log(" %d:try", i);
            bool got = h.s->try_acquire();
            PV_CHECK(got == (h.o->v > 0), "a try with %d tokens free says %s", h.o->v, got ? "true" : "false");
            if (got) --h.o->v;
            break;
        }
        case 4:
            cx().log(" %d:destroy", i);
            h = Hnd();
            break;
        case 5:
        {
            if (!S[j].s || i == j) break;
            cx().log(" %d=moved(%d)", i, j);
            std::unique_ptr<Sem> m(new Sem(std::move(*S[j].s)));
            std::unique_ptr<Sem> old = std::move(S[j].s);
            h = Hnd();
            h = std::move(S[j]);
            h.s = std::move(m);
            S[j] = Hnd();
            PV_CHECK(!old->creator(), "a moved-from handle is a creator");
            if (w & 1) old.reset();
            else
            {
                // what it held belongs to another
                if (w & 2) try { old->unlink(); } catch (const std::exception &) {}
                verify("with the moved-from handle");
            }
            break;
        }
        case 6:
        {
            if (!S[j].s || !h.s) break;
            cx().log(" %d:=move(%d)", i, j);
            *h.s = std::move(*S[j].s);
            if (i == j) break;
            std::unique_ptr<Sem> t = std::move(h.s), old = std::move(S[j].s);
            h = std::move(S[j]);
            h.s = std::move(t);
            S[j] = Hnd();
            if (w & 4) try { old->unlink(); } catch (const std::exception &) {}
            if (w & 1) verify("with the moved-from handle");
            if (w & 2)
            {
                // used again
                bool exists = (bool)live[k];
                *old = Sem(name_of(k));
                PV_CHECK(old->creator() == !exists, "a moved-from handle assigned again: creator %d", (int)old->creator());
                if (!exists) { live[k] = std::make_shared<Obj>(); mode_t um = umask(022); umask(um); live[k]->mode = 0600 & ~um; }
                S[j].s = std::move(old);
                S[j].o = live[k];
                S[j].k = k;
                S[j].creator = !exists;
            }
            break;
        }
        case 7:
        {
            if (!h.s) break;
            cx().log(" %d:unlink", i);
            bool exists = (bool)live[h.k], threw = false;
            try { h.s->unlink(); } catch (const std::exception &) { threw = true; }
            PV_CHECK(threw == !exists, exists ? "unlinking failed" : "unlinking a name that is not there is not reported");
            live[h.k].reset();
            break;
        }
        case 8:
        {
            // has to wait for the rest, and is disturbed by signals meanwhile
            if (!h.s || h.o->v > 30) break;
            int more = 1 + w % 3, have = h.o->v;
            cx().log(" %d:acquire(%d) of %d", i, have + more, have);
            struct sigaction sa, oldsa;
            memset(&sa, 0, sizeof sa);
            sa.sa_handler = noop;
            sigaction(SIGALRM, &sa, &oldsa);
            itimerval it = {{0, 400}, {0, 200}};
            setitimer(ITIMER_REAL, &it, nullptr);
            struct Rel { Sem *s; int n; } rel{h.s.get(), more};
            pthread_t pt;
            sigset_t all, old;
            sigfillset(&all);
            pthread_sigmask(SIG_SETMASK, &all, &old);       // the other thread gets no signals
            pthread_create(&pt, nullptr, [](void *a) -> void * {
                Rel *r = (Rel *)a;
                for (int q = 0; q < r->n; ++q) { timespec t{0, 800000}; nanosleep(&t, nullptr); r->s->release(); }
                return nullptr;
            }, &rel);
            pthread_sigmask(SIG_SETMASK, &old, nullptr);
            std::string err;
            try { h.s->acquire(have + more); } catch (const std::exception &e) { err = e.what(); }
            pthread_join(pt, nullptr);
            it = itimerval();
            setitimer(ITIMER_REAL, &it, nullptr);
            sigaction(SIGALRM, &oldsa, nullptr);
            PV_CHECK(err.empty(), "a handled signal ends the acquiring: %s", err.c_str());
            h.o->v = 0;
            cx().label("waited under signals");
            break;
        }
        default:
        {
            // invalid names, no descriptors
            static const char *bad[] = {"", "/", "/a/b", "long"};
            bool threw = false;
            if (w % 2)
            {
                std::string nm = bad[w / 2 % 4];
                if (nm == "long") nm = "/" + std::string(300, 'x');
                cx().log(" open(\"%s\")", nm.substr(0, 9).c_str());
                try { Sem x(nm); } catch (const std::exception &) { threw = true; }
                PV_CHECK(threw, "opening \"%s\" succeeds", nm.c_str());
            }
            else
            {
                cx().log(" open(%d)!", k);
                rlimit old;
                getrlimit(RLIMIT_NOFILE, &old);
                int lim = 0;
                while (fcntl(lim, F_GETFD) != -1) ++lim;
                rlimit nl = old;
                nl.rlim_cur = lim;
                setrlimit(RLIMIT_NOFILE, &nl);
                try { Sem x(name_of(k)); } catch (const std::exception &) { threw = true; }
                setrlimit(RLIMIT_NOFILE, &old);
                bool held = false;
                for (auto &x : S) held |= x.s && x.o == live[k];
                if (!live[k] || !held) PV_CHECK(threw, "an opening without descriptors succeeds");
            }
        }
        }
        verify("after that");
    }
    for (auto &h : S) h = Hnd();
    for (int k = 0; k < NN; ++k)
    {
        if (!live[k]) continue;
        { Sem s(name_of(k)); PV_CHECK(!s.creator() && value(k) == live[k]->v, "tokens do not outlive their handles"); s.unlink(); }
        Sem s(name_of(k));
        PV_CHECK(s.creator() && !s.try_acquire(), "an opening after unlinking is not a fresh one");
        s.unlink();
    }
    PV_CHECK(mapped() == 0, "%d semaphores are left mapped", mapped());
    cx().nontrivial(shared && tokens);
}
Reg r({"handles", "histories of opening, acquiring, trying, releasing, moving, unlinking and destroying handles on 3 names, and of waiting under signals, against token counts and the process's maps; non-trivial if two handles share a semaphore with tokens",
       0, 12, 6, 40, 10000, 250000, FORKED, 20, body});

// ---- processes -------------------------------------------------------------
struct Ctl
{
    std::atomic<int> go, creators, bad, ready, done;
    std::atomic<long> taken, begun, released;
    char msg[300];
};
void procs(const Case &c)
{
    Src h(c.hdr);
    int n = (int)h.range(2, 5), pest = h.chance(1, 2);
    uint64_t sd = h.word();
    int start = (int)h.range(0, 4);
    cx().log("processes=%d start=%d%s", n, start, pest ? " signals" : "");
    struct Act { int what, n; };
    std::vector<std::vector<Act>> script(n);
    long need = 0;
    for (auto &o : c.ops)
    {
        Src s(o);
        int t = (int)s.range(0, n - 1);
        Act a{(int)s.weighted({4, 4, 2}), (int)s.range(1, 5)};
        if (a.what == 2) a.n = 1;
        if (a.what != 1) need += a.n;
        cx().log(" %d:%s%d", t, a.what == 0 ? "acquire" : a.what == 1 ? "release" : "try", a.n);
        script[t].push_back(a);
    }
    sem_unlink(name_of(7).c_str());
    Ctl *q = new (mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Ctl();
    std::vector<pid_t> pid(n);
    for (int i = 0; i < n; ++i)
    {
        uint64_t my = splitmix(sd);
        pid[i] = fork();
        if (pid[i]) continue;
        auto bad = [&](const std::string &m) { if (q->bad.exchange(1) == 0) snprintf(q->msg, sizeof q->msg, "process %d: %s", i, m.c_str()); _exit(1); };
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = noop;
        sigaction(SIGUSR1, &sa, nullptr);
        ++q->ready;
        while (!q->go) sched_yield();
        for (uint64_t k = my % 2000; k; --k) asm volatile("");
        try
        {
            Sem s(name_of(7));
            q->creators += s.creator();
            auto over = [&](const char *w) {
                long t = q->taken, b = q->begun;
                if (t > b) bad(std::string(w) + ": " + std::to_string(t) + " tokens taken, " + std::to_string(b) + " released");
            };
            for (auto &a : script[i])
            {
                if (a.what == 0) { s.acquire(a.n); q->taken += a.n; over("acquire"); }
                else if (a.what == 1) { q->begun += a.n; s.release(a.n); q->released += a.n; }
                else if (s.try_acquire()) { ++q->taken; over("try"); }
            }
        }
        catch (const std::exception &e) { bad(e.what()); }
        ++q->done;
        _exit(0);
    }
    while (q->ready < n && !q->bad) usleep(50);
    q->go = 1;
    std::string err;
    {
        Sem s(name_of(7));
        q->creators += s.creator();
        long m = start + need;
        q->begun += m;
        int left = n;
        for (int k = 0; left; ++k)
        {
            // give what is needed bit by bit
            if (m > 0) { int g = (int)std::min<long>(m, 1 + splitmix(sd) % 3); s.release(g); q->released += g; m -= g; }
            if (pest && k < 400) for (int i = 0; i < n; ++i) if (pid[i] > 0) kill(pid[i], SIGUSR1);
            int st = 0;
            pid_t p;
            while ((p = waitpid(-1, &st, WNOHANG)) > 0)
            {
                --left;
                for (auto &x : pid) if (x == p) x = -1;
                if (st && err.empty()) err = q->bad ? q->msg : "a process ended with status " + std::to_string(st);
                if (!err.empty()) for (auto &x : pid) if (x > 0) kill(x, SIGKILL);
            }
            usleep(m > 0 ? 30 : 150);
        }
        PV_CHECK(err.empty(), "%s", err.c_str());
        PV_CHECK(q->creators == 1, "%d creators", (int)q->creators);
        while (m > 0) { s.release(); q->released += 1; --m; }
        PV_CHECK(value(7) == q->released - q->taken, "%ld were released, %ld taken, but %d are free", (long)q->released, (long)q->taken, value(7));
        s.unlink();
    }
    munmap(q, 4096);
    cx().nontrivial(need > 0);
}
Reg r2({"processes", "2 to 5 processes acquiring, trying and releasing tokens of one semaphore they open at once, partly showered with signals; non-trivial if any token is asked for",
        8, 3, 0, 16, 1500, 40000, FORKED, 20, procs, CONCLUSIVE});
#endif
}
