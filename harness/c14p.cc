// C14: the process-shared kinds between processes.
#include "engine.h"
#include "cppev/lock.h"
#include <atomic>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
struct Sh
{
    alignas(64) char store[4][256];
    std::atomic<int> rd[4], wr[4];
    volatile long data[4];
    std::atomic<long> writes[4];
    std::atomic<int> waits, busy, go;
    std::atomic<int> nerr;
    char err[512];
};
Sh *sh;
void bad(const char *f, int l)
{
    int z = 0;
    if (sh->nerr.compare_exchange_strong(z, 1)) snprintf(sh->err, sizeof sh->err, f, l);
}
struct Op
{
    int lock, how, wr, us;
};
int kind[4];
pshared_lock &mx(int i) { return *(pshared_lock *)sh->store[i]; }
pshared_rwlock &rw(int i) { return *(pshared_rwlock *)sh->store[i]; }

void pauseus(int us)
{
    if (us == 0) return;
    if (us < 5) { sched_yield(); return; }
    usleep(us);
}
void hold(const Op &o, bool wr)
{
    int i = o.lock;
    if (wr)
    {
        if (sh->wr[i].fetch_add(1) != 0) bad("lock %d has two exclusive holders", i);
        if (sh->rd[i].load() != 0) bad("lock %d is held for writing and for reading", i);
        long d = sh->data[i];
        pauseus(o.us);
        if (sh->data[i] != d) bad("what lock %d guards changes under its holder", i);
        sh->data[i] = d + 1;
        sh->writes[i].fetch_add(1);
        if (sh->rd[i].load() != 0) bad("lock %d is held for writing and for reading", i);
        if (sh->wr[i].fetch_sub(1) != 1) bad("lock %d has two exclusive holders", i);
    }
    else
    {
        sh->rd[i].fetch_add(1);
        if (sh->wr[i].load() != 0) bad("lock %d is held for reading and for writing", i);
        pauseus(o.us);
        if (sh->wr[i].load() != 0) bad("lock %d is held for reading and for writing", i);
        sh->rd[i].fetch_sub(1);
    }
}
void perform(const std::vector<Op> &ops)
{
    for (auto &o : ops)
    {
        int i = o.lock;
        bool wr = kind[i] == 0 || o.wr;
        if (sh->wr[i].load()) sh->waits++;
        if (kind[i] == 0)
        {
            if (o.how == 0) { std::unique_lock<pshared_lock> g(mx(i)); hold(o, true); }
            else if (o.how == 1)
            {
                if (mx(i).try_lock()) { hold(o, true); mx(i).unlock(); }
                else sh->busy++;
            }
            else { mx(i).lock(); hold(o, true); mx(i).unlock(); }
            if (o.us % 7 == 3)
            {
                bool threw = false;
                try { mx(i).unlock(); } catch (const std::exception &) { threw = true; }
                if (!threw) bad("mutex %d unlocked by one who does not own it, unreported", i);
            }
        }
        else if (o.how == 0)
        {
            if (wr) { wrlockguard g(rw(i)); hold(o, true); }
            else { rdlockguard g(rw(i)); hold(o, false); }
        }
        else if (o.how == 1)
        {
            if (wr ? rw(i).try_wrlock() : rw(i).try_rdlock()) { hold(o, wr); rw(i).unlock(); }
            else sh->busy++;
        }
        else
        {
            if (wr) rw(i).wrlock(); else rw(i).rdlock();
            hold(o, wr);
            rw(i).unlock();
        }
    }
}
void body(const Case &c)
{
    Src h(c.hdr);
    int np = (int)h.range(1, 4), nt = (int)h.range(1, 2), nl = (int)h.range(1, 3);
    sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < nl; ++i)
    {
        kind[i] = (int)h.range(0, 1);
        memset(sh->store[i], 0x5a, sizeof sh->store[i]);
        if (kind[i] == 0) new (sh->store[i]) pshared_lock(); else new (sh->store[i]) pshared_rwlock();
    }
    std::vector<std::vector<Op>> sc(np * nt);
    cx().log("%d processes of %d threads:", np, nt);
    for (auto &w : c.ops)
    {
        Src s(w);
        int who = (int)s.range(0, np * nt - 1);
        static const int US[] = {0, 0, 1, 1, 30, 200, 1000, 38};
        Op o{(int)s.range(0, nl - 1), (int)s.range(0, 2), (int)s.range(0, 1), US[s.range(0, 7)]};
        sc[who].push_back(o);
        cx().log(" %d:%s%d%s%dus", who, o.how == 0 ? "guard" : o.how == 1 ? "try" : "lock", o.lock, kind[o.lock] == 0 ? "m" : o.wr ? "w" : "r", o.us);
    }
    std::vector<pid_t> kids;
    auto proc = [&](int p) {
        while (!sh->go.load()) { }
        std::vector<std::thread> t;
        auto one = [&](int k) {
            try { perform(sc[k]); }
            catch (const std::exception &e) { bad("an operation failed (process and thread %d)", k); fprintf(stderr, "%s\n", e.what()); }
        };
        for (int k = 1; k < nt; ++k) t.emplace_back([&, k] { one(p * nt + k); });
        one(p * nt);
        for (auto &x : t) x.join();
    };
    for (int p = 1; p < np; ++p)
    {
        pid_t pid = fork();
        PV_CHECK(pid >= 0, "fork failed");
        if (pid == 0) { proc(p); _exit(0); }
        kids.push_back(pid);
    }
    sh->go = 1;
    proc(0);
    for (pid_t p : kids)
    {
        int st;
        while (waitpid(p, &st, 0) < 0) { }
        PV_CHECK(st == 0, "a process ended with status %d", st);
    }
    PV_CHECK(!sh->nerr, "%s", sh->err);
    for (int i = 0; i < nl; ++i)
    {
        PV_CHECK(sh->data[i] == sh->writes[i], "what lock %d guards was changed %ld times, %ld changes are left", i, sh->writes[i].load(), (long)sh->data[i]);
        PV_CHECK(kind[i] == 0 ? mx(i).try_lock() : rw(i).try_wrlock(), "lock %d is still held when everybody is through", i);
    }
    if (sh->waits) cx().label("found it held");
    if (sh->busy) cx().label("try refused");
    if (np > 1) cx().label("processes");
    cx().nontrivial(np > 1 && c.ops.size() >= 3);
}
Reg r({"locks-processes", "scripts of up to 4 processes of 1 or 2 threads over up to 3 locks in shared memory, on the system's schedule; non-trivial with several processes and three operations",
       6, 5, 0, 24, 4000, 100000, FORKED, 12, body, CONCLUSIVE});
}
