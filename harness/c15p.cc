// C15 between processes.
#include "engine.h"
#include "cppev/lock.h"
#include <atomic>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
struct Sh
{
    alignas(64) char lk[256], c1[256], c2[256], fence[512], barrier[512];
    long data[4];
    int v, tokens;
    std::atomic<int> opening, arrived, passed, refused, go, taken, nerr, inside;
    char err[512];
};
Sh *sh;
void bad(const char *f, int a = 0, int b = 0)
{
    int z = 0;
    if (sh->nerr.compare_exchange_strong(z, 1)) snprintf(sh->err, sizeof sh->err, f, a, b);
}
void pauseus(int us)
{
    if (us == 1) sched_yield();
    else if (us > 1) usleep(us);
}
const int US[] = {0, 0, 1, 1, 20, 100, 500, 1500};

void body(const Case &c)
{
    Src h(c.hdr);
    int np = (int)h.range(2, 5), nt = (int)h.range(1, 2), total = np * nt;
    sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh->lk, 0x5a, sizeof sh->lk + sizeof sh->c1 + sizeof sh->c2 + sizeof sh->fence + sizeof sh->barrier);
    pshared_lock &lk = *new (sh->lk) pshared_lock();
    pshared_cond &level = *new (sh->c1) pshared_cond(), &token = *new (sh->c2) pshared_cond();
    pshared_one_time_fence &fence = *new (sh->fence) pshared_one_time_fence();
    int kind = (int)h.range(0, 3);      // condition by level, by tokens, fence, barrier
    int extra = h.chance(1, 2) ? (int)h.range(1, total - 1) : 0;
    int nb = total - extra;
    pshared_barrier &barrier = *new (sh->barrier) pshared_barrier(nb);
    static const char *N[] = {"levels", "tokens", "fence", "barrier"};
    cx().log("%s: %d processes of %d threads", N[kind], np, nt);
    if (kind == 3) cx().log(", barrier of %d", nb);
    std::vector<std::vector<std::pair<int, int>>> sc(total);
    for (auto &w : c.ops)
    {
        Src s(w);
        int who = (int)s.range(0, total - 1);
        sc[who].push_back({(int)s.range(0, 3), US[s.range(0, 7)]});
        cx().log(" %d:%d/%dus", who, sc[who].back().first, sc[who].back().second);
    }
    int delay = US[h.range(0, 7)];
    int want = 0;
    for (int k = 1; k < total; ++k) for (auto &x : sc[k]) want += x.first < 3;
    auto one = [&](int k) {
        if (kind < 2)
        {
            // thread 0 of process 0 raises the level and gives the tokens
            if (k == 0)
            {
                pauseus(delay);
                for (int i = 0; i < want + 4; ++i)
                {
                    if (!sc[0].empty()) pauseus(sc[0][i % sc[0].size()].second);
                    std::unique_lock<pshared_lock> g(lk);
                    ++sh->v;
                    ++sh->tokens;
                    if (i & 1) { level.notify_all(); token.notify_one(); }
                    else { g.unlock(); level.notify_all(); token.notify_one(); }
                }
                return;
            }
            for (auto &x : sc[k])
            {
                pauseus(x.second);
                if (x.first == 3) continue;
                std::unique_lock<pshared_lock> g(lk);
                if (kind == 0)
                {
                    int need = std::min(x.first + 1, want);
                    level.wait(g, [&] { return sh->v >= need; });
                    if (sh->v < need) bad("a wait for %d returned at %d", need, sh->v);
                }
                else
                {
                    token.wait(g, [&] { return sh->tokens > 0; });
                    if (sh->tokens < 1) bad("a wait for a token returned without one");
                    --sh->tokens;
                    sh->taken++;
                }
            }
        }
        else if (kind == 2)
        {
            if (k == 0)
            {
                pauseus(delay);
                for (auto &x : sc[0]) pauseus(x.second);
                for (int i = 0; i < 4; ++i) sh->data[i] = 7 + i;
                sh->opening = 1;
                fence.notify();
                if (!fence.ok()) bad("a fence is not open after it was opened");
                return;
            }
            for (size_t i = 0; i <= sc[k].size(); ++i)
            {
                if (i) pauseus(sc[k][i - 1].second);
                fence.wait();
                if (!sh->opening) bad("a wait on a fence returns before it is opened");
                for (int j = 0; j < 4; ++j) if (sh->data[j] != 7 + j) bad("what was written before the opening is not there");
                if (!fence.ok()) bad("a fence is not open after a wait on it");
            }
        }
        else
        {
            for (auto &x : sc[k]) pauseus(x.second);
            sh->arrived++;
            try { barrier.wait(); }
            catch (const std::logic_error &) { sh->refused++; return; }
            if (sh->arrived < nb) bad("a barrier of %d lets a waiter through after %d arrivals", nb, sh->arrived);
            sh->passed++;
        }
    };
    auto proc = [&](int p) {
        while (!sh->go.load()) { }
        std::vector<std::thread> t;
        auto safe = [&](int k) {
            try { one(k); } catch (const std::exception &e) { bad("an operation failed (thread %d)", k); fprintf(stderr, "%s\n", e.what()); }
        };
        for (int k = 1; k < nt; ++k) t.emplace_back([&, k] { safe(p * nt + k); });
        safe(p * nt);
        for (auto &x : t) x.join();
    };
    std::vector<pid_t> kids;
    for (int p = 1; p < np; ++p)
    {
        pid_t pid = fork();
        PV_CHECK(pid >= 0, "fork failed");
        if (pid == 0) { proc(p); _exit(0); }
        kids.push_back(pid);
    }
    sh->go = 1;
    proc(0);
    for (pid_t p : kids)
    {
        int st;
        while (waitpid(p, &st, 0) < 0) { }
        PV_CHECK(st == 0, "a process ended with status %d", st);
    }
    PV_CHECK(!sh->nerr, "%s", sh->err);
    if (kind == 1) PV_CHECK(sh->taken == want, "%d tokens taken, %d waits", sh->taken.load(), want);
    if (kind == 3) PV_CHECK(sh->passed == nb && sh->refused == total - nb, "of %d arrivals at a barrier of %d %d passed and %d got an error", total, nb, sh->passed.load(), sh->refused.load());
    cx().label(N[kind]);
    cx().nontrivial(kind >= 2 || want > 0);
}
Reg r({"between-processes", "up to 5 processes of 1 or 2 threads waiting, notifying, opening or arriving in shared memory, on the system's schedule; non-trivial when somebody waits",
       7, 3, 0, 20, 6000, 150000, FORKED, 12, body, CONCLUSIVE});
}
