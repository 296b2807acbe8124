// C20: managing subprocesses: state, signals, descriptors, failures.
#include "sub.h"
#include "cppev/subprocess.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
int g_forkfail = 0;             // errno of the next forks, 0 = none
int g_forkfailed = 0;
std::set<pid_t> *g_gone;        // reaped: the number may be anybody's
bool g_strange = false;
int g_eintr = 0;
}
extern "C" pid_t fork(void)
{
    if (g_forkfail) { ++g_forkfailed; errno = g_forkfail; return -1; }
    static auto f = (pid_t(*)(void))dlsym(RTLD_NEXT, "fork");
    return f();
}
extern "C" int kill(pid_t p, int s) noexcept
{
    if (g_gone && g_gone->count(p)) { g_strange = true; errno = ESRCH; return -1; }
    return (int)syscall(SYS_kill, p, s);
}

namespace
{
void rkill(pid_t p, int s) { syscall(SYS_kill, p, s); }
int hreap(pid_t p)
{
    int st = -1;
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) return -1;
    return st;
}
bool ends_within(pid_t p, double s)
{
    double end = now() + s;
    while (!ended(p)) { if (now() > end) return false; usleep(500); }
    return true;
}
// runs the program, or has ended; stopped before, it would keep everything it inherited
char state_of(pid_t p)
{
    char st = 'Z';
    if (FILE *f = fopen(("/proc/" + std::to_string(p) + "/stat").c_str(), "re"))
    {
        if (fscanf(f, "%*d %*[^)]) %c", &st) != 1) st = 'Z';
        fclose(f);
    }
    return st;
}
bool started(pid_t p)
{
    char a[400], b[400];
    ssize_t n = readlink(("/proc/" + std::to_string(p) + "/exe").c_str(), a, sizeof a), m = readlink("/proc/self/exe", b, sizeof b);
    return n < 0 || n != m || memcmp(a, b, n);
}
std::vector<int> inheritable()
{
    std::vector<int> v;
    for (int f : open_fds()) if (f > 2 && !(fcntl(f, F_GETFD) & FD_CLOEXEC)) v.push_back(f);
    std::sort(v.begin(), v.end());
    return v;
}
std::string fdlist;             // what every child may have

struct Slot
{
    std::unique_ptr<subp_open> o;
    Cmd k;
    std::string plan;
    size_t given = 0;
    bool stopped = false, done = false, told = false;
    std::set<int> sigs;
    int status = 0;
    pid_t pid = -1;
    bool fatal() const { for (int s : sigs) if (s != SIGSTOP && s != SIGCONT) return true; return false; }
    bool bound_to_end() const { return !stopped && (fatal() || (!k.lingers && given >= k.reads)); }
};

Cmd program(Src &s, std::string &plan, bool may_linger)
{
    Cmd k;
    uint64_t r = s.word();
    int n = (int)(r % 5);
    size_t unit = (size_t)s.skew(0, 100000);
    bool eof = s.chance(1, 5);
    k.args.push_back("F");
    for (int i = 0; i < n; ++i)
    {
        uint64_t q = splitmix(r);
        std::string sd = "," + std::to_string((q >> 8) % 1000) + ",0," + std::to_string((q >> 20) % 3 ? 0 : 3000);
        size_t len = unit ? (q >> 24) % (unit + 1) : 0;
        switch (q % 7)
        {
        case 0: k.args.push_back("o" + std::to_string(len) + sd); break;
        case 1: k.args.push_back("e" + std::to_string(len) + sd); break;
        case 2: k.args.push_back("r" + std::to_string(len)); k.reads += len; break;
        case 3: k.args.push_back("O"); break;
        case 4: k.args.push_back("E"); break;
        case 5: k.args.push_back("s" + std::to_string((q >> 8) % 5)); break;
        default: k.args.push_back((q >> 8) & 1 ? "H" : (q >> 9) & 1 ? "d" : "ci"); break;
        }
        if (k.args.back() == "ci") { k.args.push_back("s1"); eof = false; break; }
    }
    if (eof) k.args.push_back("R");     // only the end of its input lets it go on
    int code = (int)s.range(0, 255);
    size_t end = s.weighted({3, 2, 2});
    if (!may_linger && end == 2) end = 0;
    if (end == 1) k.args.push_back("k" + std::to_string(code % 2 ? SIGTERM : SIGABRT));
    else if (end == 2) k.args.push_back("z");
    else k.args.push_back("x" + std::to_string(code));
    plan = sub_data(k.reads, r, 0);
    Cmd e = k;
    expect(e, plan);
    k.out = fdlist + e.out;
    k.err = e.err;
    k.code = e.code;
    k.sig = e.sig;
    k.lingers = e.lingers || eof;
    return k;
}
void prefix(const Slot &s, int i, bool whole)
{
    std::string o = s.o->stdout(), e = s.o->stderr();
    auto bad = [&](const char *w, const std::string &got, const std::string &want) {
        if (got.size() > want.size() || want.compare(0, got.size(), got) != 0 || (whole && got.size() != want.size()))
            cx().fail("%s of subprocess %d is \"%s\" (%zu), expected %s\"%s\" (%zu)", w, i, show(got, 50).c_str(), got.size(), whole ? "" : "a part of ", show(want, 50).c_str(), want.size());
    };
    bad("standard output", o, s.k.out);
    bad("standard error", e, s.k.err);
}
void status_ok(Slot &s, int i)
{
    int st = s.o->returncode();
    bool own = s.k.right(st) && !(s.k.lingers && s.o);
    if (s.k.lingers) own = false;
    bool by = WIFSIGNALED(st) && s.sigs.count(WTERMSIG(st));
    PV_CHECK(own || by, "subprocess %d ended with %s, expected exit code %d, signal %d or one of %zu sent", i, status_text(st).c_str(), s.k.code, s.k.sig, s.sigs.size());
    if (s.told) PV_CHECK(st == s.status, "the status of subprocess %d changes from %s to %s", i, status_text(s.status).c_str(), status_text(st).c_str());
    s.told = true;
    s.status = st;
}
void finished(Slot &s, int i)
{
    PV_CHECK(reaped(s.pid) || ended(s.pid), "subprocess %d is said to have ended while it runs", i);
    s.done = true;
    if (reaped(s.pid)) g_gone->insert(s.pid);
    status_ok(s, i);
}
// after its object has gone
void expect_end(Slot &s, int i)
{
    if (s.pid < 0 || reaped(s.pid)) return;
    if (s.stopped) rkill(s.pid, SIGCONT);
    bool eof = std::find(s.k.args.begin(), s.k.args.end(), "R") != s.k.args.end();
    bool z = s.k.args.back() == "z";
    if (z && !s.fatal()) { if (!eof) { rkill(s.pid, SIGKILL); hreap(s.pid); return; } rkill(s.pid, SIGKILL); hreap(s.pid); return; }
    bool e = ends_within(s.pid, 8);
    if (!e) rkill(s.pid, SIGKILL);
    hreap(s.pid);
    PV_CHECK(e, "subprocess %d still waits for its input although its object is gone: the pipe is open somewhere", i);
}

void body(const Case &c)
{
    Src h(c.hdr);
    int n = (int)h.range(1, 4);
    int nostdio = h.chance(1, 8) ? (int)h.range(1, 7) : 0;
    int interval = (int)h.range(0, 2);
    g_gone = new std::set<pid_t>();
    for (int i = 0; i < 3; ++i) if (nostdio >> i & 1) close(i);
    fdlist = "f";
    for (int f : inheritable()) fdlist += std::to_string(f) + ",";
    fdlist += ";";
    std::vector<int> fds0 = open_fds();
    std::vector<Slot> S(n);
    std::vector<pid_t> pids;
    int most = 0, ends = 0, faults = 0;
    cx().log("slots=%d%s", n, nostdio ? " nostdio" : "");
    auto shut = [&](int i) {
        if (!S[i].o) return;
        S[i].o.reset();
        expect_end(S[i], i);
        S[i] = Slot();
    };
    for (auto &op : c.ops)
    {
        Src s(op);
        size_t what = s.weighted({6, 5, 4, 3, 3, 2, 2, 2, 1, 2, 1});
        int i = (int)s.range(0, n - 1), j = (int)s.range(0, n - 1);
        Slot &a = S[i];
        if (what == 0 || (!a.o && what != 9))
        {
            std::string plan;
            Cmd k = program(s, plan, true);
            cx().log(" %d:new(", i);
            for (size_t q = 1; q < k.args.size(); ++q) cx().log("%s%s", q > 1 ? " " : "", k.args[q].c_str());
            cx().log(")");
            std::unique_ptr<subp_open> o(new subp_open(k.text(), {}));
            // the old one goes as a newer one is there
            shut(i);
            a.o = std::move(o);
            a.k = k;
            a.plan = plan;
            a.pid = a.o->pid();
            PV_CHECK(a.pid > 0 && a.pid != getpid(), "process id %d", a.pid);
            g_gone->erase(a.pid);
            int alive = 0;
            for (auto &x : S) alive += (bool)x.o;
            most = std::max(most, alive);
            continue;
        }
        switch (what)
        {
        case 1:
        {
            size_t left = a.plan.size() - a.given, m = s.chance(1, 2) ? left : s.word() % (left + 1);
            cx().log(" %d:comm%zu", i, m);
            if (m) a.o->communicate(a.plan.substr(a.given, m));
            else a.o->communicate();
            a.given += m;
            prefix(a, i, false);
            break;
        }
        case 2:
        {
            cx().log(" %d:poll", i);
            bool before = ended(a.pid), was = a.done;
            bool p = a.o->poll();
            if (before) PV_CHECK(p, was ? "polling subprocess %d again says it runs" : "subprocess %d has ended but is said to run", i);
            if (p) { finished(a, i); if (was) cx().label("polled again after the end"); }
            break;
        }
        case 3:
            // let it end without telling the object
            if (!a.bound_to_end() || a.k.out.size() + a.k.err.size() > 60000) break;
            a.o->communicate();
            cx().log(" %d:ends", i);
            if (!ends_within(a.pid, 1)) break;
            ++ends;
            break;
        case 4:
            if (a.stopped || !(a.fatal() || !a.k.lingers)) break;
            cx().log(" %d:wait", i);
            {
                size_t left = a.plan.size() - a.given;
                if (left) a.o->communicate(a.plan.data() + a.given, (int)left);
                a.given = a.plan.size();
            }
            if (s.chance(1, 25)) a.o->wait();
            else a.o->wait(std::chrono::milliseconds(interval));
            finished(a, i);
            prefix(a, i, a.sigs.empty());
            break;
        case 5:
        {
            static const int SG[] = {SIGTERM, SIGKILL, SIGSTOP, SIGCONT, SIGUSR1, SIGTERM, SIGSTOP, SIGINT};
            int g = SG[s.range(0, 7)], way = (int)s.range(0, 1);
            // before the program runs, a signal may meet this process's mask
            cx().log(" %d:sig%d", i, g);
            if (g == SIGSTOP)
                for (int t = 0; t < 2000 && !started(a.pid); ++t) usleep(500);
            bool gone = a.done, err = false;
            if (!gone) a.sigs.insert(g);
            try
            {
                if (g == SIGTERM && way) a.o->terminate();
                else if (g == SIGKILL && way) a.o->kill();
                else a.o->send_signal(g);
            }
            catch (const std::exception &) { err = true; }
            if (g_strange) cx().fail("after subprocess %d has been waited for, its number is signalled, which may be anybody's by now", i);
            if (gone) { cx().label("signal after the end"); break; }
            PV_CHECK(!err, "signal %d to subprocess %d failed", g, i);
            if (g == SIGSTOP) a.stopped = !ended(a.pid) && !(a.sigs.count(SIGKILL));
            if (g == SIGCONT || g == SIGKILL) a.stopped = false;
            if (g == SIGSTOP && a.stopped && s.chance(1, 2))
            {
                // a stopped process has not ended
                for (int t = 0; t < 200 && state_of(a.pid) != 'T' && !ended(a.pid); ++t) usleep(500);
                cx().label("polled while stopped");
                bool before = ended(a.pid), p = a.o->poll();
                if (before) PV_CHECK(p, "subprocess %d has ended but is said to run", i);
                if (p) finished(a, i);
            }
            if (g != SIGSTOP && g != SIGCONT && !a.stopped) PV_CHECK(ends_within(a.pid, 5), "signal %d did not reach subprocess %d", g, i);
            break;
        }
        case 6:
            if (i == j) break;
            cx().log(" %d=move(%d)", i, j);
            if (!S[j].o) break;
            {
                Slot b = std::move(a);
                Slot &src = S[j];
                if (s.chance(1, 2))
                {
                    a.o.reset(new subp_open(std::move(*src.o)));
                    b.o.reset();
                }
                else
                {
                    *b.o = std::move(*src.o);
                    a.o = std::move(b.o);
                }
                std::unique_ptr<subp_open> gone = std::move(src.o);
                a.k = src.k; a.plan = src.plan; a.given = src.given; a.stopped = src.stopped; a.done = src.done; a.told = src.told; a.sigs = src.sigs; a.status = src.status; a.pid = src.pid;
                src = Slot();
                gone.reset();
                PV_CHECK(a.o->pid() == a.pid, "the process id changes by moving");
                expect_end(b, i);
                prefix(a, i, false);
                cx().label("moved");
            }
            break;
        case 7:
            cx().log(" %d:destroy", i);
            shut(i);
            cx().label("destroyed");
            break;
        case 8:
        {
            // somebody else has waited for it
            if (a.done || !ended(a.pid)) break;
            cx().log(" %d:stolen", i);
            hreap(a.pid);
            try { a.o->poll(); } catch (const std::exception &) {}
            try { a.o->communicate(); } catch (const std::exception &) {}
            prefix(a, i, false);
            a.pid = -1;
            a.o.reset();
            a = Slot();
            cx().label("waited for by somebody else");
            break;
        }
        case 9:
        {
            // no descriptors, or no process
            int left = (int)s.range(0, 7);
            bool forkf = s.chance(1, 2);
            std::string plan;
            Cmd k = program(s, plan, false);
            std::vector<int> before = open_fds();
            rlimit old;
            bool threw = false;
            std::unique_ptr<subp_open> o;
            if (forkf) { g_forkfail = left & 1 ? EAGAIN : ENOMEM; g_forkfailed = 0; cx().log(" fork fails"); }
            else
            {
                getrlimit(RLIMIT_NOFILE, &old);
                int lim = 0, freed = 0;
                for (; freed < left || fcntl(lim, F_GETFD) != -1; ++lim) if (fcntl(lim, F_GETFD) == -1) ++freed;
                rlimit nl = old;
                nl.rlim_cur = lim;
                setrlimit(RLIMIT_NOFILE, &nl);
                cx().log(" only %d descriptors", left);
            }
            try { o.reset(new subp_open(k.text(), {})); } catch (const std::exception &) { threw = true; }
            if (forkf)
            {
                g_forkfail = 0;
                if (g_forkfailed) PV_CHECK(threw, "a subprocess that could not be forked is not reported");
            }
            else
            {
                setrlimit(RLIMIT_NOFILE, &old);
                if (left < 3) PV_CHECK(threw, "a subprocess without pipes is not reported");
            }
            if (threw)
            {
                ++faults;
                std::vector<int> after = open_fds();
                PV_CHECK(after == before, "%zu descriptors are left open by a failed start", after.size() - before.size());
                // no process either
                siginfo_t si;
                int kids = 0;
                for (auto &x : S) kids += x.o && !reaped(x.pid);
                if (!kids) PV_CHECK(waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) < 0 && errno == ECHILD, "a process is left by a failed start");
            }
            else
            {
                pid_t p = o->pid();
                if (left >= 6 || forkf)
                {
                    o->communicate(plan);
                    o.reset();
                }
                o.reset();
                rkill(p, SIGKILL);
                hreap(p);
            }
            break;
        }
        default:
            cx().log(" nap");
            usleep(1000 + s.word() % 3000);
        }
        if (a.o && a.done && a.o->poll()) status_ok(a, i);
    }
    for (int i = 0; i < n; ++i)
    {
        if (!S[i].o) continue;
        Slot &a = S[i];
        if (!a.stopped && !a.k.lingers && (i + interval) % 2)
        {
            if (a.plan.size() > a.given) a.o->communicate(a.plan.substr(a.given));
            a.o->wait(std::chrono::milliseconds(interval));
            finished(a, i);
            prefix(a, i, a.sigs.empty());
            a.o->wait(std::chrono::milliseconds(interval));
            status_ok(a, i);
        }
    }
    for (int i = 0; i < n; ++i) shut((i * 3 + interval) % n);
    for (int i = 0; i < n; ++i) shut(i);
    std::vector<int> fds1 = open_fds();
    PV_CHECK(fds1 == fds0, "%zu descriptors before, %zu after all subprocesses are gone", fds0.size(), fds1.size());
    if (faults) cx().label("failed starts");
    if (ends) cx().label("ended before it was asked");
    if (nostdio) cx().label("parent without standard streams");
    if (most > 1) cx().label("several at once");
    cx().nontrivial(most > 0);
}
Reg r({"manage", "histories over up to 4 subprocess objects: start, communicate, poll, wait, signal, move, destroy, failing starts, standard streams closed in the parent; non-trivial if a subprocess was started",
       6, 14, 1, 16, 6000, 120000, FORKED, 6, body});

// several threads, each with its own
struct Th
{
    std::vector<Cmd> k;
    std::vector<std::string> plan;
    int how = 0;
    std::string bad;
};
void *act(void *p)
{
    Th &t = *(Th *)p;
    for (size_t i = 0; i < t.k.size() && t.bad.empty(); ++i)
    {
        Cmd &k = t.k[i];
        try
        {
            subp_open o(k.text(), {});
            o.communicate(t.plan[i]);
            o.wait(std::chrono::milliseconds(t.how));
            if (!k.right(o.returncode())) t.bad = "status " + status_text(o.returncode());
            else if (k.out != o.stdout()) t.bad = "standard output \"" + show(o.stdout(), 60) + "\" instead of \"" + show(k.out, 60) + "\"";
            else if (k.err != o.stderr()) t.bad = "standard error \"" + show(o.stderr(), 60) + "\" instead of \"" + show(k.err, 60) + "\"";
        }
        catch (const std::exception &e) { t.bad = e.what(); }
    }
    return nullptr;
}
void threads(const Case &c)
{
    Src h(c.hdr);
    int n = (int)h.range(2, 6);
    fdlist = "f";
    for (int f : inheritable()) fdlist += std::to_string(f) + ",";
    fdlist += ";";
    std::vector<int> fds0 = open_fds();
    std::vector<Th> T(n);
    for (auto &t : T) t.how = (int)h.range(0, 1);
    cx().log("threads=%d", n);
    for (auto &op : c.ops)
    {
        Src s(op);
        Th &t = T[s.range(0, n - 1)];
        std::string plan;
        Cmd k = program(s, plan, false);
        k.args.erase(std::remove(k.args.begin(), k.args.end(), "R"), k.args.end());
        k.lingers = false;
        // another thread's descriptors may be on their way: only its own results count
        k.args.erase(k.args.begin());
        k.out = k.out.substr(fdlist.size());
        t.k.push_back(k);
        t.plan.push_back(plan);
    }
    std::vector<pthread_t> pt(n);
    for (int i = 0; i < n; ++i) pthread_create(&pt[i], nullptr, act, &T[i]);
    for (int i = 0; i < n; ++i) pthread_join(pt[i], nullptr);
    for (int i = 0; i < n; ++i) if (!T[i].bad.empty()) cx().fail("thread %d: %s", i, T[i].bad.c_str());
    PV_CHECK(open_fds() == fds0, "descriptors are left open");
    cx().nontrivial(c.ops.size() > 1);
}
Reg r2({"threads", "up to 6 threads each starting, feeding and waiting for subprocesses of their own; non-trivial with two subprocesses",
        10, 8, 1, 12, 1000, 20000, FORKED, 6, threads, CONCLUSIVE});

// what a signal or a failing start does to others
int *g_exits;               // exit work done, by whichever process
std::vector<pid_t> children(pid_t p)
{
    std::vector<pid_t> v;
    std::string path = "/proc/" + std::to_string(p) + "/task/" + std::to_string(p) + "/children";
    if (FILE *f = fopen(path.c_str(), "re"))
    {
        int x;
        while (fscanf(f, "%d", &x) == 1) v.push_back(x);
        fclose(f);
    }
    return v;
}
void effects(const Case &c)
{
    Src h(c.hdr);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    g_exits = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    atexit([] { __atomic_fetch_add(g_exits, 1, __ATOMIC_SEQ_CST); });
    bool pending = h.chance(3, 4);
    int store = memfd_create("out", MFD_CLOEXEC);
    FILE *out = fdopen(store, "w");
    std::string kept = bytes(h.word(), h.range(1, 3000), Alpha::any);
    if (pending) fwrite(kept.data(), 1, kept.size(), out);
    struct Sub { std::unique_ptr<subp_open> o; std::vector<pid_t> kids; pid_t pid; };
    std::vector<Sub> S;
    int groups = 0, failed = 0;
    std::string bad;
    auto fail = [&](const std::string &x) { if (bad.empty()) bad = x; };
    for (auto &op : c.ops)
    {
        Src s(op);
        size_t what = s.weighted({3, 2, 3});
        if (!bad.empty()) break;
        if (what == 0 && S.size() < 4)
        {
            // a program that leads a group of its own, or not, and has children
            int kids = (int)s.range(0, 2);
            bool leads = s.chance(3, 4);
            std::string cmd = helper();
            if (leads) cmd += " G";
            for (int i = 0; i < kids; ++i) cmd += " d";
            cmd += " o1,1,0,0 z";
            cx().log(" new(%s%d)", leads ? "leader," : "", kids);
            Sub b;
            b.o.reset(new subp_open(cmd, {}));
            b.pid = b.o->pid();
            for (int t = 0; t < 4000 && std::string(b.o->stdout()).empty(); ++t) { b.o->communicate(); usleep(500); }
            b.kids = children(b.pid);
            if (std::string(b.o->stdout()).empty() || (int)b.kids.size() != kids) fail("the program does not come up");
            S.push_back(std::move(b));
            groups += leads && kids;
        }
        else if (what == 1 && !S.empty())
        {
            static const int SG[] = {SIGTERM, SIGKILL, SIGUSR1, SIGINT, SIGHUP};
            size_t i = s.range(0, S.size() - 1);
            int g = SG[s.range(0, 4)], way = (int)s.range(0, 1);
            cx().log(" %zu:sig%d", i, g);
            if (g == SIGTERM && way) S[i].o->terminate();
            else if (g == SIGKILL && way) S[i].o->kill();
            else S[i].o->send_signal(g);
            if (!ends_within(S[i].pid, 5)) { fail("the signal did not reach the process"); break; }
            usleep(3000);
            for (auto &x : S)
                for (pid_t k : x.kids) if (::syscall(SYS_kill, k, 0) != 0 || (state_of(k) == 'Z')) fail("a signal sent to a subprocess ended another process, " + std::string(&x == &S[i] ? "a child of it" : "of another subprocess"));
            for (auto &x : S) if (&x != &S[i] && ended(x.pid)) fail("a signal sent to a subprocess ended another subprocess");
            S[i].o->wait(std::chrono::milliseconds(1));
            int st = S[i].o->returncode();
            if (!WIFSIGNALED(st) || WTERMSIG(st) != g) fail("after signal " + std::to_string(g) + " the status is " + status_text(st));
            for (pid_t k : S[i].kids) { rkill(k, SIGKILL); hreap(k); }
            S.erase(S.begin() + i);
        }
        else if (what == 2)
        {
            static const char *CM[] = {"/no/such/program", "no_such_program_1", "/dev/null", "/", "no_such_program_2 with arguments"};
            std::string cmd = CM[s.range(0, 4)];
            bool wait = s.chance(1, 2);
            cx().log(" \"%s\"", cmd.c_str());
            ++failed;
            subp_open o(cmd, {});
            if (!ends_within(o.pid(), 5)) { rkill(o.pid(), SIGKILL); fail("a program that does not exist goes on running"); }
            if (wait) o.wait(std::chrono::milliseconds(1));
            else if (!o.poll()) fail("a subprocess that has ended is said to run");
            o.communicate();
            if (!WIFEXITED(o.returncode()) || WEXITSTATUS(o.returncode()) == 0) fail("a program that cannot be started ends with " + status_text(o.returncode()));
            if (!std::string(o.stdout()).empty()) fail("a program that cannot be started writes \"" + show(o.stdout(), 60) + "\"");
            if (__atomic_load_n(g_exits, __ATOMIC_SEQ_CST)) fail("the exit work of this process is done by a child that could not start its program");
            if (lseek(store, 0, SEEK_END) != 0) fail("output this process has yet to write is written by a child that could not start its program");
        }
    }
    for (auto &x : S)
    {
        rkill(x.pid, SIGKILL);
        for (pid_t k : x.kids) rkill(k, SIGKILL);
        hreap(x.pid);
        for (pid_t k : x.kids) hreap(k);
    }
    S.clear();
    if (!bad.empty()) cx().fail("%s", bad.c_str());
    if (groups) cx().label("leader of a group with children");
    if (failed && pending) cx().label("cannot be started, output pending");
    cx().nontrivial(groups || (failed && pending));
}
Reg r3({"effects", "subprocesses leading groups of their own with children, signalled one after another, and programs that cannot be started while this process has output to write and exit work to do; non-trivial with either",
        4, 5, 1, 8, 2500, 40000, FORKED, 8, effects});
}
