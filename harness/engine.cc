#include "engine.h"
#include <rapidcheck.h>
#include <rapidcheck/detail/TestListener.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pv
{

static std::vector<Spec> &specs()
{
    static std::vector<Spec> s;
    return s;
}
static std::vector<std::pair<std::string, std::function<bool(std::string &)>>> &
findings()
{
    static std::vector<std::pair<std::string, std::function<bool(std::string &)>>> f;
    return f;
}
void add_spec(const Spec &s) { specs().push_back(s); }
void add_finding(const char *n, std::function<bool(std::string &)> f)
{
    findings().push_back({n, f});
}

bool tape_short = false;
static int g_worker = 0;
static bool g_thorough = false;
static std::string g_scratch = "/tmp", g_tag = "pv0";
int worker_id() { return g_worker; }
bool thorough() { return g_thorough; }
uint64_t unique()
{
    static uint64_t n = 0;
    return __sync_add_and_fetch(&n, 1);
}
std::string scratch() { return g_scratch; }
std::string tag() { return g_tag; }
std::string self_dir()
{
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    if (n <= 0) return ".";
    b[n] = 0;
    std::string s(b);
    return s.substr(0, s.rfind('/'));
}
double now()
{
    timespec t;
    // the vdso call, not an interposed one
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void rsleep(double s)
{
    timespec t;
    t.tv_sec = (time_t)s;
    t.tv_nsec = (long)((s - t.tv_sec) * 1e9);
    syscall(SYS_nanosleep, &t, nullptr);
}

std::string bytes(uint64_t seed, size_t n, Alpha a)
{
    std::string s(n, '\0');
    uint64_t st = seed * 0x9E3779B97F4A7C15ull + 12345;
    uint64_t r = 0;
    for (size_t i = 0; i < n; ++i)
    {
        if (i % 8 == 0) r = splitmix(st);
        unsigned char c = (unsigned char)(r & 0xff);
        r >>= 8;
        switch (a)
        {
        case Alpha::any: break;
        case Alpha::text: c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[c & 63]; break;
        case Alpha::small: c = "ab"[c & 1]; break;
        case Alpha::nul: c = "\0a\nb"[c & 3]; break;
        }
        s[i] = (char)c;
    }
    return s;
}

std::string show(const std::string &s, size_t max)
{
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c >= 32 && c < 127) o += c;
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    o += "\"";
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}

uint64_t hash(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

std::vector<int> open_fds()
{
    std::vector<int> v;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return v;
    int self = dirfd(d);
    while (dirent *e = readdir(d))
    {
        if (e->d_name[0] == '.') continue;
        int fd = atoi(e->d_name);
        if (fd != self) v.push_back(fd);
    }
    closedir(d);
    return v;
}

// ---------------------------------------------------------------- context

static int g_ctxlock = 0;
// the controlled scheduler (dsched) must not switch threads in here
int nopreempt = 0;
struct SpinGuard
{
    SpinGuard() { __sync_fetch_and_add(&nopreempt, 1); while (__sync_lock_test_and_set(&g_ctxlock, 1)) {} }
    ~SpinGuard() { __sync_lock_release(&g_ctxlock); __sync_fetch_and_sub(&nopreempt, 1); }
};
static Ctx g_ctx;
Ctx &cx() { return g_ctx; }

static std::string vfmt(const char *fmt, va_list ap)
{
    va_list a2;
    va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, fmt, a2);
    va_end(a2);
    std::string s(n > 0 ? n : 0, '\0');
    if (n > 0)
    {
        std::vector<char> b(n + 1);
        vsnprintf(b.data(), n + 1, fmt, ap);
        s.assign(b.data(), n);
    }
    return s;
}
void Ctx::soft_fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    SpinGuard g;
    if (!failed_) { failed_ = true; msg_ = s; }
}
void Ctx::fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    {
        SpinGuard g;
        if (!failed_) { failed_ = true; msg_ = s; }
    }
    throw CaseFail(s);
}
void Ctx::label(const std::string &s)
{
    SpinGuard g;
    labels_.push_back(s);
}
// what is known of a case that dies
static const size_t EARLY = 6000;
static char *g_early = nullptr;
void Ctx::log(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    SpinGuard g;
    if (text_.size() < 6000) text_ += s;
    if (g_early) { size_t n = std::min(text_.size(), EARLY - 1); memcpy(g_early, text_.data(), n); g_early[n] = 0; }
    if (verbose_) { fputs(s.c_str(), stdout); fflush(stdout); }
}
void Ctx::reset()
{
    failed_ = false;
    nontrivial_ = false;
    msg_.clear();
    text_.clear();
    labels_.clear();
}

// ------------------------------------------------------------- execution

struct Outcome
{
    bool failed = false, skipped = false, nontrivial = false, hang = false;
    std::string msg, text;
    std::vector<std::string> labels;
};

static void run_body(const std::function<void()> &fn)
{
    Ctx &c = cx();
    try
    {
        fn();
    }
    catch (const CaseFail &)
    {
    }
    catch (const CaseSkip &)
    {
        c.label("(skipped)");
        c.nontrivial_ = false;
    }
    catch (const std::exception &e)
    {
        c.soft_fail("unexpected exception: %s", e.what());
    }
    catch (...)
    {
        c.soft_fail("unexpected exception of unknown type");
    }
}

static Outcome take()
{
    Ctx &c = cx();
    Outcome o;
    o.failed = c.failed_;
    o.nontrivial = c.nontrivial_;
    o.msg = c.msg_;
    o.text = c.text_;
    o.labels = c.labels_;
    if (tape_short) o.labels.push_back("(tape short)");
    tape_short = false;
    return o;
}

// shared page between worker and forked case
struct Shared
{
    volatile int done;
    volatile int failed, nontrivial;
    volatile unsigned nmsg, ntext, nlabels;
    char data[1 << 16];
    char early[EARLY];
};
static Shared *g_shared = nullptr;
static int g_logfd = -1;
static std::string g_logpath;

static void pack(const Outcome &o)
{
    Shared *s = g_shared;
    std::string labels;
    for (auto &l : o.labels)
        if (labels.size() + l.size() < 8000) labels += l + "\n";
    std::string m = o.msg.substr(0, 12000), t = o.text.substr(0, 16000);
    s->failed = o.failed;
    s->nontrivial = o.nontrivial;
    s->nmsg = m.size();
    s->ntext = t.size();
    s->nlabels = labels.size();
    memcpy(s->data, m.data(), m.size());
    memcpy(s->data + m.size(), t.data(), t.size());
    memcpy(s->data + m.size() + t.size(), labels.data(), labels.size());
    __sync_synchronize();
    s->done = 1;
}
static Outcome unpack()
{
    Shared *s = g_shared;
    Outcome o;
    o.failed = s->failed;
    o.nontrivial = s->nontrivial;
    o.msg.assign(s->data, s->nmsg);
    o.text.assign(s->data + s->nmsg, s->ntext);
    std::istringstream is(std::string(s->data + s->nmsg + s->ntext, s->nlabels));
    std::string l;
    while (std::getline(is, l)) o.labels.push_back(l);
    return o;
}

void end_case()
{
    pack(take());
    for (;;) syscall(SYS_exit_group, 0);
}

struct ProcState
{
    bool alive = false, all_sleeping = true;
    uint64_t cpu = 0, vol = 0;
    std::string desc;
};
static ProcState proc_state(pid_t pid)
{
    ProcState ps;
    std::string base = "/proc/" + std::to_string(pid) + "/task";
    DIR *d = opendir(base.c_str());
    if (!d) return ps;
    ps.alive = true;
    while (dirent *e = readdir(d))
    {
        if (e->d_name[0] == '.') continue;
        std::ifstream f(base + "/" + e->d_name + "/stat");
        std::string line;
        std::getline(f, line);
        size_t p = line.rfind(')');
        if (p == std::string::npos) continue;
        std::istringstream is(line.substr(p + 1));
        std::string st;
        is >> st;
        std::string skip;
        for (int i = 0; i < 10; ++i) is >> skip;
        uint64_t ut = 0, stt = 0;
        is >> ut >> stt;
        ps.cpu += ut + stt;
        if (st == "R" || st == "D") ps.all_sleeping = false;
        std::ifstream fs(base + "/" + e->d_name + "/status");
        while (std::getline(fs, line))
            if (line.find("ctxt_switches") != std::string::npos)
                ps.vol += atoll(line.substr(line.find(':') + 1).c_str());
        std::ifstream fw(base + "/" + e->d_name + "/wchan");
        std::string w;
        std::getline(fw, w);
        ps.desc += st + ":" + w + " ";
    }
    closedir(d);
    return ps;
}

// the case and every process it started
static ProcState group_state(pid_t pgid)
{
    ProcState g = proc_state(pgid);
    DIR *d = opendir("/proc");
    if (!d) return g;
    while (dirent *e = readdir(d))
    {
        if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
        pid_t p = atoi(e->d_name);
        if (p == pgid || getpgid(p) != pgid) continue;
        ProcState x = proc_state(p);
        g.cpu += x.cpu;
        g.vol += x.vol;
        g.all_sleeping = g.all_sleeping && x.all_sleeping;
        g.desc += "| " + x.desc;
    }
    closedir(d);
    return g;
}

// what becomes of the child: a copy of this process, or the same program afresh
static int g_shmfd = -1;
static std::vector<std::string> g_exec;
static void map_shared()
{
    g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, g_shmfd, 0);
    if (g_shared == MAP_FAILED) { perror("mmap"); exit(3); }
}

static Outcome run_forked(const std::function<void()> &fn, double timeout, const std::string &exec = "")
{
    if (!g_shared)
    {
        int fd = memfd_create("case", MFD_CLOEXEC);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("memfd"); exit(3); }
        g_shmfd = fcntl(fd, F_DUPFD_CLOEXEC, 905);
        close(fd);
        map_shared();
    }
    Shared *outer = g_shared;
    outer->done = 0;
    outer->early[0] = 0;
    if (g_logfd >= 0)
    {
        if (ftruncate(g_logfd, 0)) {}
        lseek(g_logfd, 0, SEEK_SET);
    }
    fflush(stdout);
    int note[2];
    if (pipe2(note, O_CLOEXEC)) { perror("pipe"); exit(3); }
    // keep the bookkeeping descriptors away from the low numbers
    int hi0 = fcntl(note[0], F_DUPFD_CLOEXEC, 900), hi1 = fcntl(note[1], F_DUPFD_CLOEXEC, 900);
    close(note[0]);
    close(note[1]);
    pid_t ppid = getpid();
    pid_t pid = fork();
    if (pid < 0)
    {
        // out of processes: let the case count as not evaluated
        close(hi0);
        close(hi1);
        rsleep(0.2);
        Outcome o;
        o.skipped = true;
        return o;
    }
    if (pid == 0)
    {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != ppid) _exit(0);
        close(hi0);
        close(hi1);
        if (g_logfd >= 0) { dup2(g_logfd, 2); }
        signal(SIGPIPE, SIG_DFL);
        if (!exec.empty())
        {
            std::vector<std::string> v = g_exec;
            v.push_back("--exec=" + exec);
            v.push_back("--shm=" + std::to_string(g_shmfd));
            std::vector<char *> av;
            for (auto &x : v) av.push_back((char *)x.c_str());
            av.push_back(nullptr);
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1);
            close(null);
            fcntl(g_shmfd, F_SETFD, 0);
            execv("/proc/self/exe", av.data());
            _exit(125);
        }
        cx().reset();
        g_early = outer->early;
        run_body(fn);
        Outcome o = take();
        pack(o);
        syscall(SYS_exit_group, 0);
    }
    setpgid(pid, pid);
    close(hi0);
    close(hi1);
    double t0 = now(), limit = timeout;
    int st = 0;
    bool hang = false, busy = false;
    std::string hdesc;
    double nap = 0.00005;
    sigset_t chld, old;
    (void)chld; (void)old;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) { st = 0; break; }
        double el = now() - t0;
        if (el > limit)
        {
            // a hang only if nothing moves any more
            ProcState a = group_state(pid);
            rsleep(1.0);
            ProcState b = group_state(pid);
            rsleep(0.5);
            ProcState c = group_state(pid);
            if (waitpid(pid, &st, WNOHANG) == pid) break;
            bool quiet = a.all_sleeping && b.all_sleeping && c.all_sleeping &&
                         a.cpu == b.cpu && b.cpu == c.cpu && a.vol == b.vol && b.vol == c.vol;
            if (quiet) { hang = true; hdesc = c.desc; }
            else if (el > std::max(30.0, timeout * 2 + 15)) { hang = busy = true; hdesc = c.desc; }
            if (hang)
            {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            limit = el + timeout;
        }
        rsleep(nap);
        if (nap < 0.005) nap *= 1.3;
    }
    kill(-pid, SIGKILL);  // stragglers of the case
    Outcome o;
    if (hang)
    {
        o = outer->done ? unpack() : Outcome();
        if (!outer->done) o.text = std::string(outer->early, strnlen(outer->early, EARLY));
        o.failed = true;
        o.hang = true;
        o.msg = std::string(busy ? "the case never finished (busy): " : "the case hangs, all threads asleep: ") + hdesc + (outer->done ? " (after its body: " + o.msg + ")" : "");
    }
    else if (outer->done)
        o = unpack();
    else
    {
        o.failed = true;
        char b[200];
        if (WIFSIGNALED(st))
            snprintf(b, sizeof b, "the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else
            snprintf(b, sizeof b, "the process ended with status %d in the middle of the case", WEXITSTATUS(st));
        o.msg = b;
        o.text = std::string(outer->early, strnlen(outer->early, EARLY));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        {
            // out of memory or killed from outside: not an observation
            o.failed = false;
            o.skipped = true;
        }
        if (g_logfd >= 0)
        {
            char buf[3001];
            ssize_t n = pread(g_logfd, buf, 3000, 0);
            if (n > 0) { buf[n] = 0; o.msg += std::string("\n") + buf; }
        }
    }
    return o;
}

std::string in_child(double timeout, const std::function<void()> &fn)
{
    Shared *save = g_shared;
    int savelog = g_logfd;
    g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string lp = g_scratch + "/child." + std::to_string(getpid()) + "." + std::to_string(unique());
    g_logfd = open(lp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    unlink(lp.c_str());
    Outcome o = run_forked(fn, timeout);
    munmap(g_shared, sizeof(Shared));
    close(g_logfd);
    g_shared = save;
    g_logfd = savelog;
    if (o.skipped) return "skipped";
    return o.failed ? (o.msg.empty() ? "failed" : o.msg) : "";
}

// ------------------------------------------------------------ persistence

static void save_case(const std::string &path, const std::string &spec, const Case &c,
                      const std::string &msg)
{
    std::ofstream f(path);
    f << "spec " << spec << "\nhdr";
    for (auto x : c.hdr) f << ' ' << x;
    f << "\n";
    for (auto &o : c.ops)
    {
        f << "op";
        for (auto x : o) f << ' ' << x;
        f << "\n";
    }
    std::istringstream is(msg);
    std::string l;
    while (std::getline(is, l)) f << "# " << l << "\n";
}
static bool load_case(const std::string &path, std::string &spec, Case &c)
{
    std::ifstream f(path);
    if (!f) return false;
    std::string l;
    while (std::getline(f, l))
    {
        std::istringstream is(l);
        std::string k;
        is >> k;
        if (k == "spec") is >> spec;
        else if (k == "hdr") { uint32_t x; while (is >> x) c.hdr.push_back(x); }
        else if (k == "op") { Words w; uint32_t x; while (is >> x) w.push_back(x); c.ops.push_back(w); }
    }
    return true;
}

static Outcome run_case(const Spec &s, const Case &c, bool forked)
{
    if (forked && (s.flags & EXEC))
    {
        std::string p = g_scratch + "/exec.case";
        save_case(p, s.name, c, "");
        Outcome o = run_forked([] {}, s.timeout, p);
        unlink(p.c_str());
        return o;
    }
    if (forked)
        return run_forked([&] { s.body(c); }, s.timeout);
    cx().reset();
    run_body([&] { s.body(c); });
    return take();
}

static std::string jesc(const std::string &s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Progress
{
    volatile uint64_t spec, index, beat;
};

struct Quiet : rc::detail::TestListener
{
    void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
    void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
    void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
};

}  // namespace pv

using namespace pv;

static int run_main(int argc, char **argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i)
    {
        std::string k = argv[i];
        if (k.substr(0, 2) == "--")
        {
            size_t e = k.find('=');
            if (e == std::string::npos) a[k.substr(2)] = "1";
            else a[k.substr(2, e - 2)] = k.substr(e + 1);
        }
    }
    g_exec.push_back(argv[0]);
    for (auto k : {"worker", "nworkers", "tier", "scratch", "tag"})
        if (a.count(k)) g_exec.push_back(std::string("--") + k + "=" + a[k]);
    g_worker = a.count("worker") ? atoi(a["worker"].c_str()) : 0;
    int nw = a.count("nworkers") ? atoi(a["nworkers"].c_str()) : 1;
    uint64_t seed = a.count("seed") ? strtoull(a["seed"].c_str(), 0, 10) : 1;
    g_thorough = a["tier"] == "thorough";
    if (a.count("scratch")) g_scratch = a["scratch"];
    g_scratch += "/w" + std::to_string(g_worker);
    if (a.count("tag")) g_tag = a["tag"];
    g_tag += "." + std::to_string(g_worker);
    mkdir(g_scratch.c_str(), 0755);
    std::string out = a["out"];
    double budget = a.count("budget") ? atof(a["budget"].c_str()) : 1e9;
    signal(SIGPIPE, SIG_DFL);

    if (a.count("list"))
    {
        for (auto &s : specs()) printf("spec %s\n", s.name);
        for (auto &f : findings()) printf("finding %s\n", f.first.c_str());
        return 0;
    }
    if (a.count("exec"))
    {
        std::string sn;
        Case c;
        if (!load_case(a["exec"], sn, c)) _exit(126);
        g_shmfd = fcntl(atoi(a["shm"].c_str()), F_DUPFD_CLOEXEC, 905);
        close(atoi(a["shm"].c_str()));
        map_shared();
        for (auto &s : specs())
            if (sn == s.name)
            {
                cx().reset();
                g_early = g_shared->early;
                run_body([&] { s.body(c); });
                Outcome o = take();
                pack(o);
                syscall(SYS_exit_group, 0);
            }
        _exit(127);
    }
    {
        g_logpath = g_scratch + "/log";
        int fd = open(g_logpath.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        g_logfd = fcntl(fd, F_DUPFD_CLOEXEC, 910);
        if (g_logfd < 0) g_logfd = fcntl(fd, F_DUPFD_CLOEXEC, 200);
        close(fd);
    }
    if (a.count("finding"))
    {
        for (auto &f : findings())
            if (f.first == a["finding"])
            {
                std::string d;
                cx().reset();
                bool r = f.second(d);
                printf("%s %s\n", r ? "REPRODUCED" : "ABSENT", d.c_str());
                return 0;
            }
        printf("UNKNOWN\n");
        return 2;
    }
    if (a.count("replay"))
    {
        std::string sn;
        Case c;
        if (!load_case(a["replay"], sn, c)) { fprintf(stderr, "cannot read %s\n", a["replay"].c_str()); return 3; }
        for (auto &s : specs())
            if (sn == s.name)
            {
                cx().verbose_ = a.count("verbose");
                Outcome o;
                if (a.count("nofork")) o = run_case(s, c, false);
                else o = run_case(s, c, true);
                printf("case: %s\n", o.text.c_str());
                if (o.failed) { printf("FAILED %s\n", o.msg.c_str()); return 1; }
                if (o.skipped) { printf("SKIPPED\n"); return 4; }
                printf("PASSED\n");
                return 0;
            }
        fprintf(stderr, "unknown spec %s\n", sn.c_str());
        return 3;
    }

    // worker mode
    Progress *pr = nullptr;
    {
        int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); return 3; }
        pr = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    std::string only = a["spec"];
    bool force_fork = a.count("fork");
    uint64_t skip = a.count("skip") ? strtoull(a["skip"].c_str(), 0, 10) : 0;
    double scale = a.count("scale") ? atof(a["scale"].c_str()) : 1.0;
    double tstart = now();
    double total_w = 0;
    for (auto &s : specs()) if (only.empty() || only == s.name) total_w += 1;
    int idx = -1;
    bool any_failed = false;
    std::ofstream js(out + ".json.tmp");
    js << "[";
    bool first = true;
    std::ofstream hs(out + ".hashes", std::ios::binary);
    double left_specs = total_w;
    for (auto &s : specs())
    {
        ++idx;
        if (!only.empty() && only != s.name) continue;
        // an even share of what is left of the budget
        double spec_end = now() + (budget - (now() - tstart)) / left_specs;
        left_specs -= 1;
        uint64_t quota = (uint64_t)((g_thorough ? s.thorough : s.quick) * scale);
        quota = quota / nw + ((uint64_t)g_worker < quota % nw ? 1 : 0);
        if (a.count("cases")) quota = strtoull(a["cases"].c_str(), 0, 10);
        if (quota == 0) quota = (uint64_t)g_worker == (seed % nw) || nw == 1 ? 1 : 0;
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> seen;
        std::vector<std::string> samples;
        uint64_t evals = 0, nontriv = 0, skipped = 0, index = 0;
        bool failed = false, timeup = false;
        Case failcase;
        std::string failmsg, failtext;
        double faildeadline = 0, slowest = 0;
        bool fork_it = force_fork || s.mode == FORKED;
        double t0 = now();
        const int hdrn = s.hdr, oplen = s.oplen, maxops = s.maxops;
        uint64_t sd = seed * 1000003ull + hash(s.name);
        uint64_t st = sd + (uint64_t)g_worker * 7919;
        rc::detail::TestParams params;
        params.seed = splitmix(st);
        params.maxSuccess = (int)std::min<uint64_t>(quota, 2000000000ull);
        params.maxSize = 100;
        rc::detail::TestMetadata md;
        md.id = s.name;
        md.description = s.name;
        Quiet ql;
        auto word = rc::gen::resize(100, rc::gen::arbitrary<uint32_t>());
        auto opgen = rc::gen::container<Words>((size_t)oplen, word);
        auto hdrgen = rc::gen::container<Words>((size_t)hdrn, word);
        auto opsgen = rc::gen::withSize([=](int size) {
            int n = s.minops + (int)((long long)(maxops - s.minops) * (size + 1) / 100);
            return rc::gen::resize(n > 0 ? n : 1, rc::gen::container<std::vector<Words>>(opgen));
        });
        if (params.maxSuccess > 0)
        {
            rc::detail::checkTestable(
                [&] {
                    Case c;
                    if (timeup) return;
                    c.hdr = *hdrgen;
                    if (maxops > 0) c.ops = *opsgen;
                    if (failed)
                    {
                        if (now() > faildeadline) return;  // stop shrinking
                    }
                    else
                    {
                        pr->spec = idx;
                        pr->index = index;
                        pr->beat = pr->beat + 1;
                        if (index++ < skip) return;
                        if (now() > spec_end) { timeup = true; return; }
                    }
                    double tc = now();
                    Outcome o = run_case(s, c, fork_it);
                    tc = now() - tc;
                    if (tc > slowest) { slowest = tc; if (tc > 3) save_case(out + ".slow", s.name, c, "took " + std::to_string(tc)); }
                    if (failed) pr->beat = pr->beat + 1;
                    if (!failed)
                    {
                        if (o.skipped) { ++skipped; return; }
                        ++evals;
                        for (auto &l : o.labels) ++labels[l];
                        if (o.nontrivial)
                        {
                            ++nontriv;
                            if (seen.size() < 400000) seen.insert(hash(s.name + o.text));
                            if (samples.size() < 4 || (samples.size() < 8 && evals % 97 == 0))
                                samples.push_back(o.text.substr(0, 700));
                        }
                    }
                    if (o.failed)
                    {
                        if (!failed)
                        {
                            failed = true;
                            faildeadline = o.hang ? 0 : now() + (a.count("shrink") ? atof(a["shrink"].c_str()) : 20.0);
                            save_case(out + ".first", s.name, c, o.msg);
                        }
                        failcase = c;
                        failmsg = o.msg;
                        failtext = o.text;
                        save_case(out + ".fail", s.name, c, o.msg + "\n" + o.text);
                        RC_FAIL(o.msg.substr(0, 200));
                    }
                },
                md, params, ql);
        }
        js << (first ? "\n" : ",\n");
        first = false;
        js << "{\"spec\":" << jesc(s.name) << ",\"rule\":" << jesc(s.rule) << ",\"evaluations\":" << evals
           << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << seen.size() << ",\"skipped\":" << skipped
           << ",\"quota\":" << quota << ",\"flags\":" << s.flags << ",\"wall\":" << (now() - t0) << ",\"slowest\":" << slowest << ",\"timeup\":" << (timeup ? "true" : "false")
           << ",\"labels\":{";
        bool f2 = true;
        for (auto &l : labels) { js << (f2 ? "" : ",") << jesc(l.first) << ":" << l.second; f2 = false; }
        js << "},\"samples\":[";
        f2 = true;
        for (auto &x : samples) { js << (f2 ? "" : ",") << jesc(x); f2 = false; }
        js << "],\"failed\":" << (failed ? "true" : "false");
        if (failed)
            js << ",\"index\":" << (index - 1) << ",\"msg\":" << jesc(failmsg.substr(0, 6000)) << ",\"text\":" << jesc(failtext.substr(0, 3000));
        js << "}";
        for (auto h : seen) hs.write((const char *)&h, 8);
        if (failed) { any_failed = true; break; }
    }
    js << "\n]\n";
    js.close();
    hs.close();
    rename((out + ".json.tmp").c_str(), (out + ".json").c_str());
    fflush(stdout);
    _exit(any_failed ? 1 : 0);
}

// static objects of the code under test are not destroyed here
int main(int argc, char **argv)
{
    // whoever started this may have signals ignored or blocked (nohup does)
    for (int i = 1; i < 65; ++i)
    {
        struct sigaction a;
        if (sigaction(i, nullptr, &a) == 0 && a.sa_handler == SIG_IGN) signal(i, SIG_DFL);
    }
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    int rc = run_main(argc, argv);
    fflush(stdout);
    fflush(stderr);
    _exit(rc);
}
