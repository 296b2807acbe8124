// C18: every completed line of a logger, once and whole.
#include "dsched.h"
#include "cppev/async_logger.h"
#include <cmath>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
#if PV_DSCHED
typedef ds::Quiet Model;
#define NAME(x) x
#else
pthread_mutex_t g_model = PTHREAD_MUTEX_INITIALIZER;
struct Model
{
    Model() { pthread_mutex_lock(&g_model); }
    ~Model() { pthread_mutex_unlock(&g_model); }
};
#define NAME(x) x "-native"
#endif

// the system accepts only a part, or interrupts
struct Fault
{
    bool on = false;
    uint64_t seed = 1;
    int den = 3;
    int fds[4] = {-1, -1, -1, -1};
    int partial = 0, intr = 0, again = 0;
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
} *Fl;
}
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
    Fault *f = Fl;
    bool ours = false;
    if (f && f->on) for (int x : f->fds) ours |= x == fd && fd >= 0;
    if (ours && n)
    {
#if PV_DSCHED
        ds::point();
#endif
        uint64_t r = splitmix(f->seed);
        if ((int)(r % f->den) == 0)
        {
            switch ((r >> 8) % 5)
            {
            case 0: ++f->intr; errno = EINTR; return -1;
            case 1: ++f->again; errno = EAGAIN; return -1;
            default:
                if (n > 1) { ++f->partial; n = (r >> 16) & 1 ? 1 + (r >> 20) % (n - 1) : 1 + (r >> 20) % std::min<size_t>(n - 1, 7); }
            }
        }
    }
    return syscall(SYS_write, fd, p, n);
}

namespace
{
struct Piece
{
    int kind;           // 0 chars, 1 string, 2 int, 3 long, 4 float, 5 double
    std::string s;
    long n = 0;
    double d = 0;
};
struct Line
{
    int id, thr, log, pause;
    std::vector<Piece> p;
    bool empty = false;  // nothing but its end
    bool ended = false;
    int tid = 0, seen = 0;
    long order = 0;
    time_t t0 = 0, t1 = 0;
};
struct World
{
    int n = 1, nlog = 1;
    std::unique_ptr<async_logger> log[2];
    int level[2] = {-1, -1}, store[2] = {-1, -1};
    std::vector<Line> lines;
    std::vector<std::vector<int>> script;   // per thread; -1 sleep, -2 points
    long order = 0;
    size_t bytes = 0;
};
World *W;
async_logger *Endl;

// never behind a clock the logger may have read
time_t precise()
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec;
}
void vsleep(long ns)
{
    timespec ts{ns / 1000000000, ns % 1000000000};
    nanosleep(&ts, nullptr);
}
void emit(Line &l)
{
    async_logger &g = *W->log[l.log];
    {
        Model m;
        l.t0 = ::time(nullptr);
        l.tid = (int)syscall(SYS_gettid);
    }
    if (!l.empty)
    {
        std::string mark = "<" + std::to_string(l.id) + "|";
        async_logger *at = &(g << mark.c_str());
        if (at != &g) cx().soft_fail("logging does not return the logger");
    }
    for (auto &p : l.p)
    {
        if (l.pause) for (int i = 0; i < l.pause; ++i) ds::point();
        switch (p.kind)
        {
        case 0: g << p.s.c_str(); break;
        case 1: g << p.s; break;
        case 2: g << (int)p.n; break;
        case 3: g << p.n; break;
        case 4: g << (float)p.d; break;
        default: g << p.d; break;
        }
        g << "|";
    }
    if (!l.empty) g << ">";
    {
        // lines of one thread are ended in this order
        Model m;
        l.order = ++W->order;
    }
    g << *Endl;
    Model m;
    l.t1 = precise();
    l.ended = true;
}
std::string content(int fd)
{
    std::string s;
    off_t n = lseek(fd, 0, SEEK_END);
    s.resize(n);
    if (n && pread(fd, &s[0], n, 0) != n) s.clear();
    return s;
}
bool has(const std::string &h, const std::string &x) { return h.find(x) != std::string::npos; }

bool numbered(const std::string &h, int n)
{
    std::string num = std::to_string(n);
    for (size_t k = h.find(num); k != std::string::npos; k = h.find(num, k + 1))
        if ((k == 0 || !isdigit(h[k - 1])) && (k + num.size() >= h.size() || !isdigit(h[k + num.size()]))) return true;
    return false;
}
// level, time, thread
std::string header(const Line &l, const std::string &head, int g)
{
    std::string name = "line " + std::to_string(l.id) + (l.empty ? ", an empty one," : "");
    bool info = W->level[g] == 1;
    bool timed = false;
    for (time_t t = l.t0; t <= (l.t1 ? l.t1 : precise()) && !timed; ++t)
    {
        char buf[64];
        tm x;
        localtime_r(&t, &x);
        strftime(buf, sizeof buf, "%F %T", &x);
        timed = has(head, buf);
    }
    if (!has(head, info ? "INFO" : "ERROR") || has(head, info ? "ERROR" : "INFO")) return name + " of level " + std::to_string(W->level[g]) + " has the header \"" + show(head) + "\"";
    if (!timed) return name + " has another time in its header \"" + show(head) + "\"";
    if (!numbered(head, l.tid)) return name + " of thread " + std::to_string(l.tid) + " has the header \"" + show(head) + "\"";
    if (has(head, "\n")) return name + " does not begin a line of its own: \"" + show(head) + "\"";
    return "";
}
// every record whole, none twice, in each thread's order; with all: none missing
std::string judge(bool all, bool tail)
{
    Model m;
    for (auto &l : W->lines) l.seen = 0;
    for (int g = 0; g < W->nlog; ++g)
    {
        std::string s = content(W->store[g]);
        std::map<int, long> last;
        size_t at = 0;
        while (at < s.size())
        {
            size_t b = s.find('<', at);
            // lines with nothing but a header
            for (size_t q; (q = s.find('\n', at)) < b && q != std::string::npos; at = q + 1)
            {
                std::string rec = s.substr(at, q - at);
                Line *e = nullptr;
                for (auto &l : W->lines)
                    if (l.empty && l.log == g && l.order && !l.seen && numbered(rec, l.tid) && (!e || l.order < e->order)) e = &l;
                if (!e) return "the output holds something nobody logged: \"" + show(rec, 160) + "\"";
                std::string bad = header(*e, rec, g);
                if (!bad.empty()) return bad;
                ++e->seen;
                if (e->order < last[e->thr]) return "line " + std::to_string(e->id) + ", an empty one, appears after a later line of its thread";
                last[e->thr] = e->order;
            }
            if (b == std::string::npos)
            {
                if (at == s.size() || tail || !all) break;    // the line nobody ended, or not written yet
                return "the output ends in the middle of a line: \"" + show(s.substr(at), 120) + "\"";
            }
            std::string head = s.substr(at, b - at);
            char *e;
            long id = strtol(s.c_str() + b + 1, &e, 10);
            if (!all && !*e && e == s.c_str() + s.size()) return "";
            if (id < 0 || id >= (long)W->lines.size() || *e != '|')
            {
                if (tail && id == (long)W->lines.size()) break;
                return "the output holds something nobody logged: \"" + show(s.substr(at, 200), 160) + "\"";
            }
            Line &l = W->lines[id];
            size_t q = e + 1 - s.c_str();
            std::string what;
            bool cut = false;       // the rest is not written yet
            auto lit = [&](const std::string &t) {
                size_t left = s.size() - q;
                cut = !all && left < t.size() && s.compare(q, left, t, 0, left) == 0;
                if (cut || s.compare(q, t.size(), t) != 0) return false;
                q += t.size();
                return true;
            };
            for (auto &p : l.p)
            {
                if (p.kind <= 1)
                {
                    if (!lit(p.s)) { what = "a string of " + std::to_string(p.s.size()) + " bytes"; break; }
                }
                else if (p.kind <= 3)
                {
                    std::string t = std::to_string(p.n);
                    if (!lit(t)) { what = "the number " + t; break; }
                }
                else
                {
                    size_t z = s.find('|', q);
                    if (z == std::string::npos && !all) { cut = true; break; }
                    double want = p.kind == 4 ? (double)(float)p.d : p.d;
                    std::string t = z == std::string::npos ? "" : s.substr(q, z - q);
                    char *te = nullptr;
                    double got = strtod(t.c_str(), &te);
                    bool ok = !t.empty() && *te == 0 && (std::isnan(want) ? std::isnan(got) : std::isinf(want) ? got == want : std::fabs(got - want) <= 5.1e-7 + 1e-14 * std::fabs(want));
                    if (!ok) { what = "the value " + std::to_string(want); break; }
                    q += t.size();
                }
                if (!lit("|")) { what = "a separator"; break; }
            }
            if (!cut && what.empty() && !lit(">\n")) what = "its end";
            if (cut) return "";
            std::string name = "line " + std::to_string(id);
            if (!what.empty()) return name + " is not whole, " + what + " expected at \"" + show(s.substr(q, 80), 100) + "\"";
            std::string bad = header(l, head, g);
            if (!bad.empty()) return bad;
            if (l.log != g) return name + " appears in another logger's output";
            if (++l.seen > 1) return name + " appears twice";
            if (!l.order) return name + " appears before it was ended";
            if (l.order < last[l.thr]) return name + " appears after a later line of its thread";
            last[l.thr] = l.order;
            at = q;
        }
    }
    if (all)
        for (auto &l : W->lines)
            if (l.ended && !l.seen) return "line " + std::to_string(l.id) + ", ended before, is not in the output";
    return "";
}
void verify(const char *when, bool all, bool tail)
{
    std::string bad = judge(all, tail);
    if (!bad.empty()) cx().soft_fail("%s: %s", when, bad.c_str());
}
void act(int t)
{
    for (int x : W->script[t])
    {
        if (x == -1) vsleep(PV_DSCHED ? 700000000 : 200000);
        else if (x == -2) for (int i = 0; i < 4; ++i) ds::point();
        else emit(W->lines[x]);
    }
}
void *entry(void *a)
{
    act((int)(intptr_t)a);
    return nullptr;
}

void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    World *w = W = new World();
    Fl = new Fault();
    w->n = (int)h.range(1, 4);
    w->nlog = (int)h.range(1, 2);
    Fl->seed = h.word();
    bool faulty = h.chance(1, 2);
    Fl->den = (int)h.range(1, 4);
    if (Fl->den == 1) Fl->den = 2;
    bool mid = h.chance(1, 3), unended = h.chance(1, 8);
    int before = (int)h.range(0, 3);       // what precedes the destruction
    static const int LV[] = {1, 2, 1, 30, 31, 0};
    int lv0 = LV[h.range(0, 5)], lv1 = lv0 == 30 ? 1 : 30;
    bool huge = h.chance(1, 40);
    w->level[0] = lv0;
    w->level[1] = lv1;
    w->script.resize(w->n);
    cx().log("threads=%d loggers=%d%s%s end=%d", w->n, w->nlog, faulty ? " faults" : "", unended ? " unended" : "", before);
    for (auto &o : c.ops)
    {
        Src s(o);
        int t = (int)s.range(0, w->n - 1);
        size_t k = s.weighted({10, 1, 1});
        if (k) { w->script[t].push_back(-(int)k); cx().log(" %d:%s", t, k == 1 ? "sleep" : "points"); continue; }
        Line l;
        l.id = (int)w->lines.size();
        l.thr = t;
        l.log = (int)s.range(0, w->nlog - 1);
        l.pause = s.chance(1, 3) ? (int)s.range(1, 4) : 0;
        int np = (int)s.range(0, 3);
        l.empty = np == 0 && s.chance(1, 2);
        if (l.empty) cx().label("an empty line");
        cx().log(" %d:L%d", t, l.log);
        for (int i = 0; i < np; ++i)
        {
            Piece p;
            p.kind = (int)s.range(0, 5);
            uint64_t sd = s.word();
            uint64_t r = splitmix(sd);
            if (p.kind <= 1)
            {
                size_t len = (size_t)s.skew(0, 3000);
                if ((r & 63) == 5) len = 20000 + (r >> 8) % 60000;
                else if (huge) { len = 400000 + (r >> 8) % 1200000; huge = PV_DSCHED ? false : r >> 5 & 1; cx().label("hundreds of kilobytes in a line"); }
                p.s = bytes(r, len, p.kind == 0 ? Alpha::text : (r >> 6) & 1 ? Alpha::any : Alpha::text);
                if (p.kind == 0) for (auto &ch : p.s) if (ch == 0) ch = 'x';
                w->bytes += len;
                cx().log(" %s%zu", p.kind ? "str" : "chr", len);
            }
            else if (p.kind == 2) { static const int V[] = {0, -1, INT32_MAX, INT32_MIN, 10}; p.n = r & 1 ? V[(r >> 4) % 5] : (int)(r >> 8); s.word(); s.word(); cx().log(" int"); }
            else if (p.kind == 3) { static const long V[] = {0, -1, INT64_MAX, INT64_MIN, 1000000000000l}; p.n = r & 1 ? V[(r >> 4) % 5] : (long)r; s.word(); s.word(); cx().log(" long"); }
            else
            {
                static const double V[] = {0.0, -1.5, 1e15, 0.000001, 123456789.25, std::numeric_limits<double>::infinity(), 3.25};
                p.d = r & 1 ? V[(r >> 4) % 7] : (double)(int32_t)(r >> 16) / (1 + ((r >> 8) & 255));
                s.word();
                s.word();
                cx().log(" %s", p.kind == 4 ? "float" : "double");
            }
            l.p.push_back(p);
        }
        w->script[t].push_back(l.id);
        w->lines.push_back(l);
    }
    for (int i = 0; i < w->nlog; ++i)
    {
        w->store[i] = memfd_create("out", MFD_CLOEXEC);
        PV_CHECK(w->store[i] >= 0, "memfd_create");
        fcntl(w->store[i], F_SETFL, O_APPEND);
        PV_CHECK(dup2(w->store[i], w->level[i]) == w->level[i], "dup2");
        Fl->fds[i] = w->level[i];
    }
    cfg.fair_steps += 13 * w->bytes;
    cfg.max_steps += 400 * w->bytes;
    Fl->on = faulty;
    Endl = new async_logger(-1);
    ds::run(cfg, [&]() {
        for (int i = 0; i < w->nlog; ++i) w->log[i].reset(new async_logger(w->level[i]));
        std::vector<pthread_t> pt(w->n);
        for (int i = 1; i < w->n; ++i) pthread_create(&pt[i], nullptr, entry, (void *)(intptr_t)i);
        act(0);
        if (mid) { Fl->on = faulty; verify("amid", false, false); }
        for (int i = 1; i < w->n; ++i) pthread_join(pt[i], nullptr);
        if (before == 1) ds::settle();
        else if (before == 2)
        {
            // nothing more happens: the lines have to come by themselves
#if PV_DSCHED
            vsleep(20000000000l);
#else
            double until = now() + 20;
            do vsleep(500000);
            while (!judge(true, false).empty() && now() < until);
#endif
            verify("long after the last line", true, false);
        }
        if (unended)
        {
            std::string mark = "<" + std::to_string(w->lines.size()) + "|";
            *w->log[0] << mark << "never ended";
        }
        for (int i = 0; i < w->nlog; ++i) w->log[i].reset();
        verify("after destruction", true, unended);
#if PV_DSCHED
        PV_CHECK(ds::threads_alive() == 0, "a logger's thread is left after destruction");
#endif
    });
    Endl = nullptr;
    if (Fl->partial) cx().label("partial writes");
    if (Fl->intr) cx().label("interrupted writes");
    if (w->nlog > 1) cx().label("two loggers");
    if (before == 0) cx().label("destroyed at once");
    if (unended) cx().label("a line left open");
    cx().nontrivial(w->lines.size() >= 2);
}
Reg r({NAME("logger"),
#if PV_DSCHED
    "scripts of logging by up to 4 threads to two loggers and their destruction, under one generated schedule each, with partial and interrupted writes; non-trivial with two lines",
#else
    "scripts of logging by up to 4 threads to two loggers and their destruction, on the system's threads, with partial and interrupted writes; non-trivial with two lines",
#endif
    ds::HDR + 12, 20, 0, 20,
#if PV_DSCHED
    20000, 600000,
#else
    3000, 80000,
#endif
    FORKED, 20, body,
#if PV_DSCHED
    0
#else
    CONCLUSIVE
#endif
    });

#if !PV_DSCHED
// a process forked from one with loggers ends, and adds nothing to their output
void forked(const Case &c)
{
    Src h(c.hdr);
    int nl = (int)h.range(1, 2), lines = (int)h.range(0, 3), wait = (int)h.range(0, 2), how = (int)h.range(0, 1);
    cx().log("loggers=%d lines=%d pause=%d %s", nl, lines, wait, how ? "exit" : "destroy");
    int store = memfd_create("out", MFD_CLOEXEC);
    fcntl(store, F_SETFL, O_APPEND);
    dup2(store, 30);
    dup2(store, 31);
    static std::unique_ptr<async_logger> lg[2];     // destroyed by exit()
    for (int i = 0; i < nl; ++i) lg[i].reset(new async_logger(30 + i));
    for (int i = 0; i < lines; ++i) *lg[i % nl] << "line " << i << log::endl;
    if (wait) vsleep(wait * 1000000l);
    pid_t pid = fork();
    PV_CHECK(pid >= 0, "fork");
    if (pid == 0)
    {
        if (how == 0) { for (auto &x : lg) x.reset(); _exit(0); }
        exit(0);
    }
    int st = -1;
    double until = now() + 10;
    while (waitpid(pid, &st, WNOHANG) != pid)
    {
        if (now() > until) { kill(pid, SIGKILL); cx().fail("a forked process does not come to an end in the destruction of inherited loggers"); }
        usleep(200);
    }
    PV_CHECK(st == 0, "a forked process ends with status %d in the destruction of inherited loggers", st);
    for (auto &x : lg) x.reset();
    std::string s = content(store);
    int n = 0;
    for (size_t k = 0; (k = s.find('\n', k)) != std::string::npos; ++k) ++n;
    PV_CHECK(n == lines, "%d lines were logged, the output has %d", lines, n);
    cx().nontrivial();
}
Reg r2({"forked", "loggers, some lines, and a forked process that destroys its copies or exits; always non-trivial", 4, 0, 0, 0, 120, 3000, FORKED, 20, forked, CONCLUSIVE});
#endif
}
