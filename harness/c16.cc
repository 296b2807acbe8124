// C16: shared memory: histories of handles, and openings that race.
#include "dsched.h"
#include "cppev/ipc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace pv;
using cppev::shared_memory;

namespace
{
std::string name_of(int k) { return "/" + tag() + ".m" + std::to_string(k); }

struct Map { unsigned long ino; size_t len; };
// what is mapped of our names
std::vector<Map> maps()
{
    std::vector<Map> v;
    FILE *f = fopen("/proc/self/maps", "r");
    char line[600];
    std::string want = "/dev/shm/" + tag() + ".";
    while (fgets(line, sizeof line, f))
    {
        if (!strstr(line, want.c_str())) continue;
        unsigned long a, b, off, ino;
        char perm[8], dev[16];
        if (sscanf(line, "%lx-%lx %7s %lx %15s %lu", &a, &b, perm, &off, dev, &ino) == 6) v.push_back({ino, b - a});
    }
    fclose(f);
    return v;
}
size_t mapped()
{
    size_t n = 0;
    for (auto &m : maps()) n += m.len;
    return n;
}
size_t pages(int size) { return ((size_t)size + 4095) / 4096 * 4096; }
unsigned long inode_at(void *p)
{
    FILE *f = fopen("/proc/self/maps", "r");
    char line[600];
    unsigned long r = 0;
    while (fgets(line, sizeof line, f))
    {
        unsigned long a, b, off, ino;
        char perm[8], dev[16];
        if (sscanf(line, "%lx-%lx %7s %lx %15s %lu", &a, &b, perm, &off, dev, &ino) == 6 && a <= (unsigned long)p && (unsigned long)p < b) { r = ino; break; }
    }
    fclose(f);
    return r;
}

int g_fail_trunc = 0, g_fail_map = 0, g_failed = 0;
}

#if PV_DSCHED
#define HERE ds::point()
#else
#define HERE ((void)0)
#endif
extern "C" int ftruncate(int fd, off_t n) noexcept
{
    if (g_fail_trunc) { ++g_failed; errno = g_fail_trunc; return -1; }
    HERE;
    int r = (int)syscall(SYS_ftruncate, fd, n), e = errno;
    HERE;
    errno = e;
    return r;
}
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) noexcept
{
    bool ours = fd >= 0 && (flags & MAP_SHARED);
    if (ours && g_fail_map) { ++g_failed; errno = g_fail_map; return MAP_FAILED; }
    if (ours) HERE;
    void *r = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
    if (ours)
    {
        int e = errno;
        HERE;
        errno = e;
    }
    return r;
}
#if PV_DSCHED
extern "C" int shm_open(const char *n, int flags, mode_t m)
{
    HERE;
    std::string p = std::string("/dev/shm/") + (*n == '/' ? n + 1 : n);
    int r = open(p.c_str(), flags | O_CLOEXEC | O_NOFOLLOW | O_NONBLOCK, m), e = errno;
    HERE;
    errno = e;
    return r;
}
extern "C" int shm_unlink(const char *n)
{
    HERE;
    std::string p = std::string("/dev/shm/") + (*n == '/' ? n + 1 : n);
    int r = unlink(p.c_str()), e = errno;
    HERE;
    errno = e;
    return r;
}
extern "C" int fstat(int fd, struct stat *s) noexcept
{
    HERE;
    int r = (int)syscall(SYS_fstat, fd, s), e = errno;
    HERE;
    errno = e;
    return r;
}
extern "C" int flock(int fd, int op) noexcept
{
    HERE;
    while (syscall(SYS_flock, fd, op | LOCK_NB) != 0)
    {
        if ((errno != EWOULDBLOCK && errno != EINTR) || (op & LOCK_NB)) return -1;
        ds::yield();
    }
    HERE;
    return 0;
}
#endif

namespace
{
#if PV_DSCHED
// ---- openings under a schedule ------------------------------------------
struct Hand { std::unique_ptr<shared_memory> m; unsigned long ino; };
struct Act { int what, k, more; };
struct World
{
    int n, size[6];
    bool unlinks, vary;
    std::vector<Act> script[6];
    std::vector<std::pair<unsigned long, bool>> opened;     // inode, creator
    std::map<unsigned long, std::map<int, uint64_t>> wrote; // per object: slot -> value
    uint64_t seq = 0;
};
World *W;
volatile uint64_t *slot(shared_memory &m, int i) { return (volatile uint64_t *)m.ptr() + i; }

void check(Hand &h, int t, const char *when)
{
    ds::Quiet q;
    int n = std::min(h.m->size() / 8, W->n);
    for (int i = 0; i < n; ++i)
    {
        auto &w = W->wrote[h.ino];
        uint64_t want = w.count(i) ? w[i] : 0, got = *slot(*h.m, i);
        if (got != want) cx().soft_fail("%s: thread %d sees %llx in place %d, where %llx was written", when, t, (unsigned long long)got, i, (unsigned long long)want);
    }
    const char *p = (const char *)h.m->ptr();
    if (h.m->size() > W->n * 8 && p[h.m->size() - 1]) cx().soft_fail("%s: the memory is not zero at its end", when);
    for (int i = W->n * 8; i < h.m->size(); i += std::max(1, h.m->size() / 64)) if (p[i]) cx().soft_fail("%s: the memory is not zero at %d", when, i);
}
void *thr(void *a)
{
    int t = (int)(intptr_t)a;
    Hand h;
    for (auto &x : W->script[t])
    {
        if (x.what == 0)
        {
            h.m.reset();
            int size = W->size[x.k] + x.more;
            try { h.m.reset(new shared_memory(name_of(x.k), size)); }
            catch (const std::exception &e)
            {
                if (W->vary) continue;      // larger than it was made: may be refused
                cx().soft_fail("thread %d cannot open: %s", t, e.what());
                pv::end_case();
            }
            ds::Quiet q;
            h.ino = inode_at(h.m->ptr());
            W->opened.push_back({h.ino, h.m->creator()});
            if (h.m->size() != size) cx().soft_fail("size %d instead of %d", h.m->size(), size);
            check(h, t, "at opening");
        }
        else if (!h.m) continue;
        else if (x.what == 1)
        {
            ds::point();
            if (h.m->size() < 8 * W->n) continue;
            ds::Quiet q;
            uint64_t v = 0x100000001ull * ++W->seq;
            *slot(*h.m, t) = v;
            W->wrote[h.ino][t] = v;
        }
        else if (x.what == 2) { ds::point(); check(h, t, "later"); }
        else if (x.what == 3) h.m.reset();
        else if (W->unlinks) try { h.m->unlink(); } catch (const std::exception &) {}
    }
    if (h.m) { ds::point(); check(h, t, "at the end"); }
    return nullptr;
}
void race(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    W = new World();
    W->n = (int)h.range(2, 5);
    W->unlinks = h.chance(1, 3);
    int names = (int)h.range(1, 2);
    W->vary = h.chance(1, 4);
    uint64_t ms = h.word();
    auto more = [&]() { return W->vary && splitmix(ms) % 2 ? (int)(splitmix(ms) % 20000) : 0; };
    for (int i = 0; i < 2; ++i) { W->size[i] = (int)h.skew(1, 300000); if (h.chance(2, 3)) W->size[i] = std::max(W->size[i], 8 * W->n); }
    cx().log("threads=%d sizes=%d,%d%s", W->n, W->size[0], W->size[1], W->unlinks ? " unlinks" : "");
    if (W->vary) { cx().log(" vary"); cx().label("different sizes"); }
    for (int i = 0; i < W->n; ++i) W->script[i].push_back({0, 0, more()});
    for (auto &o : c.ops)
    {
        Src s(o);
        int t = (int)s.range(0, W->n - 1);
        Act a{(int)s.weighted({2, 4, 3, 1, 1}), (int)s.range(0, names - 1), more()};
        W->script[t].push_back(a);
        static const char *N[] = {"open", "write", "check", "close", "unlink"};
        cx().log(" %d:%s%d", t, N[a.what], a.k);
    }
    for (int k = 0; k < 2; ++k) unlink(("/dev/shm" + name_of(k)).c_str());
    auto fds0 = open_fds();
    ds::run(cfg, [&]() {
        pthread_t pt[6];
        for (int i = 0; i < W->n; ++i) pthread_create(&pt[i], nullptr, thr, (void *)(intptr_t)i);
        for (int i = 0; i < W->n; ++i) pthread_join(pt[i], nullptr);
    });
    std::map<unsigned long, int> cr;
    for (auto &x : W->opened) cr[x.first] += x.second;
    for (auto &x : cr)
        if (x.second > 1 || (x.second < 1 && !W->vary)) cx().soft_fail("a memory opened by %zu threads has %d creators", W->opened.size(), x.second);
    if (mapped()) cx().soft_fail("%zu bytes are left mapped", mapped());
    if (open_fds() != fds0) cx().soft_fail("descriptors are left open");
    for (int k = 0; k < 2; ++k) unlink(("/dev/shm" + name_of(k)).c_str());
    if (W->unlinks) cx().label("with unlinking");
    cx().nontrivial(W->opened.size() >= 2);
}
Reg r({"openings", "up to 5 threads, standing for processes, open, write, check, close and unlink one or two names under a generated schedule with a switch possible at every call; non-trivial with two openings",
       ds::HDR + 11, 3, 0, 16, 12000, 300000, FORKED, 20, race});
#else
// ---- histories of handles ------------------------------------------------
struct Obj { std::string data; int mode = 0; };
struct Hnd { std::unique_ptr<shared_memory> m; std::shared_ptr<Obj> o; int k = 0, size = 0; bool creator = false; };
struct Made
{
    int a; char b; double c; std::string *d;
    static int built;
    Made(int x, char y, double z, std::string *&&w) : a(x), b(y), c(z), d(w) { ++built; }
};
int Made::built = 0;

void body(const Case &c)
{
    const int NS = 5, NN = 3;
    Hnd S[NS];
    std::shared_ptr<Obj> live[NN];
    int fresh = 0, again = 0, failed = 0;
    for (int k = 0; k < NN; ++k) shm_unlink(name_of(k).c_str());
    g_fail_trunc = g_fail_map = 0;
    auto fds0 = open_fds();
    auto verify = [&](const char *when) {
        size_t want = 0;
        for (int i = 0; i < NS; ++i)
        {
            Hnd &h = S[i];
            if (!h.m) continue;
            want += pages(h.size);
            PV_CHECK(h.m->ptr() && h.m->size() == h.size, "%s: handle %d has size %d instead of %d", when, i, h.m->size(), h.size);
            PV_CHECK(h.m->creator() == h.creator, "%s: handle %d is %sthe creator", when, i, h.creator ? "not " : "");
            if (memcmp(h.m->ptr(), h.o->data.data(), h.size)) 
            {
                int q = 0;
                const char *p = (const char *)h.m->ptr();
                while (p[q] == h.o->data[q]) ++q;
                cx().fail("%s: handle %d of size %d holds %02x at %d instead of %02x", when, i, h.size, (unsigned char)p[q], q, (unsigned char)h.o->data[q]);
            }
        }
        for (int k = 0; k < NN; ++k) if (live[k])
        {
            struct stat st;
            PV_CHECK(stat(("/dev/shm" + name_of(k)).c_str(), &st) == 0, "%s: memory %d is gone though nobody unlinked it", when, k);
            PV_CHECK((int)(st.st_mode & 0777) == live[k]->mode, "%s: memory %d has the permissions %o instead of %o", when, k, (unsigned)(st.st_mode & 0777), (unsigned)live[k]->mode);
        }
        PV_CHECK(mapped() == want, "%s: %zu bytes are mapped instead of %zu", when, mapped(), want);
        PV_CHECK(open_fds() == fds0, "%s: descriptors are left open", when);
    };
    for (auto &op : c.ops)
    {
        Src s(op);
        size_t what = s.weighted({6, 5, 2, 3, 3, 3, 2, 2, 2});
        int i = (int)s.range(0, NS - 1), j = (int)s.range(0, NS - 1), k = (int)s.range(0, NN - 1);
        int size = (int)s.skew(1, 3000000);
        uint64_t w = s.word();
        if (live[k] && w % 4) size = std::min<int>(size, (int)live[k]->data.size());
        if (live[k] && w % 4 >= 2) size = (int)live[k]->data.size();
        Hnd &h = S[i];
        switch (what)
        {
        case 0:
        {
            cx().log(" %d=open(%d,%d)", i, k, size);
            h = Hnd();
            bool exists = (bool)live[k];
            // the permissions, which only the creator's opening gives
            static const int MODE[] = {0600, 0600, 0640, 0666, 0700, 0622}, MASK[] = {022, 0, 077};
            int m = (int)(w >> 20) % 6, um = MASK[(w >> 28) % 3];
            mode_t old = umask(um);
            try { h.m.reset(m ? new shared_memory(name_of(k), size, MODE[m]) : new shared_memory(name_of(k), size)); umask(old); }
            catch (const std::exception &e)
            {
                umask(old);
                // larger than it was made: may be refused
                PV_CHECK(exists && size > (int)live[k]->data.size(), "opening failed: %s", e.what());
                break;
            }
            PV_CHECK(h.m->creator() == !exists, exists ? "a second creator" : "no creator");
            if (!exists) { live[k] = std::make_shared<Obj>(); live[k]->data.assign(size, 0); live[k]->mode = MODE[m] & ~um; ++fresh; }
            else ++again;
            if ((int)live[k]->data.size() < size) live[k]->data.resize(size, 0);
            h.o = live[k];
            h.k = k;
            h.size = size;
            h.creator = !exists;
            break;
        }
        case 1:
        {
            if (!h.m) break;
            size_t at = w % 3 == 0 ? h.size - 1 : w % h.size, n = std::min<size_t>(h.size - at, (size_t)s.skew(1, 5000));
            std::string b = bytes(w, n);
            cx().log(" %d:write(%zu+%zu)", i, at, n);
            memcpy((char *)h.m->ptr() + at, b.data(), n);
            h.o->data.replace(at, n, b);
            break;
        }
        case 2:
        {
            if (!h.m || h.size < (int)sizeof(Made)) break;
            cx().log(" %d:construct", i);
            int built = Made::built;
            std::string *d = (std::string *)(uintptr_t)w;
            Made *m = h.m->construct<Made>((int)w, (char)(w >> 8), w / 3.0, std::move(d));
            PV_CHECK((void *)m == h.m->ptr() && Made::built == built + 1, "the object is not in the memory");
            PV_CHECK(m->a == (int)w && m->b == (char)(w >> 8) && m->c == w / 3.0 && m->d == (std::string *)(uintptr_t)w, "the object does not carry its arguments");
            memcpy(&h.o->data[0], h.m->ptr(), sizeof(Made));
            break;
        }
        case 3:
            cx().log(" %d:destroy", i);
            h = Hnd();
            break;
        case 4:
        {
            if (!S[j].m || i == j) break;
            cx().log(" %d=moved(%d)", i, j);
            void *p = S[j].m->ptr();
            std::unique_ptr<shared_memory> m(new shared_memory(std::move(*S[j].m)));
            PV_CHECK(m->ptr() == p, "moving a handle moves its memory");
            h = Hnd();
            std::unique_ptr<shared_memory> old = std::move(S[j].m);
            h = std::move(S[j]);
            h.m = std::move(m);
            S[j] = Hnd();
            PV_CHECK(!old->creator(), "a handle without memory is a creator");
            if (w & 1) old.reset();
            else
            {
                // what it held belongs to another
                if (w & 2) try { old->unlink(); } catch (const std::exception &) {}
                verify("with the moved-from handle");
            }
            break;
        }
        case 5:
        {
            if (!S[j].m || !h.m) break;
            cx().log(" %d:=move(%d)", i, j);
            void *p = S[j].m->ptr();
            *h.m = std::move(*S[j].m);
            PV_CHECK(h.m->ptr() == p, "moving a handle moves its memory");
            if (i == j) break;
            std::unique_ptr<shared_memory> t = std::move(h.m), old = std::move(S[j].m);
            h = std::move(S[j]);
            h.m = std::move(t);
            S[j] = Hnd();
            if (w & 4) try { old->unlink(); } catch (const std::exception &) {}
            if (w & 1) { verify("with the moved-from handle"); }
            if (w & 2)
            {
                // and a new one in its place
                *old = shared_memory(name_of(h.k), h.size);
                PV_CHECK(live[h.k] != h.o || !old->creator(), "a second creator");
                if (live[h.k] == h.o) PV_CHECK(old->size() == h.size && memcmp(old->ptr(), h.m->ptr(), h.size) == 0, "a moved-from handle assigned again differs");
                else { if (old->creator()) { shm_unlink(name_of(h.k).c_str()); live[h.k].reset(); } }
            }
            break;
        }
        case 6:
        {
            if (!h.m) break;
            cx().log(" %d:unlink", i);
            bool exists = (bool)live[h.k], threw = false;
            try { h.m->unlink(); } catch (const std::exception &) { threw = true; }
            PV_CHECK(threw == !exists, exists ? "unlinking failed" : "unlinking a name that is not there is not reported");
            live[h.k].reset();
            break;
        }
        case 7:
        {
            static const char *bad[] = {"", "/", "/a/b", "no/slash/", "/.", "long"};
            std::string nm = bad[w % 6];
            if (nm == "long") nm = "/" + std::string(300, 'x');
            int how = (int)(w >> 8) % 3;
            int sz = how == 0 ? size : how == 1 ? 0 : -1 - (int)(w >> 12);
            if (how) nm = name_of(k);
            bool exists = (bool)live[k], threw = false;
            cx().log(" open(\"%s\",%d)", how ? "" : nm.substr(0, 9).c_str(), how ? sz : size);
            try { shared_memory m(nm, sz); } catch (const std::exception &) { threw = true; }
            PV_CHECK(threw, "opening \"%s\" with size %d succeeds", nm.c_str(), sz);
            ++failed;
            if (how && !exists)
            {
                bool left = access(("/dev/shm" + nm).c_str(), F_OK) == 0;
                if (left) shm_unlink(nm.c_str());
                PV_CHECK(!left, "a memory without a creator is left behind by a failed creation");
            }
            break;
        }
        default:
        {
            int how = (int)(w % 3);
            bool exists = (bool)live[k], threw = false;
            rlimit old;
            if (how == 0) g_fail_trunc = w & 8 ? ENOSPC : EIO;
            else if (how == 1) g_fail_map = w & 8 ? ENOMEM : EAGAIN;
            else
            {
                getrlimit(RLIMIT_NOFILE, &old);
                int lim = 0;
                while (fcntl(lim, F_GETFD) != -1) ++lim;
                rlimit nl = old;
                nl.rlim_cur = lim;
                setrlimit(RLIMIT_NOFILE, &nl);
            }
            cx().log(" open(%d,%d)!%d", k, size, how);
            g_failed = 0;
            bool creator = false;
            try { shared_memory m(name_of(k), size); creator = m.creator(); } catch (const std::exception &) { threw = true; }
            g_fail_trunc = g_fail_map = 0;
            if (how == 2) setrlimit(RLIMIT_NOFILE, &old);
            if (g_failed || how == 2) PV_CHECK(threw, "a failed opening is not reported");
            if (threw) ++failed;
            bool left = access(("/dev/shm" + name_of(k)).c_str(), F_OK) == 0;
            if (!exists && threw)
            {
                if (left) shm_unlink(name_of(k).c_str());
                PV_CHECK(!left, "a memory without a creator is left behind by a failed creation");
            }
            else if (!exists) { PV_CHECK(creator, "no creator"); shm_unlink(name_of(k).c_str()); }
            else
            {
                PV_CHECK(left, "a failed opening removes the memory");
                if (!threw && (int)live[k]->data.size() < size) live[k]->data.resize(size, 0);
            }
        }
        }
        verify("after that");
    }
    for (auto &h : S) h = Hnd();
    // persists until unlinked
    for (int k = 0; k < NN; ++k)
    {
        if (!live[k]) continue;
        {
            shared_memory m(name_of(k), (int)live[k]->data.size());
            PV_CHECK(!m.creator() && memcmp(m.ptr(), live[k]->data.data(), live[k]->data.size()) == 0, "contents do not outlive their handles");
            m.unlink();
        }
        shared_memory m(name_of(k), 64);
        bool zero = true;
        for (int i = 0; i < 64; ++i) zero &= ((char *)m.ptr())[i] == 0;
        PV_CHECK(m.creator() && zero, "an opening after unlinking is not a fresh one");
        m.unlink();
    }
    PV_CHECK(mapped() == 0, "%zu bytes are left mapped", mapped());
    PV_CHECK(open_fds() == fds0, "descriptors are left open");
    if (failed) cx().label("failed openings");
    if (again) cx().label("opened again");
    cx().nontrivial(fresh && again);
}
Reg r({"handles", "histories of opening, writing, constructing, moving, unlinking and destroying handles on 3 names with failing system calls, against byte-string models and the process's maps; non-trivial if a memory was created and opened again",
       0, 12, 6, 30, 12000, 300000, FORKED, 20, body});

// ---- processes -------------------------------------------------------------
struct Ctl
{
    std::atomic<int> go, opened, creators, done, bad;
    char msg[300];
};
void procs(const Case &c)
{
    Src h(c.hdr);
    int n = (int)h.range(2, 6), rounds = (int)h.range(1, 6);
    int size = (int)h.skew(64, 500000);
    uint64_t sd = h.word();
    cx().log("processes=%d rounds=%d size=%d", n, rounds, size);
    shm_unlink(name_of(7).c_str());
    Ctl *q = (Ctl *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int r = 0; r < rounds; ++r)
    {
        new (q) Ctl();
        std::string err = "";
        std::vector<pid_t> pid(n);
        for (int i = 0; i < n; ++i)
        {
            uint64_t my = splitmix(sd);
            pid[i] = fork();
            if (pid[i]) continue;
            auto bad = [&](const char *f, int x) {
                if (q->bad.exchange(1) == 0) snprintf(q->msg, sizeof q->msg, f, i, x);
                _exit(1);
            };
            while (!q->go) {}
            for (uint64_t k = my % 2000; k; --k) asm volatile("");
            try
            {
                shared_memory m(name_of(7), size);
                q->creators += m.creator();
                std::atomic<uint64_t> *p = (std::atomic<uint64_t> *)m.ptr();
                uint64_t v = 0x0101010101010101ull * (i + 1);
                for (int j = 0; j < size / 8; j += std::max(1, size / 8 / 500)) if (j >= n && p[j] != 0) bad("process %d: the memory is not zero at %d", j * 8);
                for (int j = 0; j < n; ++j) if (p[j] != 0 && p[j] != 0x0101010101010101ull * (j + 1)) bad("process %d: place %d holds something nobody wrote", j);
                p[i] = v;
                ++q->opened;
                while (q->opened < n) sched_yield();
                for (int j = 0; j < n; ++j) if (p[j] != 0x0101010101010101ull * (j + 1)) bad("process %d: what process %d wrote has been undone", j);
            }
            catch (const std::exception &e) { bad((std::string("process %d/%d: ") + e.what()).c_str(), 0); }
            _exit(0);
        }
        q->go = 1;
        int fails = 0;
        for (int i = 0; i < n; ++i)
        {
            int st = 0;
            while (waitpid(-1, &st, 0) < 0) if (errno != EINTR) break;
            if (st && !fails++)
            {
                for (int j = 0; j < n; ++j) kill(pid[j], SIGKILL);
                if (!q->bad) snprintf(q->msg, sizeof q->msg, "a process ended with status %d (signal %d)", st, st & 127);
                err = q->msg;
            }
        }
        shm_unlink(name_of(7).c_str());
        PV_CHECK(err.empty(), "%s", err.c_str());
        PV_CHECK(q->creators == 1, "%d creators", (int)q->creators);
    }
    munmap(q, 4096);
    cx().nontrivial(n > 1);
}
Reg r2({"processes", "2 to 6 processes open one name at the same moment, write, meet and look, in several rounds; always non-trivial",
        8, 1, 0, 0, 600, 20000, FORKED, 20, procs, CONCLUSIVE});
#endif
}
