// C25: requests the system refuses.  Every call into the system that the code
// under test makes on the arming thread may be refused with a plausible error;
// an operation then either has its whole effect or fails with that very error,
// leaves nothing behind, and succeeds when it is repeated.
#include "engine.h"
#include "net.h"
#include "cppev/nio.h"
#include "cppev/event_loop.h"
#include "cppev/ipc.h"
#include "cppev/lock.h"
#include "cppev/runnable.h"
#include "cppev/subprocess.h"
#include "cppev/utils.h"
#include <arpa/inet.h>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/tcp.h>
#include <set>
#include <sys/epoll.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <thread>
using namespace pv;
using namespace cppev;

namespace
{
struct Fault
{
    bool on = false;
    unsigned skip = 0, pick = 0, calls = 0;
    const char *fn = nullptr;
    int err = 0;
};
thread_local Fault ft;
bool hit(const char *fn, std::initializer_list<int> errs)
{
    if (!ft.on || ft.fn || ft.calls++ != ft.skip) return false;
    ft.fn = fn;
    ft.err = *(errs.begin() + ft.pick % errs.size());
    return true;
}
}
// refused: nothing happens but errno
#define WRAP(ret, name, params, args, bad, ...)              \
    extern "C" ret __real_##name params;                     \
    extern "C" ret __wrap_##name params                      \
    {                                                        \
        if (hit(#name, {__VA_ARGS__}))                       \
        {                                                    \
            errno = ft.err;                                  \
            return bad;                                      \
        }                                                    \
        return __real_##name args;                           \
    }
// refused: the error is the result, errno is left with something else
#define WRAPC(name, params, args, ...)                       \
    extern "C" int __real_##name params;                     \
    extern "C" int __wrap_##name params                      \
    {                                                        \
        if (hit(#name, {__VA_ARGS__}))                       \
        {                                                    \
            errno = EDOM;                                    \
            return ft.err;                                   \
        }                                                    \
        return __real_##name args;                           \
    }
WRAP(int, socket, (int a, int b, int c), (a, b, c), -1, EMFILE, ENFILE, ENOBUFS, ENOMEM, EACCES, EAFNOSUPPORT)
WRAP(int, pipe, (int *p), (p), -1, EMFILE, ENFILE)
WRAP(int, pipe2, (int *p, int f), (p, f), -1, EMFILE, ENFILE)
WRAP(int, mkfifo, (const char *p, mode_t m), (p, m), -1, EACCES, ENOSPC, EROFS, EDQUOT)
WRAP(int, setsockopt, (int a, int b, int c, const void *d, socklen_t e), (a, b, c, d, e), -1, ENOMEM, ENOBUFS, EINVAL)
WRAP(int, getsockopt, (int a, int b, int c, void *d, socklen_t *e), (a, b, c, d, e), -1, ENOMEM, ENOBUFS, EINVAL)
WRAP(int, getsockname, (int a, struct sockaddr *b, socklen_t *c), (a, b, c), -1, ENOBUFS)
WRAP(int, getpeername, (int a, struct sockaddr *b, socklen_t *c), (a, b, c), -1, ENOBUFS)
WRAP(int, bind, (int a, const struct sockaddr *b, socklen_t c), (a, b, c), -1, EADDRINUSE, EACCES, EADDRNOTAVAIL, ENOMEM)
WRAP(int, listen, (int a, int b), (a, b), -1, EADDRINUSE)
WRAP(int, connect, (int a, const struct sockaddr *b, socklen_t c), (a, b, c), -1, ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EPERM, EACCES, ETIMEDOUT)
WRAP(int, accept, (int a, struct sockaddr *b, socklen_t *c), (a, b, c), -1, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM, EINTR, ECONNABORTED)
WRAP(int, accept4, (int a, struct sockaddr *b, socklen_t *c, int d), (a, b, c, d), -1, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM, EINTR, ECONNABORTED)
WRAP(ssize_t, recvfrom, (int a, void *b, size_t c, int d, struct sockaddr *e, socklen_t *f), (a, b, c, d, e, f), -1, ENOMEM, ECONNREFUSED, ENETDOWN)
WRAP(ssize_t, sendto, (int a, const void *b, size_t c, int d, const struct sockaddr *e, socklen_t f), (a, b, c, d, e, f), -1, ENOBUFS, EPERM, ENETUNREACH, ECONNREFUSED, EHOSTUNREACH, ENETDOWN)
WRAP(ssize_t, recvmsg, (int a, struct msghdr *b, int c), (a, b, c), -1, ENOMEM, ECONNREFUSED, ENETDOWN)
WRAP(ssize_t, sendmsg, (int a, const struct msghdr *b, int c), (a, b, c), -1, ENOBUFS, EPERM, ENETUNREACH, ECONNREFUSED, EHOSTUNREACH, ENETDOWN)
WRAP(ssize_t, recv, (int a, void *b, size_t c, int d), (a, b, c, d), -1, EIO, ENOMEM, ENOBUFS, EINTR)
WRAP(ssize_t, send, (int a, const void *b, size_t c, int d), (a, b, c, d), -1, EIO, ENOBUFS, EINTR)
WRAP(int, dup, (int a), (a), -1, EMFILE)
WRAP(ssize_t, read, (int a, void *b, size_t c), (a, b, c), -1, EIO, ENOMEM, ENOBUFS, EINTR)
WRAP(ssize_t, write, (int a, const void *b, size_t c), (a, b, c), -1, EIO, ENOSPC, ENOBUFS, EINTR, EDQUOT, EFBIG)
WRAP(int, epoll_create, (int a), (a), -1, EMFILE, ENFILE, ENOMEM)
WRAP(int, epoll_create1, (int a), (a), -1, EMFILE, ENFILE, ENOMEM)
WRAP(int, epoll_ctl, (int a, int b, int c, struct epoll_event *d), (a, b, c, d), -1, ENOMEM, ENOSPC)
WRAP(int, epoll_wait, (int a, struct epoll_event *b, int c, int d), (a, b, c, d), -1, EINTR, EINVAL, EFAULT)
WRAP(int, epoll_pwait, (int a, struct epoll_event *b, int c, int d, const sigset_t *e), (a, b, c, d, e), -1, EINTR, EINVAL, EFAULT)
WRAP(int, shm_open, (const char *a, int b, mode_t c), (a, b, c), -1, EMFILE, ENFILE, EACCES, EPERM, ENOSPC)
WRAP(int, shm_unlink, (const char *a), (a), -1, EACCES, EPERM)
WRAP(int, ftruncate, (int a, off_t b), (a, b), -1, EFBIG, EPERM, EIO, ENOSPC)
WRAP(int, fstat, (int a, struct stat *b), (a, b), -1, EIO, EOVERFLOW, ENOMEM)
WRAP(int, flock, (int a, int b), (a, b), -1, EINTR, ENOLCK)
WRAP(void *, mmap, (void *a, size_t b, int c, int d, int e, off_t f), (a, b, c, d, e, f), MAP_FAILED, ENOMEM, EAGAIN, ENFILE, EPERM)
WRAP(int, sem_unlink, (const char *a), (a), -1, EACCES)
WRAP(int, sem_wait, (sem_t *a), (a), -1, EINTR, EINVAL)
WRAP(int, sem_trywait, (sem_t *a), (a), -1, EINTR, EINVAL, EAGAIN)
WRAP(int, sem_post, (sem_t *a), (a), -1, EOVERFLOW, EINVAL)
WRAP(pid_t, waitpid, (pid_t a, int *b, int c), (a, b, c), -1, EINVAL, ECHILD)
WRAP(int, kill, (pid_t a, int b), (a, b), -1, EPERM, EINVAL)
WRAP(int, sigaction, (int a, const struct sigaction *b, struct sigaction *c), (a, b, c), -1, EINVAL, EFAULT)
WRAP(int, sigpending, (sigset_t *a), (a), -1, EFAULT)
WRAPC(sigwait, (const sigset_t *a, int *b), (a, b), EINVAL)
WRAPC(pthread_create, (pthread_t *a, const pthread_attr_t *b, void *(*c)(void *), void *d), (a, b, c, d), EAGAIN, EPERM, ENOMEM)
WRAPC(pthread_join, (pthread_t a, void **b), (a, b), EDEADLK, EINVAL, ESRCH)
WRAPC(pthread_detach, (pthread_t a), (a), EINVAL, ESRCH)
WRAPC(pthread_cancel, (pthread_t a), (a), ESRCH)
WRAPC(pthread_mutexattr_init, (pthread_mutexattr_t *a), (a), ENOMEM)
WRAPC(pthread_mutexattr_settype, (pthread_mutexattr_t *a, int b), (a, b), EINVAL)
WRAPC(pthread_mutexattr_setprotocol, (pthread_mutexattr_t *a, int b), (a, b), ENOTSUP, EPERM)
WRAPC(pthread_mutexattr_setpshared, (pthread_mutexattr_t *a, int b), (a, b), EINVAL)
WRAPC(pthread_mutex_init, (pthread_mutex_t *a, const pthread_mutexattr_t *b), (a, b), EAGAIN, ENOMEM, EPERM)
WRAPC(pthread_condattr_init, (pthread_condattr_t *a), (a), ENOMEM)
WRAPC(pthread_condattr_setpshared, (pthread_condattr_t *a, int b), (a, b), EINVAL)
WRAPC(pthread_cond_init, (pthread_cond_t *a, const pthread_condattr_t *b), (a, b), EAGAIN, ENOMEM)
WRAPC(pthread_cond_wait, (pthread_cond_t *a, pthread_mutex_t *b), (a, b), EINVAL, EPERM)
WRAPC(pthread_cond_signal, (pthread_cond_t *a), (a), EINVAL)
WRAPC(pthread_cond_broadcast, (pthread_cond_t *a), (a), EINVAL)
WRAPC(pthread_rwlockattr_init, (pthread_rwlockattr_t *a), (a), ENOMEM)
WRAPC(pthread_rwlockattr_setpshared, (pthread_rwlockattr_t *a, int b), (a, b), EINVAL)
WRAPC(pthread_rwlock_init, (pthread_rwlock_t *a, const pthread_rwlockattr_t *b), (a, b), EAGAIN, ENOMEM, EPERM)
WRAPC(pthread_rwlock_rdlock, (pthread_rwlock_t *a), (a), EAGAIN, EDEADLK, EINVAL)
WRAPC(pthread_rwlock_wrlock, (pthread_rwlock_t *a), (a), EDEADLK, EINVAL)
WRAPC(pthread_rwlock_tryrdlock, (pthread_rwlock_t *a), (a), EBUSY, EAGAIN, EINVAL)
WRAPC(pthread_rwlock_trywrlock, (pthread_rwlock_t *a), (a), EBUSY, EINVAL)
WRAPC(pthread_rwlock_unlock, (pthread_rwlock_t *a), (a), EPERM, EINVAL)
WRAPC(pthread_spin_init, (pthread_spinlock_t *a, int b), (a, b), EAGAIN, ENOMEM)
namespace
{
// mutexes of the code's own shared locks only, not those of the C++ library
const char *mtx_lo = nullptr, *mtx_hi = nullptr;
bool mine(const void *m) { return (const char *)m >= mtx_lo && (const char *)m < mtx_hi; }
}
#define WRAPM(name, ...)                                                        \
    extern "C" int __real_##name(pthread_mutex_t *);                            \
    extern "C" int __wrap_##name(pthread_mutex_t *m)                            \
    {                                                                           \
        if (mine(m) && hit(#name, {__VA_ARGS__}))                               \
        {                                                                       \
            errno = EDOM;                                                       \
            return ft.err;                                                      \
        }                                                                       \
        return __real_##name(m);                                                \
    }
WRAPM(pthread_mutex_lock, EINVAL, EAGAIN, EDEADLK)
WRAPM(pthread_mutex_trylock, EBUSY, EINVAL, EAGAIN)
WRAPM(pthread_mutex_unlock, EPERM, EINVAL)

// neither saving nor restoring a mask is refused: nobody could do anything about it
extern "C" int __real_pthread_sigmask(int, const sigset_t *, sigset_t *);
extern "C" int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o)
{
    if (!(s && (o || how == SIG_SETMASK)) && hit("pthread_sigmask", {EINVAL, EFAULT}))
    {
        errno = EDOM;
        return ft.err;
    }
    return __real_pthread_sigmask(how, s, o);
}
extern "C" pid_t __real_fork();
extern "C" pid_t __wrap_fork()
{
    if (hit("fork", {EAGAIN, ENOMEM}))
    {
        errno = ft.err;
        return -1;
    }
    pid_t p = __real_fork();
    if (p == 0) ft.on = false;
    return p;
}
extern "C" int __real_raise(int);
extern "C" int __wrap_raise(int s)
{
    if (hit("raise", {EINVAL, EAGAIN}))
    {
        errno = ft.err;
        return -1;
    }
    return __real_raise(s);
}
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    if (hit("open", {EMFILE, ENFILE, EACCES, ENOMEM}))
    {
        errno = ft.err;
        return -1;
    }
    return __real_open(p, fl, m);
}
extern "C" int __real_fcntl(int, int, ...);
extern "C" int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? hit("fcntl", {EMFILE}) : hit("fcntl", {EPERM, EINVAL, EACCES}))
    {
        errno = ft.err;
        return -1;
    }
    return __real_fcntl(fd, cmd, a);
}
extern "C" int __real_ioctl(int, unsigned long, ...);
extern "C" int __wrap_ioctl(int fd, unsigned long cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    if (hit("ioctl", {EINVAL, ENOTTY}))
    {
        errno = ft.err;
        return -1;
    }
    return __real_ioctl(fd, cmd, a);
}
extern "C" sem_t *__real_sem_open(const char *, int, ...);
extern "C" sem_t *__wrap_sem_open(const char *n, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    unsigned m = 0, v = 0;
    if (fl & O_CREAT)
    {
        m = va_arg(ap, unsigned);
        v = va_arg(ap, unsigned);
    }
    va_end(ap);
    if (hit("sem_open", {EMFILE, ENFILE, EACCES, ENOMEM, EINVAL}))
    {
        errno = ft.err;
        return SEM_FAILED;
    }
    return (fl & O_CREAT) ? __real_sem_open(n, fl, m, v) : __real_sem_open(n, fl);
}

namespace
{
int fired = 0;
std::set<std::string> sites;

struct Out
{
    bool thrown = false;
    int code = 0;
    const char *fn = nullptr;   // what was refused
    int err = 0;
};
std::string now_doing;

// runs f with one refused call, or with none
template <typename F> Out attempt(Src &r, F f, bool natural = false)
{
    Out o;
    Fault mine;
    mine.on = true;
    uint32_t k = r.word();
    mine.skip = k % 8 < 3 ? 0 : k % 8 == 7 ? 1000000 : (k >> 3) % 8;
    mine.pick = r.word();
    ft = mine;
    struct Off { ~Off() { ft.on = false; } } off;
    std::string what;
    try { f(); }
    catch (const CaseFail &) { throw; }
    catch (const CaseSkip &) { throw; }
    catch (const std::system_error &e)
    {
        ft.on = false;
        o.thrown = true;
        o.code = e.code().value();
        what = e.what();
    }
    catch (const std::exception &e)
    {
        ft.on = false;
        o.thrown = true;
        what = e.what();
    }
    ft.on = false;
    o.fn = ft.fn;
    o.err = ft.err;
    if (o.fn)
    {
        ++fired;
        sites.insert(o.fn);
        cx().log("[%s: %s] ", o.fn, strerrorname_np(o.err));
        cx().label(o.fn);
        if (o.thrown) PV_CHECK(o.code == o.err, "%s: %s was refused with %s, the exception says %d (%s)", now_doing.c_str(), o.fn, strerrorname_np(o.err), o.code, what.c_str());
        // an interruption is no refusal
        if (o.thrown) PV_CHECK(o.err != EINTR, "%s: %s was interrupted, and the operation failed", now_doing.c_str(), o.fn);
    }
    else if (!natural) PV_CHECK(!o.thrown, "%s failed with nothing refused: %s", now_doing.c_str(), what.c_str());
    return o;
}

std::set<int> fds()
{
    auto v = open_fds();
    return std::set<int>(v.begin(), v.end());
}
std::string list(const std::set<int> &s)
{
    std::string t;
    for (int x : s) t += std::to_string(x) + " ";
    return t;
}
void same_fds(const std::set<int> &before, const char *when)
{
    auto s = fds();
    PV_CHECK(s == before, "%s: %s the open descriptors are %s, expected %s", now_doing.c_str(), when, list(s).c_str(), list(before).c_str());
}
int mappings(const std::string &name)
{
    std::ifstream f("/proc/self/maps");
    std::string l;
    int n = 0;
    while (std::getline(f, l)) n += l.find(name) != std::string::npos;
    return n;
}
bool exists(const std::string &p)
{
    struct stat st;
    return lstat(p.c_str(), &st) == 0;
}
bool no_child()
{
    int st;
    return waitpid(-1, &st, WNOHANG) == -1 && errno == ECHILD;
}
// create, refused once, then again; verify() looks at what there is, drop() ends it
template <typename C, typename V, typename D> void creation(Src &r, C create, V verify, D drop)
{
    auto before = fds();
    Out o = attempt(r, create);
    if (o.thrown)
    {
        same_fds(before, "after the failure");
        PV_CHECK(no_child(), "%s: a process is left after the failure", now_doing.c_str());
        try { create(); }
        catch (const std::exception &e) { cx().fail("%s failed again with nothing refused: %s", now_doing.c_str(), e.what()); }
    }
    verify();
    drop();
    same_fds(before, "after the end");
}
bool nonblocking(int fd) { return fcntl(fd, F_GETFL) & O_NONBLOCK; }

std::string readall(int fd)
{
    std::string s;
    char b[8192];
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, n);
    return s;
}
struct Fd
{
    int fd = -1;
    explicit Fd(int f = -1) : fd(f) {}
    Fd(const Fd &) = delete;
    Fd(Fd &&o) : fd(o.fd) { o.fd = -1; }
    ~Fd() { reset(); }
    void reset(int f = -1)
    {
        if (fd >= 0) close(fd);
        fd = f;
    }
};
sockaddr_in addr4(const std::string &ip, int port)
{
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
    return a;
}
int port_of(int fd)
{
    sockaddr_storage a;
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr *)&a, &l);
    return a.ss_family == AF_INET ? ntohs(((sockaddr_in *)&a)->sin_port) : a.ss_family == AF_INET6 ? ntohs(((sockaddr_in6 *)&a)->sin6_port) : -1;
}
const family FAMS[] = {family::ipv4, family::ipv6, family::local};
std::string host(family f, int k = 1) { return f == family::ipv6 ? "::1" : ip4(25, k); }
std::string sockpath() { return scratch() + "/s" + std::to_string(unique()); }
void bind_any(nsock &s, family f, const std::string &path)
{
    if (f == family::local) s.bind_unix(path, true);
    else or_skip([&] { s.bind(host(f), 0); });
}

// ---- streams
void op_streams(Src &r)
{
    int kind = (int)r.range(0, 2);
    std::vector<std::shared_ptr<nstream>> p;
    std::string path = scratch() + "/f" + std::to_string(unique());
    if (kind == 2) mkfifo(path.c_str(), 0700);
    now_doing = kind ? "creating fifos" : "creating pipes";
    creation(r, [&] { p = kind ? nio_factory::get_fifos(path) : nio_factory::get_pipes(); },
        [&] {
            PV_CHECK(p.size() == 2 && p[0] && p[1], "%s gave no pair", now_doing.c_str());
            PV_CHECK(nonblocking(p[0]->fd()) && nonblocking(p[1]->fd()), "%s gave a blocking end", now_doing.c_str());
            p[1]->wbuffer().put_string("abc");
            p[1]->write_all();
            p[0]->read_all();
            PV_CHECK(p[0]->rbuffer().get_string() == "abc", "%s gave ends that are not connected", now_doing.c_str());
        },
        [&] { p.clear(); });
    unlink(path.c_str());
}
void op_mode(Src &r)
{
    auto before = fds();
    {
        auto p = nio_factory::get_pipes();
        for (int k = 0; k < 3; ++k)
        {
            bool block = r.chance(1, 2), was = !nonblocking(p[0]->fd());
            now_doing = block ? "making a stream block" : "making a stream not block";
            auto go = [&] { if (block) p[0]->set_io_block(); else p[0]->set_io_nonblock(); };
            Out o = attempt(r, go);
            if (o.fn) PV_CHECK(o.thrown, "%s was refused and nothing is said", now_doing.c_str());
            PV_CHECK(!nonblocking(p[0]->fd()) == (o.thrown ? was : block), "after %s, which %s, it %s", now_doing.c_str(), o.thrown ? "failed" : "succeeded", nonblocking(p[0]->fd()) ? "does not block" : "blocks");
            if (o.thrown) { go(); PV_CHECK(!nonblocking(p[0]->fd()) == block, "%s again has no effect", now_doing.c_str()); }
        }
    }
    same_fds(before, "after the end");
}
void op_transfer(Src &r)
{
    bool rd = r.chance(1, 2);
    now_doing = rd ? "reading a stream" : "writing a stream";
    auto before = fds();
    {
        int p[2];
        if (pipe(p)) cx().fail("pipe");
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        fcntl(p[1], F_SETFL, O_NONBLOCK);
        Fd other(p[rd ? 1 : 0]);
        nstream s(p[rd ? 0 : 1]);
        std::string prior = bytes(r.word(), r.range(0, 30)), data = bytes(r.word(), r.range(1, 9000));
        int step = (int)r.range(1, 2000);
        bool all = r.chance(2, 3);
        if (rd)
        {
            s.rbuffer().put_string(prior);
            if (write(other.fd, data.data(), data.size()) != (ssize_t)data.size()) cx().fail("write");
            int n = -1;
            Out o = attempt(r, [&] { n = all ? s.read_all(step) : s.read_chunk(step); });
            std::string got = s.rbuffer().get_string(-1, false);
            PV_CHECK(got.size() >= prior.size() && got == (prior + data).substr(0, got.size()), "after a %s read the buffer holds %s", o.thrown ? "failed" : "good", show(got).c_str());
            if (!o.thrown) PV_CHECK(n == (int)(got.size() - prior.size()), "a read reported %d bytes, the buffer grew by %zu", n, got.size() - prior.size());
            if (o.err != EINTR && o.fn) PV_CHECK(o.thrown, "a read failed with %s and nothing is said", strerrorname_np(o.err));
            PV_CHECK(!s.eof() && !s.is_reset() && !s.eop(), "a failed read made the stream end");
            s.read_all();
            got = s.rbuffer().get_string(-1, false);
            PV_CHECK(got == prior + data, "after another read the buffer holds %zu bytes instead of %zu: %s", got.size(), prior.size() + data.size(), show(got).c_str());
        }
        else
        {
            s.wbuffer().put_string(data);
            int n = -1;
            Out o = attempt(r, [&] { n = all ? s.write_all(step) : s.write_chunk(step); });
            std::string got = readall(other.fd), left = s.wbuffer().get_string(-1, false);
            PV_CHECK(got + left == data, "after a %s write %zu bytes were sent and %zu are left of %zu", o.thrown ? "failed" : "good", got.size(), left.size(), data.size());
            if (!o.thrown) PV_CHECK(n == (int)got.size(), "a write reported %d bytes, %zu arrived", n, got.size());
            if (o.err != EINTR && o.fn) PV_CHECK(o.thrown, "a write failed with %s and nothing is said", strerrorname_np(o.err));
            PV_CHECK(!s.eof() && !s.is_reset() && !s.eop(), "a failed write made the stream end");
            s.write_all();
            PV_CHECK(got + readall(other.fd) == data && s.wbuffer().size() == 0, "another write did not send the rest");
        }
    }
    same_fds(before, "after the end");
}

// ---- sockets
void op_socket(Src &r)
{
    family f = FAMS[r.range(0, 2)];
    bool udp = r.chance(1, 2);
    now_doing = udp ? "creating a datagram socket" : "creating a stream socket";
    std::shared_ptr<nsocktcp> t;
    std::shared_ptr<nsockudp> u;
    creation(r, [&] { if (udp) u = nio_factory::get_nsockudp(f); else t = nio_factory::get_nsocktcp(f); },
        [&] {
            int fd = udp ? u->fd() : t->fd();
            int ty = 0;
            socklen_t l = sizeof ty;
            PV_CHECK(getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &l) == 0 && ty == (udp ? SOCK_DGRAM : SOCK_STREAM), "%s gave another type", now_doing.c_str());
            PV_CHECK(nonblocking(fd), "%s gave a blocking one", now_doing.c_str());
        },
        [&] { t.reset(); u.reset(); });
}
void op_bind(Src &r)
{
    family f = FAMS[r.range(0, 2)];
    bool udp = r.chance(1, 3), stale = r.chance(1, 2);
    now_doing = "binding a socket";
    auto before = fds();
    std::string path = sockpath();
    {
        std::shared_ptr<nsocktcp> t;
        std::shared_ptr<nsockudp> u;
        if (udp) u = nio_factory::get_nsockudp(f);
        else t = nio_factory::get_nsocktcp(f);
        nsock &s = udp ? static_cast<nsock &>(*u) : static_cast<nsock &>(*t);
        if (f == family::local && stale)
        {
            Fd x(socket(AF_UNIX, SOCK_DGRAM, 0));
            sockaddr_un a;
            memset(&a, 0, sizeof a);
            a.sun_family = AF_UNIX;
            strcpy(a.sun_path, path.c_str());
            bind(x.fd, (sockaddr *)&a, sizeof a);
        }
        auto go = [&] { if (f == family::local) s.bind_unix(path, stale); else s.bind(host(f), 0); };
        Out o = attempt(r, go, true);
        if (o.thrown && !o.fn) throw CaseSkip();
        if (o.thrown)
        {
            PV_CHECK(f == family::local || port_of(s.fd()) == 0, "the socket is bound after a failure");
            or_skip(go);
        }
        sockaddr_storage a;
        socklen_t l = sizeof a;
        PV_CHECK(getsockname(s.fd(), (sockaddr *)&a, &l) == 0, "getsockname");
        if (f == family::local) PV_CHECK(((sockaddr_un *)&a)->sun_path == path, "the socket is not bound to its path");
        else PV_CHECK(port_of(s.fd()) > 0, "the socket is not bound");
    }
    unlink(path.c_str());
    same_fds(before, "after the end");
}
void op_listen(Src &r)
{
    family f = FAMS[r.range(0, 2)];
    now_doing = "listening";
    auto before = fds();
    std::string path = sockpath();
    {
        auto t = nio_factory::get_nsocktcp(f);
        bind_any(*t, f, path);
        Out o = attempt(r, [&] { t->listen(); });
        int on = -1;
        socklen_t l = sizeof on;
        getsockopt(t->fd(), SOL_SOCKET, SO_ACCEPTCONN, &on, &l);
        PV_CHECK(on == (o.thrown ? 0 : 1), "a listening attempt %s, the socket is %slistening", o.thrown ? "failed" : "succeeded", on ? "" : "not ");
        if (o.thrown)
        {
            t->listen();
            getsockopt(t->fd(), SOL_SOCKET, SO_ACCEPTCONN, &on, &l);
            PV_CHECK(on == 1, "listening again did nothing");
        }
    }
    unlink(path.c_str());
    same_fds(before, "after the end");
}
// a raw listening socket
struct Listener
{
    Fd fd;
    family f;
    std::string path;
    int port = 0;
    explicit Listener(family fam) : f(fam)
    {
        fd.reset(socket(f == family::ipv4 ? AF_INET : f == family::ipv6 ? AF_INET6 : AF_UNIX, SOCK_STREAM, 0));
        sockaddr_storage ss;
        memset(&ss, 0, sizeof ss);
        socklen_t l;
        if (f == family::ipv4) { *(sockaddr_in *)&ss = addr4(host(f), 0); l = sizeof(sockaddr_in); }
        else if (f == family::ipv6)
        {
            auto a = (sockaddr_in6 *)&ss;
            a->sin6_family = AF_INET6;
            a->sin6_addr = in6addr_loopback;
            l = sizeof *a;
        }
        else
        {
            path = sockpath();
            auto a = (sockaddr_un *)&ss;
            a->sun_family = AF_UNIX;
            strcpy(a->sun_path, path.c_str());
            l = sizeof *a;
        }
        if (bind(fd.fd, (sockaddr *)&ss, l) || listen(fd.fd, 64)) throw CaseSkip();
        port = port_of(fd.fd);
        fcntl(fd.fd, F_SETFL, O_NONBLOCK);
    }
    ~Listener() { if (!path.empty()) unlink(path.c_str()); }
    int pending()
    {
        int n = 0;
        for (;;)
        {
            pollfd p{fd.fd, POLLIN, 0};
            poll(&p, 1, 5);
            int x = accept(fd.fd, nullptr, nullptr);
            if (x < 0) return n;
            if (f != family::local) no_linger(x);
            close(x);
            ++n;
        }
    }
};
void op_connect(Src &r)
{
    family f = FAMS[r.range(0, 2)];
    now_doing = "connecting";
    auto before = fds();
    {
        Listener l(f);
        auto t = nio_factory::get_nsocktcp(f);
        bool ok = false;
        auto go = [&] { return f == family::local ? t->connect_unix(l.path) : t->connect(host(f), l.port); };
        Out o = attempt(r, [&] { ok = go(); }, true);
        if (o.thrown && !o.fn) cx().fail("connecting failed with nothing refused");
        if (o.fn && !strcmp(o.fn, "connect"))
        {
            PV_CHECK(o.thrown || !ok, "a refused connection is reported as made");
            PV_CHECK(l.pending() == 0, "a refused connection is made");
        }
        else PV_CHECK(ok || o.thrown, "a connection is reported as refused, and nothing was");
        if (!ok) ok = go();
        if (!ok && errno == EADDRNOTAVAIL) throw CaseSkip();
        PV_CHECK(ok, "connecting again failed");
        PV_CHECK(wait_for(t->fd(), POLLOUT) && t->check_connect(), "the connection is not made");
        PV_CHECK(l.pending() == 1, "the connection did not arrive");
        if (f != family::local) no_linger(t->fd());
    }
    same_fds(before, "after the end");
}
void op_accept(Src &r)
{
    family f = FAMS[r.range(0, 2)];
    now_doing = "accepting";
    auto before = fds();
    std::string path = sockpath();
    {
        auto t = nio_factory::get_nsocktcp(f);
        bind_any(*t, f, path);
        t->listen();
        int n = (int)r.range(1, 5), batch = (int)r.range(1, 8);
        int port = port_of(t->fd());
        std::vector<std::shared_ptr<nsocktcp>> cl, got;
        for (int i = 0; i < n; ++i)
        {
            cl.push_back(nio_factory::get_nsocktcp(f));
            bool ok = f == family::local ? cl[i]->connect_unix(path) : cl[i]->connect(host(f), port);
            if (!ok && errno == EADDRNOTAVAIL) throw CaseSkip();
            PV_CHECK(ok, "connect failed");
            PV_CHECK(wait_for(cl[i]->fd(), POLLOUT), "connect does not end");
            cl[i]->wbuffer().put_string(std::string(1, 'a' + i));
            cl[i]->write_all();
        }
        wait_for(t->fd(), POLLIN);
        auto inside = fds();
        std::vector<std::shared_ptr<nsocktcp>> v;
        Out o = attempt(r, [&] { v = t->accept(batch); });
        bool init = o.fn && strncmp(o.fn, "accept", 6);   // an accepted one could not be set up
        if (o.thrown) same_fds(inside, "after the failure");
        PV_CHECK((int)v.size() <= std::min(n, batch), "accepting %d at most of %d gave %zu", batch, n, v.size());
        if (!o.fn) PV_CHECK((int)v.size() == std::min(n, batch), "accepting %d at most of %d gave %zu", batch, n, v.size());
        got = v;
        for (int i = 0; i < 10 && (int)got.size() < n; ++i)
        {
            v = t->accept(10);
            got.insert(got.end(), v.begin(), v.end());
        }
        std::set<std::string> who;
        for (auto &x : got)
        {
            PV_CHECK(nonblocking(x->fd()), "an accepted connection is blocking");
            PV_CHECK(wait_for(x->fd(), POLLIN), "an accepted connection is silent");
            x->read_all();
            std::string s = x->rbuffer().get_string();
            PV_CHECK(s.size() == 1 && who.insert(s).second, "an accepted connection says %s", show(s).c_str());
            if (f != family::local) no_linger(x->fd());
        }
        if (!init) PV_CHECK((int)got.size() == n, "of %d connections %zu were handed over", n, got.size());
        // those not handed over have ended, nobody waits in vain
        for (int i = 0; i < n; ++i)
            if (!who.count(std::string(1, 'a' + i)))
            {
                PV_CHECK(wait_for(cl[i]->fd(), POLLIN), "a connection was neither handed over nor ended");
                cl[i]->read_all();
                PV_CHECK(cl[i]->eof() || cl[i]->is_reset(), "a connection was neither handed over nor ended");
            }
        for (auto &x : cl)
            if (f != family::local) no_linger(x->fd());
    }
    unlink(path.c_str());
    same_fds(before, "after the end");
}
void op_options(Src &r)
{
    now_doing = "a socket option";
    auto before = fds();
    {
        auto t = nio_factory::get_nsocktcp(family::ipv4);
        auto u = nio_factory::get_nsockudp(family::ipv4);
        auto raw = [](int fd, int lv, int n) { int v = -1; socklen_t l = sizeof v; getsockopt(fd, lv, n, &v, &l); return v; };
        struct Opt
        {
            const char *name;
            int fd, lv, opt;
            std::function<void(int)> set;
            std::function<int()> get;
            bool flag;
        };
        const Opt opts[] = {
            {"SO_REUSEADDR", t->fd(), SOL_SOCKET, SO_REUSEADDR, [&](int v) { t->set_so_reuseaddr(v); }, [&] { return (int)t->get_so_reuseaddr(); }, true},
            {"SO_REUSEPORT", u->fd(), SOL_SOCKET, SO_REUSEPORT, [&](int v) { u->set_so_reuseport(v); }, [&] { return (int)u->get_so_reuseport(); }, true},
            {"SO_RCVBUF", t->fd(), SOL_SOCKET, SO_RCVBUF, [&](int v) { t->set_so_rcvbuf(v); }, [&] { return t->get_so_rcvbuf(); }, false},
            {"SO_SNDBUF", u->fd(), SOL_SOCKET, SO_SNDBUF, [&](int v) { u->set_so_sndbuf(v); }, [&] { return u->get_so_sndbuf(); }, false},
            {"SO_RCVLOWAT", t->fd(), SOL_SOCKET, SO_RCVLOWAT, [&](int v) { t->set_so_rcvlowat(v); }, [&] { return t->get_so_rcvlowat(); }, false},
            {"SO_KEEPALIVE", t->fd(), SOL_SOCKET, SO_KEEPALIVE, [&](int v) { t->set_so_keepalive(v); }, [&] { return (int)t->get_so_keepalive(); }, true},
            {"SO_BROADCAST", u->fd(), SOL_SOCKET, SO_BROADCAST, [&](int v) { u->set_so_broadcast(v); }, [&] { return (int)u->get_so_broadcast(); }, true},
            {"TCP_NODELAY", t->fd(), IPPROTO_TCP, TCP_NODELAY, [&](int v) { t->set_tcp_nodelay(v); }, [&] { return (int)t->get_tcp_nodelay(); }, true},
            {"SO_LINGER", t->fd(), SOL_SOCKET, SO_LINGER, [&](int v) { t->set_so_linger(v, v); }, [&] { return (int)t->get_so_linger().first; }, true},
            {"SO_ERROR", t->fd(), SOL_SOCKET, SO_ERROR, nullptr, [&] { return t->get_so_error(); }, true},
            {"SO_SNDLOWAT", t->fd(), SOL_SOCKET, SO_SNDLOWAT, nullptr, [&] { return t->get_so_sndlowat(); }, false},
        };
        const Opt &p = opts[r.range(0, 10)];
        now_doing = std::string("option ") + p.name;
        int old = raw(p.fd, p.lv, p.opt);
        if (p.set && r.chance(1, 2))
        {
            int v = p.flag ? !old : (int)r.range(3000, 9000);
            Out o = attempt(r, [&] { p.set(v); });
            int now = raw(p.fd, p.lv, p.opt);
            if (o.thrown)
            {
                PV_CHECK(now == old, "option %s changed although setting it failed", p.name);
                p.set(v);
                now = raw(p.fd, p.lv, p.opt);
            }
            if (p.flag) PV_CHECK(!!now == !!v, "option %s is %d after setting it to %d", p.name, now, v);
            else PV_CHECK(now == v || now == 2 * v, "option %s is %d after setting it to %d", p.name, now, v);
        }
        else
        {
            int v = -1;
            Out o = attempt(r, [&] { v = p.get(); });
            if (o.thrown) v = p.get();
            if (p.flag) PV_CHECK(!!v == !!old, "option %s reads %d, it is %d", p.name, v, old);
            else PV_CHECK(v == old, "option %s reads %d, it is %d", p.name, v, old);
        }
    }
    same_fds(before, "after the end");
}
void op_names(Src &r)
{
    family f = r.chance(1, 2) ? family::ipv4 : family::ipv6;
    now_doing = "asking for a name";
    auto before = fds();
    {
        Listener l(f);
        auto t = nio_factory::get_nsocktcp(f);
        if (!t->connect(host(f), l.port)) throw CaseSkip();
        wait_for(t->fd(), POLLOUT);
        bool peer = r.chance(1, 2);
        std::tuple<std::string, int, family> n;
        Out o = attempt(r, [&] { n = peer ? t->peername() : t->sockname(); });
        if (o.thrown) n = peer ? t->peername() : t->sockname();
        PV_CHECK(std::get<1>(n) == (peer ? l.port : port_of(t->fd())) && std::get<2>(n) == f, "the %s name has port %d", peer ? "peer's" : "socket's", std::get<1>(n));
        if (!peer || f == family::ipv4 || true) PV_CHECK(!peer || std::get<0>(n) == host(f), "the peer's name is %s", std::get<0>(n).c_str());
        no_linger(t->fd());
        l.pending();
    }
    same_fds(before, "after the end");
}
void op_datagram(Src &r)
{
    family f = FAMS[r.range(0, 2)];
    bool send = r.chance(1, 2);
    now_doing = send ? "sending a datagram" : "receiving a datagram";
    auto before = fds();
    std::string path = sockpath();
    {
        auto rx = nio_factory::get_nsockudp(f), tx = nio_factory::get_nsockudp(f);
        bind_any(*rx, f, path);
        int port = port_of(rx->fd());
        std::string data = bytes(r.word(), r.range(1, 2000)), prior = bytes(r.word(), r.range(0, 20));
        tx->wbuffer().put_string(data);
        auto go = [&] { if (f == family::local) tx->send_unix(path); else tx->send(host(f), port); };
        rx->rbuffer().put_string(prior);
        if (send)
        {
            Out o = attempt(r, go);
            if (o.thrown)
            {
                PV_CHECK(tx->wbuffer().get_string(-1, false) == data, "a failed sending changed the buffer");
                pollfd p{rx->fd(), POLLIN, 0};
                PV_CHECK(poll(&p, 1, 0) == 0, "a failed sending delivered something");
                go();
            }
            PV_CHECK(tx->wbuffer().size() == 0, "a sent datagram is still in the buffer");
            wait_for(rx->fd(), POLLIN);
            rx->recv();
        }
        else
        {
            go();
            wait_for(rx->fd(), POLLIN);
            Out o = attempt(r, [&] { rx->recv(); });
            if (o.thrown)
            {
                std::string s = rx->rbuffer().get_string(-1, false);
                PV_CHECK(s == prior, "a failed receiving left %s in the buffer", show(s).c_str());
                rx->recv();
            }
        }
        std::string s = rx->rbuffer().get_string(-1, false);
        PV_CHECK(s == prior + data, "the datagram of %zu bytes arrived as %zu: %s", data.size(), s.size() - prior.size(), show(s).c_str());
        bool more = true;
        pollfd p{rx->fd(), POLLIN, 0};
        more = poll(&p, 1, 0) > 0;
        PV_CHECK(!more, "the datagram arrived twice");
    }
    unlink(path.c_str());
    same_fds(before, "after the end");
}

// ---- event loops
void op_loop(Src &r)
{
    now_doing = "creating an event loop";
    std::unique_ptr<event_loop> e;
    creation(r, [&] { e = std::make_unique<event_loop>(); },
        [&] { PV_CHECK(fcntl(e->ev_fd(), F_GETFD) >= 0, "the loop has no descriptor"); e->loop_once(0); },
        [&] { e.reset(); });
}
struct Pipe
{
    std::shared_ptr<nstream> rd;
    Fd wr;
    Pipe()
    {
        int p[2];
        if (pipe(p)) cx().fail("pipe");
        rd = std::make_shared<nstream>(p[0]);
        wr.reset(p[1]);
    }
    void fill() { if (write(wr.fd, "x", 1) != 1) cx().fail("write"); }
    void drain() { rd->read_all(); rd->rbuffer().clear(); }
};
void op_events(Src &r)
{
    auto before = fds();
    {
        event_loop ev;
        int a = 0, b = 0, other = 0;
        Pipe o, p;
        ev.fd_register(o.rd, fd_event::fd_readable, [&](const std::shared_ptr<nio> &) { ++other; });
        auto handler = [](int &n) { return [&n](const std::shared_ptr<nio> &) { ++n; }; };
        auto once = [&](int ea, int eb, const char *when) {
            a = b = other = 0;
            bool bystander = r.chance(1, 2);
            if (bystander) o.fill();
            ev.loop_once(0);
            PV_CHECK(a == ea && b == eb, "%s: %s the handlers were called %d and %d times instead of %d and %d", now_doing.c_str(), when, a, b, ea, eb);
            PV_CHECK(other == (int)bystander, "%s: %s another handler was called %d times instead of %d", now_doing.c_str(), when, other, (int)bystander);
            if (bystander) o.drain();
        };
        int loads = ev.ev_loads();
        int kind = (int)r.range(0, 5);
        if (kind == 0)
        {
            now_doing = "registering an event";
            auto go = [&] { ev.fd_register(p.rd, fd_event::fd_readable, handler(a), true, r.chance(1, 2) ? p0 : p3); };
            Out x = attempt(r, go);
            p.fill();
            if (x.thrown)
            {
                PV_CHECK(ev.ev_loads() == loads, "a failed registration changed the load from %d to %d", loads, ev.ev_loads());
                once(0, 0, "after the failure");
                go();
            }
            PV_CHECK(ev.ev_loads() == loads + 1, "the load is %d instead of %d", ev.ev_loads(), loads + 1);
            once(1, 0, "registered");
            ev.fd_remove(p.rd);
            once(0, 0, "removed");
        }
        else if (kind == 1)
        {
            now_doing = "removing an event";
            ev.fd_register(p.rd, fd_event::fd_readable, handler(a));
            p.fill();
            Out x = attempt(r, [&] { ev.fd_remove(p.rd); });
            if (x.thrown)
            {
                PV_CHECK(ev.ev_loads() == loads + 1, "a failed removal changed the load");
                once(1, 0, "after the failure");
                ev.fd_remove(p.rd);
            }
            PV_CHECK(ev.ev_loads() == loads, "the load is %d after the removal", ev.ev_loads());
            once(0, 0, "removed");
        }
        else if (kind == 2)
        {
            now_doing = "waiting for events";
            ev.fd_register(p.rd, fd_event::fd_readable, handler(a));
            p.fill();
            Out x = attempt(r, [&] { ev.loop_once(0); });
            if (x.fn) PV_CHECK(a == 0, "a handler was called although waiting failed");
            else PV_CHECK(a == 1, "a handler was called %d times", a);
            once(1, 0, "waiting again");
            ev.fd_remove(p.rd);
        }
        else if (kind == 3)
        {
            // refused by the system itself: a file cannot be waited for
            now_doing = "registering a file";
            std::string path = scratch() + "/file" + std::to_string(unique());
            int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
            std::weak_ptr<nio> w;
            {
                auto s = std::make_shared<nstream>(fd);
                w = s;
                bool thrown = false;
                int code = 0;
                try { ev.fd_register(s, fd_event::fd_readable, handler(a)); }
                catch (const std::system_error &e) { thrown = true; code = e.code().value(); }
                PV_CHECK(thrown && code == EPERM, "registering a file was %s", thrown ? "refused for another reason" : "accepted");
                PV_CHECK(ev.ev_loads() == loads, "a failed registration changed the load from %d to %d", loads, ev.ev_loads());
            }
            PV_CHECK(w.expired(), "the loop keeps what it could not register");
            unlink(path.c_str());
            ++fired;
            // the number goes to somebody else
            int q[2];
            if (pipe(q)) cx().fail("pipe");
            {
                Fd wr(q[1]);
                if (q[0] != fd) { dup2(q[0], fd); close(q[0]); }
                auto s = std::make_shared<nstream>(fd);
                ev.fd_register(s, fd_event::fd_readable, handler(b));
                if (write(wr.fd, "x", 1) != 1) cx().fail("write");
                once(0, 1, "with the number reused");
                ev.fd_remove(s);
            }
        }
        else if (kind == 4)
        {
            // refused by the system itself: already active
            now_doing = "registering twice";
            ev.fd_register(p.rd, fd_event::fd_readable, handler(a));
            p.fill();
            bool thrown = false;
            int code = 0;
            try { ev.fd_register(p.rd, fd_event::fd_readable, handler(b)); }
            catch (const std::system_error &e) { thrown = true; code = e.code().value(); }
            ++fired;
            if (thrown)
            {
                PV_CHECK(code == EEXIST, "the exception says %d", code);
                PV_CHECK(ev.ev_loads() == loads + 1, "a failed registration changed the load");
            }
            once(1, thrown ? 0 : 1, "after a second registration");
            ev.fd_remove(p.rd);
            once(0, 0, "removed");
        }
        else
        {
            // refused by the system itself: not active
            now_doing = "deactivating an inactive one";
            ev.fd_register(p.rd, fd_event::fd_readable, handler(a), false);
            bool thrown = false;
            int code = 0;
            try { ev.fd_remove(p.rd); }
            catch (const std::system_error &e) { thrown = true; code = e.code().value(); }
            ++fired;
            if (thrown)
            {
                PV_CHECK(code == ENOENT, "the exception says %d", code);
                PV_CHECK(ev.ev_loads() == loads + 1, "a failed removal changed the load");
                ev.fd_remove(p.rd, true, false);
            }
            PV_CHECK(ev.ev_loads() == loads, "the load is %d after the removal", ev.ev_loads());
            p.fill();
            once(0, 0, "removed");
        }
        ev.fd_remove(o.rd);
    }
    same_fds(before, "after the end");
}

// ---- shared memory and semaphores
void op_shm(Src &r)
{
    std::string name = "/" + tag() + "m" + std::to_string(unique()), file = "/dev/shm" + name;
    bool pre = r.chance(1, 2), small = r.chance(1, 2);
    int size = (int)r.range(1, 20000);
    struct Rm { std::string n; ~Rm() { shm_unlink(n.c_str()); } } rm{name};
    now_doing = "opening shared memory";
    auto before = fds();
    if (pre)
    {
        Fd f(shm_open(name.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600));
        int s = small ? (size + 1) / 2 : size;
        if (ftruncate(f.fd, s) || pwrite(f.fd, "Q", 1, 0) != 1) cx().fail("setup");
    }
    std::unique_ptr<shared_memory> m;
    bool again = r.chance(2, 3);
    Out o = attempt(r, [&] { m = std::make_unique<shared_memory>(name, size); });
    if (o.thrown)
    {
        same_fds(before, "after the failure");
        PV_CHECK(mappings(name) == 0, "the memory is mapped after a failure");
        // who fails to undo its creation for lack of permission has said so
        if (!o.fn || strcmp(o.fn, "shm_unlink")) PV_CHECK(exists(file) == pre, "after a failure the name %s", pre ? "is gone" : "is left");
        if (!again) return;
        m = std::make_unique<shared_memory>(name, size);
    }
    PV_CHECK(m->creator() == !pre, "creator() is %d", (int)m->creator());
    PV_CHECK(m->ptr() && m->size() == size && mappings(name) == 1, "the memory is not mapped");
    volatile char *p = static_cast<char *>(m->ptr());
    PV_CHECK(p[0] == (pre ? 'Q' : 0) && (size == 1 || p[size - 1] == 0), "the memory has other content");
    p[size - 1] = 'Z';
    same_fds(before, "opened");
    now_doing = "unlinking shared memory";
    o = attempt(r, [&] { m->unlink(); });
    PV_CHECK(exists(file) == o.thrown, "unlinking %s, and the name is %s", o.thrown ? "failed" : "succeeded", exists(file) ? "there" : "gone");
    if (o.thrown) { m->unlink(); PV_CHECK(!exists(file), "unlinking again did nothing"); }
    PV_CHECK(p[size - 1] == 'Z', "the content changed");
    m.reset();
    PV_CHECK(mappings(name) == 0, "the memory is still mapped after the end");
    same_fds(before, "after the end");
}
void op_sem(Src &r)
{
    std::string name = "/" + tag() + "s" + std::to_string(unique()), file = "/dev/shm/sem." + name.substr(1);
    bool pre = r.chance(1, 2);
    struct Rm { std::string n; ~Rm() { sem_unlink(n.c_str()); } } rm{name};
    now_doing = "opening a semaphore";
    auto before = fds();
    int tokens = (int)r.range(0, 5);
    sem_t *raw = SEM_FAILED;
    struct Cl { sem_t *&s; ~Cl() { if (s != SEM_FAILED) sem_close(s); } } cl{raw};
    if (pre) raw = sem_open(name.c_str(), O_CREAT | O_EXCL, 0600, tokens);
    std::unique_ptr<semaphore> s;
    Out o = attempt(r, [&] { s = std::make_unique<semaphore>(name); });
    if (o.thrown)
    {
        same_fds(before, "after the failure");
        PV_CHECK(exists(file) == pre, "after a failure the name %s", pre ? "is gone" : "is left");
        s = std::make_unique<semaphore>(name);
    }
    PV_CHECK(s->creator() == !pre, "creator() is %d", (int)s->creator());
    if (!pre) { tokens = 0; raw = sem_open(name.c_str(), 0); }
    if (raw == SEM_FAILED) cx().fail("no semaphore of that name");
    auto count = [&](const char *when) {
        int v = -1;
        sem_getvalue(raw, &v);
        PV_CHECK(v == tokens, "%s: %s there are %d tokens instead of %d", now_doing.c_str(), when, v, tokens);
    };
    count("opened");
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i)
    {
        int k = (int)r.range(0, 2);
        if (k == 0)
        {
            now_doing = "releasing a token";
            o = attempt(r, [&] { s->release(); });
            if (!o.thrown) ++tokens;
        }
        else if (k == 1)
        {
            now_doing = "trying to acquire a token";
            bool got = false;
            o = attempt(r, [&] { got = s->try_acquire(); });
            if (o.fn) PV_CHECK(!got || o.err == EINTR, "a token was acquired although that was refused");
            else PV_CHECK(got == (tokens > 0), "trying gave %d with %d tokens", (int)got, tokens);
            if (o.fn && o.err == EINVAL) PV_CHECK(o.thrown, "trying to acquire a token failed with EINVAL and nothing is said");
            if (got) --tokens;
        }
        else if (tokens > 0)
        {
            now_doing = "acquiring a token";
            o = attempt(r, [&] { s->acquire(); });
            if (!o.thrown) --tokens;
        }
        count(o.thrown ? "after a failure" : "afterwards");
    }
    now_doing = "unlinking a semaphore";
    o = attempt(r, [&] { s->unlink(); });
    PV_CHECK(exists(file) == o.thrown, "unlinking %s, and the name is %s", o.thrown ? "failed" : "succeeded", exists(file) ? "there" : "gone");
    if (o.thrown) { s->unlink(); PV_CHECK(!exists(file), "unlinking again did nothing"); }
    s.reset();
    same_fds(before, "after the end");
}

// ---- subprocesses
struct Mask
{
    sigset_t m;
    Mask() { pthread_sigmask(SIG_SETMASK, nullptr, &m); }
    void check(const char *when)
    {
        Mask n;
        for (int s = 1; s < 65; ++s) PV_CHECK(sigismember(&m, s) == sigismember(&n.m, s), "%s: %s signal %d is %sblocked", now_doing.c_str(), when, s, sigismember(&n.m, s) ? "" : "no longer ");
    }
};
void op_subp(Src &r)
{
    now_doing = "starting a subprocess";
    Mask mask;
    std::unique_ptr<subp_open> s;
    auto before = fds();
    struct End
    {
        std::unique_ptr<subp_open> &s;
        ~End()
        {
            if (!s) return;
            ::kill(s->pid(), SIGKILL);
            int st;
            waitpid(s->pid(), &st, 0);
        }
    } end{s};
    Out o = attempt(r, [&] { s = std::make_unique<subp_open>("/bin/cat", std::vector<std::string>{}); });
    if (o.thrown)
    {
        same_fds(before, "after the failure");
        PV_CHECK(no_child(), "a process is left after a failure");
        mask.check("after the failure");
        s = std::make_unique<subp_open>("/bin/cat", std::vector<std::string>{});
    }
    std::string sent, want;
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        int k = (int)r.range(0, 3);
        if (k <= 1)
        {
            now_doing = "communicating with a subprocess";
            std::string in = bytes(r.word(), r.range(1, 3000), Alpha::text);
            o = attempt(r, [&] { s->communicate(in); });
            mask.check("afterwards");
            // a failure may have come before the input was taken over, or after
            if (o.thrown)
            {
                double t = now();
                std::string got;
                s->communicate();
                want += in;
                usleep(2000);
                while (now() < t + 10)
                {
                    s->communicate();
                    got = s->stdout();
                    if (got == want) break;
                    if (now() > t + 0.05 && got == want.substr(0, want.size() - in.size()))
                    {
                        want.resize(want.size() - in.size());
                        break;
                    }
                    usleep(1000);
                }
            }
            else want += in;
        }
        else if (k == 2)
        {
            now_doing = "asking for a subprocess";
            bool done = true;
            o = attempt(r, [&] { done = s->poll(); });
            if (!o.thrown) PV_CHECK(!done, "a running process is reported as ended");
            PV_CHECK(!s->poll(), "a running process is reported as ended");
        }
        else
        {
            now_doing = "signalling a subprocess";
            o = attempt(r, [&] { s->send_signal(SIGCONT); });
        }
        double t = now();
        std::string got;
        for (;;)
        {
            s->communicate();
            got = s->stdout();
            if (got.size() >= want.size() || now() > t + 10) break;
            usleep(500);
        }
        PV_CHECK(got == want, "%s: the subprocess echoed %zu bytes of %zu", now_doing.c_str(), got.size(), want.size());
    }
    now_doing = "ending a subprocess";
    o = attempt(r, [&] { s->kill(); });
    if (o.thrown)
    {
        PV_CHECK(!s->poll(), "a process that was not signalled has ended");
        s->kill();
    }
    now_doing = "waiting for a subprocess";
    o = attempt(r, [&] { s->wait(std::chrono::milliseconds(1)); });
    mask.check("afterwards");
    if (o.thrown) s->wait(std::chrono::milliseconds(1));
    int st = s->returncode();
    s.reset();
    PV_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "the status is %x", st);
    PV_CHECK(no_child(), "a process is left");
    same_fds(before, "after the end");
}

// ---- threads
struct Thr : runnable
{
    std::atomic<int> ran{0};
    std::atomic<bool> go{true};
    void run_impl() override
    {
        ++ran;
        while (!go) usleep(100);
    }
};
void op_thread(Src &r)
{
    now_doing = "starting a thread";
    auto t = std::make_unique<Thr>();
    Out o = attempt(r, [&] { t->run(); });
    if (o.thrown)
    {
        PV_CHECK(t->ran == 0, "the body ran although starting failed");
        PV_CHECK(!t->wait_for(std::chrono::milliseconds(0)), "a thread that was not started has finished");
        t->run();
    }
    if (r.chance(1, 2))
    {
        now_doing = "joining a thread";
        o = attempt(r, [&] { t->join(); });
        if (o.thrown) t->join();
        PV_CHECK(t->ran == 1, "after joining, the body ran %d times", (int)t->ran);
    }
    else
    {
        now_doing = "detaching a thread";
        o = attempt(r, [&] { t->detach(); });
        if (o.thrown) { t->detach(); }
        PV_CHECK(t->wait_for(std::chrono::seconds(20)), "a detached thread does not finish");
        PV_CHECK(t->ran == 1, "the body ran %d times", (int)t->ran);
    }
}

// ---- locks
template <typename T> struct Arena
{
    alignas(T) unsigned char b[sizeof(T)];
    T *p = nullptr;
    Arena() { mtx_lo = (const char *)b; mtx_hi = mtx_lo + sizeof b; }
    template <typename... A> void make(A &&...a) { p = new (b) T(std::forward<A>(a)...); }
    ~Arena()
    {
        ft.on = false;
        if (p) p->~T();
        mtx_lo = mtx_hi = nullptr;
    }
    T *operator->() { return p; }
    T &operator*() { return *p; }
};
template <typename T, typename... A> void make(Src &r, Arena<T> &a, A... args)
{
    Out o = attempt(r, [&] { a.make(args...); });
    if (o.thrown)
    {
        PV_CHECK(!a.p, "made");
        a.make(args...);
    }
}
void op_lock(Src &r)
{
    now_doing = "creating a lock";
    Arena<pshared_lock> l;
    make(r, l);
    bool held = false;
    int n = (int)r.range(1, 4);
    auto look = [&](const char *when) {
        bool free_ = l->try_lock();
        if (free_) l->unlock();
        PV_CHECK(free_ == !held, "%s: %s the lock is %s", now_doing.c_str(), when, free_ ? "free" : "held");
    };
    for (int i = 0; i < n; ++i)
    {
        Out o;
        if (held)
        {
            now_doing = "unlocking";
            o = attempt(r, [&] { l->unlock(); });
            held = o.thrown;
        }
        else if (r.chance(1, 2))
        {
            now_doing = "locking";
            o = attempt(r, [&] { l->lock(); });
            held = !o.thrown;
        }
        else
        {
            now_doing = "trying to lock";
            bool got = false;
            o = attempt(r, [&] { got = l->try_lock(); });
            if (o.fn) PV_CHECK(!got, "a refused lock is reported as taken");
            if (o.fn && o.err != EBUSY) PV_CHECK(o.thrown, "trying to lock failed with %s and nothing is said", strerrorname_np(o.err));
            if (!o.fn) PV_CHECK(got, "a free lock was not taken");
            held = got;
        }
        if (o.fn && o.err != EBUSY) PV_CHECK(o.thrown, "%s failed with %s and nothing is said", now_doing.c_str(), strerrorname_np(o.err));
        look(o.thrown ? "after a failure" : "afterwards");
    }
    if (held) l->unlock();
}
void op_rwlock(Src &r)
{
    now_doing = "creating a read-write lock";
    Arena<pshared_rwlock> l;
    make(r, l);
    int mode = 0;   // 0 free, 1 read, 2 write
    auto look = [&](const char *when) {
        bool rd = l->try_rdlock();
        if (rd) l->unlock();
        bool wr = l->try_wrlock();
        if (wr) l->unlock();
        PV_CHECK(rd == (mode != 2) && wr == (mode == 0), "%s: %s the lock is held %s", now_doing.c_str(), when, wr ? "by nobody" : rd ? "for reading" : "for writing");
    };
    if (r.chance(1, 2))
    {
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            Out o;
            if (mode)
            {
                now_doing = "unlocking a read-write lock";
                o = attempt(r, [&] { l->unlock(); });
                if (!o.thrown) mode = 0;
            }
            else
            {
                int k = (int)r.range(0, 3);
                bool got = true;
                now_doing = k == 0 ? "rdlock" : k == 1 ? "wrlock" : k == 2 ? "try_rdlock" : "try_wrlock";
                o = attempt(r, [&] {
                    if (k == 0) l->rdlock();
                    else if (k == 1) l->wrlock();
                    else got = k == 2 ? l->try_rdlock() : l->try_wrlock();
                });
                if (o.thrown) got = false;
                if (o.fn) PV_CHECK(!got, "%s: a refused lock is reported as taken", now_doing.c_str());
                else PV_CHECK(got, "%s: a free lock was not taken", now_doing.c_str());
                if (got) mode = k % 2 ? 2 : 1;
                if (o.fn && !(k >= 2 && (o.err == EBUSY || o.err == EAGAIN))) PV_CHECK(o.thrown, "%s failed with %s and nothing is said", now_doing.c_str(), strerrorname_np(o.err));
            }
            look(o.thrown ? "after a failure" : "afterwards");
        }
        if (mode) l->unlock();
    }
    else
    {
        // guards
        auto guard = [&](auto *tag, int m) {
            using G = std::remove_pointer_t<decltype(tag)>;
            std::unique_ptr<G> g;
            now_doing = "creating a guard";
            Out o = attempt(r, [&] { g = std::make_unique<G>(*l); });
            mode = o.thrown ? 0 : m;
            look("guarded");
            if (o.thrown) { g = std::make_unique<G>(*l); mode = m; look("guarded"); }
            now_doing = "unlocking a guard";
            o = attempt(r, [&] { g->unlock(); });
            if (!o.thrown) mode = 0;
            look(o.thrown ? "after a failure" : "afterwards");
            if (!o.thrown)
            {
                now_doing = "locking a guard";
                o = attempt(r, [&] { g->lock(); });
                if (!o.thrown) mode = m;
                look(o.thrown ? "after a failure" : "afterwards");
            }
            // an exception at its end would end the program
            now_doing = "the end of a guard";
            g.reset();
            mode = 0;
            look("afterwards");
        };
        if (r.chance(1, 2)) guard((rdlockguard *)nullptr, 1);
        else guard((wrlockguard *)nullptr, 2);
    }
}
struct CondSet
{
    pshared_lock l;
    pshared_cond c;
};
void op_cond(Src &r)
{
    int k = (int)r.range(0, 4);
    if (k == 3)
    {
        now_doing = "creating a fence";
        Arena<pshared_one_time_fence> f;
        make(r, f);
        PV_CHECK(!f->ok(), "a new fence is open");
        f->notify();
        f->wait();
        PV_CHECK(f->ok(), "an opened fence is closed");
        return;
    }
    if (k == 4)
    {
        now_doing = "creating a barrier";
        Arena<pshared_barrier> b;
        make(r, b, 1);
        b->wait();
        return;
    }
    now_doing = "creating a condition";
    Arena<CondSet> s;
    make(r, s);
    std::unique_lock<pshared_lock> lk(s->l);
    if (k == 0)
    {
        now_doing = "waiting for a condition";
        int asked = 0, need = (int)r.range(2, 4);
        std::atomic<bool> over{false};
        std::thread waker([&] { while (!over) { s->c.notify_all(); usleep(100); } });
        struct Join { std::atomic<bool> &o; std::thread &t; ~Join() { o = true; t.join(); } } j{over, waker};
        Out o = attempt(r, [&] { s->c.wait(lk, [&] { return ++asked >= need; }); });
        if (o.fn) PV_CHECK(o.thrown, "a failed wait is not reported");
        else PV_CHECK(asked == need, "the wait ended after %d questions", asked);
        PV_CHECK(lk.owns_lock() && !s->l.try_lock(), "the lock is free after a wait");
    }
    else
    {
        now_doing = "notifying";
        Out o = attempt(r, [&] { if (k == 1) s->c.notify_one(); else s->c.notify_all(); });
        if (o.fn) PV_CHECK(o.thrown, "a failed notification is not reported");
        PV_CHECK(!s->l.try_lock(), "the lock is free after a notification");
    }
    lk.unlock();
    PV_CHECK(s->l.try_lock(), "the lock is held after unlocking");
    s->l.unlock();
}

// ---- signals
std::atomic<int> seen{0};
void op_signal(Src &r)
{
    const int sig = SIGUSR2;
    Mask mask;
    struct sigaction old;
    sigaction(sig, nullptr, &old);
    signal(sig, [](int) { ++seen; });
    struct Back
    {
        struct sigaction o;
        sigset_t m;
        ~Back()
        {
            ft.on = false;
            signal(SIGUSR2, SIG_IGN);
            pthread_sigmask(SIG_SETMASK, &m, nullptr);
            sigaction(SIGUSR2, &o, nullptr);
        }
    } back{old, mask.m};
    seen = 0;
    auto handler = [&] {
        struct sigaction a;
        sigaction(sig, nullptr, &a);
        return (void *)a.sa_handler;
    };
    int k = (int)r.range(0, 8);
    Out o;
    switch (k)
    {
    case 0: case 1:
    {
        void *was = handler();
        now_doing = k ? "ignoring a signal" : "handling a signal";
        auto go = [&] { if (k) ignore_signal(sig); else handle_signal(sig, [](int) { seen += 10; }); };
        o = attempt(r, go);
        if (o.thrown) { PV_CHECK(handler() == was, "a failed change took place"); go(); }
        raise(sig);
        PV_CHECK(seen == (k ? 0 : 10), "the signal was handled another way");
        break;
    }
    case 2: case 3:
    {
        bool vec = r.chance(1, 2);
        if (k == 3) { sigset_t s; sigemptyset(&s); sigaddset(&s, sig); pthread_sigmask(SIG_BLOCK, &s, nullptr); }
        auto blocked = [&] { Mask m; return (bool)sigismember(&m.m, sig); };
        now_doing = k == 2 ? "blocking a signal" : "unblocking a signal";
        auto go = [&] {
            if (k == 2) { if (vec) thread_block_signal(std::vector<int>{sig}); else thread_block_signal(sig); }
            else { if (vec) thread_unblock_signal(std::vector<int>{sig}); else thread_unblock_signal(sig); }
        };
        o = attempt(r, go);
        if (o.thrown) { PV_CHECK(blocked() == (k == 3), "a failed change took place"); go(); }
        PV_CHECK(blocked() == (k == 2), "the signal is %sblocked", blocked() ? "" : "not ");
        break;
    }
    case 4:
    {
        now_doing = "raising a signal";
        o = attempt(r, [&] { thread_raise_signal(sig); });
        PV_CHECK(seen == (o.thrown ? 0 : 1), "the signal came %d times", (int)seen);
        break;
    }
    case 5:
    {
        now_doing = "sending a signal";
        o = attempt(r, [&] { send_signal(getpid(), sig); });
        for (int i = 0; i < 2000 && !o.thrown && !seen; ++i) usleep(1000);
        PV_CHECK(seen == (o.thrown ? 0 : 1), "the signal came %d times", (int)seen);
        break;
    }
    case 6:
    {
        now_doing = "asking for the mask or pending signals";
        bool pend = r.chance(1, 2), v = true;
        o = attempt(r, [&] { v = pend ? thread_check_signal_pending(sig) : thread_check_signal_mask(sig); });
        if (o.fn) PV_CHECK(o.thrown, "a failure is not reported");
        else PV_CHECK(!v, "a signal is reported that is not there");
        break;
    }
    case 7:
    {
        now_doing = "waiting for a signal";
        sigset_t s;
        sigemptyset(&s);
        sigaddset(&s, sig);
        pthread_sigmask(SIG_BLOCK, &s, nullptr);
        raise(sig);
        bool vec = r.chance(1, 2);
        int got = sig;
        auto go = [&] { if (vec) got = thread_wait_for_signal(std::vector<int>{sig}); else thread_wait_for_signal(sig); };
        o = attempt(r, go);
        sigpending(&s);
        PV_CHECK((bool)sigismember(&s, sig) == o.thrown, "waiting %s, the signal is %s", o.thrown ? "failed" : "succeeded", sigismember(&s, sig) ? "pending" : "taken");
        if (o.thrown) go();
        PV_CHECK(got == sig, "another signal is reported");
        break;
    }
    default:
    {
        now_doing = "looking for a process";
        bool v = false, grp = r.chance(1, 3);
        o = attempt(r, [&] { v = grp ? check_process_group(getpgrp()) : check_process(getpid()); });
        if (!o.thrown) PV_CHECK(v, "a living process is reported as gone");
        break;
    }
    }
}

struct Op { const char *name; void (*f)(Src &); unsigned weight; };
const Op OPS[] = {{"streams", op_streams, 4}, {"transfer", op_transfer, 4}, {"mode", op_mode, 1}, {"socket", op_socket, 3}, {"bind", op_bind, 3}, {"listen", op_listen, 1}, {"connect", op_connect, 2}, {"accept", op_accept, 4}, {"options", op_options, 2}, {"names", op_names, 1}, {"datagram", op_datagram, 3}, {"loop", op_loop, 1}, {"events", op_events, 6}, {"shm", op_shm, 5}, {"sem", op_sem, 4}, {"thread", op_thread, 2}, {"lock", op_lock, 3}, {"rwlock", op_rwlock, 3}, {"cond", op_cond, 3}, {"signal", op_signal, 4}};

void run_ops(const Case &c, bool sub)
{
    signal(SIGPIPE, SIG_IGN);
    fired = 0;
    unsigned total = 0;
    for (auto &o : OPS) total += o.weight;
    std::set<std::string> failing;
    for (auto &w : c.ops)
    {
        Src r(w);
        uint32_t x = r.word() % total;
        const Op *op = &OPS[0];
        for (auto &o : OPS)
        {
            op = &o;
            if (x < o.weight) break;
            x -= o.weight;
        }
        int was = fired;
        struct Off { ~Off() { ft.on = false; mtx_lo = mtx_hi = nullptr; } } off;
        if (sub) { cx().log("subprocess "); op_subp(r); }
        else { cx().log("%s ", op->name); op->f(r); }
        cx().log("; ");
        if (fired > was) failing.insert(sub ? "subprocess" : op->name);
    }
    if (fired) cx().label("refused");
    cx().nontrivial(fired >= 2);
}
Reg r1({"refusals", "histories of 1 to 12 operations out of every part that asks the system for something (streams, their modes, transfers, sockets, binding, listening, connecting, accepting, options, names, datagrams, event loops, registrations, shared memory, semaphores, threads, locks, guards, conditions, signals), each with at most one of its system calls refused with a plausible error, followed by the same operation unhindered; an operation fails with that very error or has its whole effect, and descriptors, mappings, names, processes, tokens, locks, masks, handlers and data are compared with what they were; non-trivial: at least two calls were refused",
        1, 24, 1, 12, 60000, 1500000, INPROC, 60, [](const Case &c) { run_ops(c, false); }});
Reg r2({"subprocess", "histories of 1 to 3 subprocesses that echo their input, with system calls refused at creation, communication, polling, signalling and waiting; non-trivial: at least two calls were refused",
        1, 40, 1, 3, 4000, 100000, INPROC, 60, [](const Case &c) { run_ops(c, true); }});
}
