// C02: stream reads and writes over pipes, fifos, files and sockets with an
// interposed read/write that cuts, interrupts or refuses transfers by plan.
#include "engine.h"
#include "net.h"
#include "cppev/nio.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sanitizer/asan_interface.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
struct Act { int kind; int arg; };
enum { PART, INTR, AGAIN, FULL, FERR };
struct Tap
{
    int fd = -1;
    std::deque<Act> plan;
    long calls = 0;
    long last = 0;       // result of the last call, negative errno
    long moved = 0;
    bool stop = false;   // a call was refused for good: would block, end, error
    int injected = 0;
};
Tap *taps[2] = {nullptr, nullptr};   // reading side, writing side
struct Spin {};

Tap *tap_of(int fd, bool wr)
{
    Tap *t = taps[wr];
    return t && t->fd == fd ? t : nullptr;
}
long done(Tap *t, long r)
{
    t->last = r;
    if (r > 0) t->moved += r;
    if (r == 0 || (r < 0 && r != -EINTR)) t->stop = true;
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
// decides; returns true if the call is answered here
bool act(Tap *t, bool wr, size_t &len, long &res)
{
    ++t->calls;
    if (t->calls > 2000000) cx().soft_fail("the call keeps trying for ever");
    if (t->plan.empty()) return false;
    Act a = t->plan.front();
    t->plan.pop_front();
    switch (a.kind)
    {
    case PART: if (len > 1) { len = 1 + a.arg % (len - 1); ++t->injected; } return false;
    case INTR: ++t->injected; res = -EINTR; return true;
    case AGAIN: ++t->injected; res = -EAGAIN; return true;
    case FERR: ++t->injected; res = wr && a.arg % 2 ? -EPIPE : -ECONNRESET; return true;
    default: return false;
    }
}
long do_io(int fd, void *buf, size_t len, bool wr, int flags, int sysno)
{
    Tap *t = tap_of(fd, wr);
    if (t)
    {
        if (len && __asan_region_is_poisoned(buf, len)) cx().soft_fail("%s of %zu bytes reaches outside the buffer", wr ? "a write" : "a read", len);
        long r;
        if (act(t, wr, len, r)) return done(t, r);
        r = sysno == SYS_sendto || sysno == SYS_recvfrom ? syscall(sysno, fd, buf, len, flags, nullptr, nullptr) : syscall(sysno, fd, buf, len);
        return done(t, r < 0 ? -errno : r);
    }
    return sysno == SYS_sendto || sysno == SYS_recvfrom ? syscall(sysno, fd, buf, len, flags, nullptr, nullptr) : syscall(sysno, fd, buf, len);
}
}
extern "C" ssize_t read(int fd, void *b, size_t n) { return do_io(fd, b, n, false, 0, SYS_read); }
extern "C" ssize_t write(int fd, const void *b, size_t n) { return do_io(fd, (void *)b, n, true, 0, SYS_write); }
extern "C" ssize_t recv(int fd, void *b, size_t n, int f) { return do_io(fd, b, n, false, f, SYS_recvfrom); }
extern "C" ssize_t send(int fd, const void *b, size_t n, int f) { return do_io(fd, (void *)b, n, true, f, SYS_sendto); }
extern "C" ssize_t readv(int fd, const iovec *v, int n)
{
    if (!tap_of(fd, false)) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return do_io(fd, v[i].iov_base, v[i].iov_len, false, 0, SYS_read);
    return 0;
}
extern "C" ssize_t writev(int fd, const iovec *v, int n)
{
    if (!tap_of(fd, true)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return do_io(fd, v[i].iov_base, v[i].iov_len, true, 0, SYS_write);
    return 0;
}

namespace
{
std::string ip4() { return pv::ip4(2); }

// both ends of a channel, as stream objects
struct Ends { std::shared_ptr<nstream> a, b; bool duplex; };

Ends make(size_t kind, Src &h)
{
    if (kind == 0)
    {
        auto p = nio_factory::get_pipes();
        int cap = (int)h.range(0, 2);
        if (cap) fcntl(p[1]->fd(), F_SETPIPE_SZ, cap == 1 ? 4096 : 8192);
        return {p[1], p[0], false};
    }
    if (kind == 1)
    {
        std::string path = scratch() + "/fifo" + std::to_string(unique());
        auto p = nio_factory::get_fifos(path);
        unlink(path.c_str());
        if (h.range(0, 1)) fcntl(p[1]->fd(), F_SETPIPE_SZ, 4096);
        return {p[1], p[0], false};
    }
    if (kind == 2)
    {
        std::string path = scratch() + "/file" + std::to_string(unique());
        int w = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), r = open(path.c_str(), O_RDONLY);
        unlink(path.c_str());
        return {std::make_shared<nstream>(w), std::make_shared<nstream>(r), false};
    }
    family f = kind == 3 ? family::ipv4 : kind == 4 ? family::ipv6 : family::local;
    auto l = nio_factory::get_nsocktcp(f);
    auto cl = nio_factory::get_nsocktcp(f);
    int sb = (int)h.range(0, 2);
    if (sb) { cl->set_so_sndbuf(sb == 1 ? 4608 : 20000); l->set_so_sndbuf(4608); l->set_so_rcvbuf(4608); cl->set_so_rcvbuf(4608); }
    std::string path = scratch() + "/sock" + std::to_string(unique());
    if (f == family::local) l->bind_unix(path);
    else or_skip([&] { l->bind(f == family::ipv4 ? ip4() : "::1", 0); });
    l->listen();
    bool ok = f == family::local ? cl->connect_unix(path) : cl->connect(f == family::ipv4 ? ip4() : "::1", std::get<1>(l->sockname()));
    if (f == family::local) unlink(path.c_str());
    PV_CHECK(ok, "connect failed");
    std::vector<std::shared_ptr<nsocktcp>> acc;
    for (int i = 0; i < 4000 && acc.empty(); ++i)
    {
        acc = l->accept(1);
        if (acc.empty()) { pollfd p{l->fd(), POLLIN, 0}; poll(&p, 1, 10); }
    }
    PV_CHECK(acc.size() == 1, "accept failed");
    for (int i = 0; i < 1000; ++i) { pollfd p{cl->fd(), POLLOUT, 0}; if (poll(&p, 1, 10) == 1) break; }
    return {cl, acc[0], true};
}

struct Dir
{
    nstream *w, *r;
    std::string pend;      // in the write buffer
    std::string fly;       // accepted by the system, not read yet
    std::string got;       // in the read buffer
    bool wopen = true, ropen = true;
    bool eof = false, lost = false;
};

const char *kinds[] = {"pipe", "fifo", "file", "tcp4", "tcp6", "unix"};

void body(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    Src h(c.hdr);
    size_t kind = h.range(0, 5);
    Ends e = make(kind, h);
    int big = h.weighted({3, 2, 1}) == 0 ? 40 : h.range(0, 3) ? 6000 : 150000;
    // what read_all() and write_all() transfer at a time when nothing is said
    Setting step(sysconfig::buffer_io_step, std::max(big / 3000, h.chance(1, 2) ? 1024 : h.pick(std::vector<int>{1, 2, 7, 100, 1023, 1025, 4096, 65536, 200000})));
    bool file = kind == 2;
    Dir d[2];
    d[0].w = e.a.get(); d[0].r = e.b.get();
    d[1].w = e.b.get(); d[1].r = e.a.get();
    int nd = e.duplex ? 2 : 1;
    cx().log("%s: ", kinds[kind]);
    struct Untap { ~Untap() { taps[0] = taps[1] = nullptr; } } untap;
    int faults = 0, blocked = 0, eofs = 0, broken = 0, moved = 0;
    std::shared_ptr<nstream> *ends[2] = {&e.a, &e.b};
    bool closed[2] = {false, false};
    int resetinj[2] = {0, 0};   // ends that were told of a broken connection

    auto do_write = [&](Dir &x, int mode, int arg, std::deque<Act> plan, int wend) {
        Tap t;
        t.fd = x.w->fd();
        t.plan = plan;
        bool eop0 = x.w->eop(), rst0 = x.w->is_reset();
        taps[1] = &t;
        int n;
        try { n = mode == 0 ? x.w->write_chunk(arg) : mode == 1 ? x.w->write_all(arg) : x.w->write_all(); }
        catch (const std::exception &ex) { taps[1] = nullptr; cx().fail("a write raised %s", ex.what()); }
        taps[1] = nullptr;
        faults += t.injected;
        cx().log("%s(%d)=%d; ", mode ? "write_all" : "write_chunk", arg, n);
        PV_CHECK(n == t.moved, "the write returned %d but the system took %ld bytes", n, t.moved);
        PV_CHECK(n >= 0 && n <= (int)x.pend.size(), "the write returned %d with %zu bytes pending", n, x.pend.size());
        size_t want = mode == 0 ? std::min<size_t>(arg, x.pend.size()) : x.pend.size();
        if (mode == 0) PV_CHECK(n <= arg, "write_chunk(%d) moved %d bytes", arg, n);
        if ((size_t)n < want) PV_CHECK(t.stop, "the write moved %d of %zu bytes although the system did not refuse", n, want);
        if (t.stop && (t.last == -EAGAIN)) ++blocked;
        x.fly += x.pend.substr(0, n);
        x.pend.erase(0, n);
        moved += n > 0;
        std::string left = x.w->wbuffer().get_string(-1, false);
        PV_CHECK(left == x.pend, "after the write the write buffer holds %s, expected %s", show(left).c_str(), show(x.pend).c_str());
        bool pipe_err = t.stop && t.last == -EPIPE, rst = t.stop && t.last == -ECONNRESET;
        PV_CHECK(x.w->eop() == (eop0 || pipe_err), "eop() is %d after the write, the system %s", (int)x.w->eop(), pipe_err ? "reported a broken pipe" : "did not report a broken pipe");
        PV_CHECK(x.w->is_reset() == (rst0 || rst), "is_reset() is %d after the write", (int)x.w->is_reset());
        if (pipe_err || rst) { ++broken; resetinj[wend] = 1; }
    };
    auto do_read = [&](Dir &x, int mode, int arg, std::deque<Act> plan, int rend) {
        Tap t;
        t.fd = x.r->fd();
        t.plan = plan;
        bool eof0 = x.r->eof(), rst0 = x.r->is_reset();
        taps[0] = &t;
        int n;
        try { n = mode == 0 ? x.r->read_chunk(arg) : mode == 1 ? x.r->read_all(arg) : x.r->read_all(); }
        catch (const std::exception &ex) { taps[0] = nullptr; cx().fail("a read raised %s", ex.what()); }
        taps[0] = nullptr;
        faults += t.injected;
        cx().log("%s(%d)=%d; ", mode ? "read_all" : "read_chunk", arg, n);
        PV_CHECK(n == t.moved, "the read returned %d but the system gave %ld bytes", n, t.moved);
        if (mode == 0) PV_CHECK(n <= arg, "read_chunk(%d) moved %d bytes", arg, n);
        PV_CHECK(x.lost || n <= (int)x.fly.size(), "the read returned %d bytes, only %zu were written", n, x.fly.size());
        if (mode != 0 || n < arg) PV_CHECK(t.stop, "the read stopped after %d bytes although the system had not refused", n);
        std::string buf = x.r->rbuffer().get_string(-1, false);
        std::string exp = x.got + x.fly.substr(0, n);
        PV_CHECK(buf == exp, "the read buffer holds %s (%zu bytes), expected %s (%zu bytes)", show(buf).c_str(), buf.size(), show(exp).c_str(), exp.size());
        x.got = exp;
        x.fly.erase(0, n);
        moved += n > 0;
        bool end = t.stop && t.last == 0, rst = t.stop && t.last == -ECONNRESET;
        PV_CHECK(x.r->eof() == (eof0 || end), "eof() is %d after the read", (int)x.r->eof());
        PV_CHECK(x.r->is_reset() == (rst0 || rst), "is_reset() is %d after the read", (int)x.r->is_reset());
        if (end)
        {
            ++eofs;
            PV_CHECK(file || !x.wopen, "the end of file was reported while the writer is open");
            PV_CHECK(x.lost || x.fly.empty(), "the end of file was reported with %zu bytes unread", x.fly.size());
        }
        if (rst) { ++broken; resetinj[rend] = 1; x.lost = true; }
    };
    auto close_end = [&](int i) {
        if (closed[i]) return;
        closed[i] = true;
        // what this end wrote stays readable unless it leaves unread input behind (a reset)
        (*ends[i])->close();
        Dir &out = d[i == 0 ? 0 : 1], &in = d[i == 0 ? 1 : 0];
        if (e.duplex || i == 0) { out.wopen = false; }
        if (e.duplex) { if (!in.fly.empty()) out.lost = true; in.ropen = false; }
        else if (i == 1) d[0].ropen = false;
        cx().log("close %s; ", i ? "b" : "a");
    };

    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({6, 6, 6, 2, 1});
        int di = (int)r.range(0, nd - 1);
        Dir &x = d[di];
        int wend = di == 0 ? 0 : 1, rend = 1 - wend;
        size_t np = r.weighted({4, 2, 2, 2, 1});
        std::deque<Act> plan;
        for (size_t i = 0; i < np; ++i)
        {
            size_t k = r.weighted({4, 3, 2, 1});
            plan.push_back({(int)(k == 0 ? PART : k == 1 ? INTR : k == 2 ? AGAIN : FULL), (int)(r.word() >> 1)});
        }
        int mode = (int)r.weighted({3, 3, 1});
        int arg = (int)(r.chance(1, 3) ? r.skew(1, big) : r.range(1, big > 6000 ? 70000 : big));
        if (op == 0)
        {
            if (closed[wend]) continue;
            int n = (int)(r.chance(1, 2) ? r.range(0, big) : r.skew(0, big));
            // hit the step exactly now and then
            std::string s = bytes(r.word(), n, r.chance(1, 2) ? Alpha::any : Alpha::nul);
            x.w->wbuffer().produce(s.data(), (int)s.size());
            x.pend += s;
            cx().log("%d:put %d; ", di, n);
        }
        else if (op == 1)
        {
            if (closed[wend]) continue;
            if (r.chance(1, 5) && !x.pend.empty()) arg = (int)x.pend.size();
            // after a reset by the peer the system reports what it likes, once; keep to the state checks
            if (!closed[rend] && r.chance(1, 25) && !file) plan.push_back({FERR, (int)(r.word() >> 1)});
            bool peer = closed[rend];
            do_write(x, mode, arg, plan, wend);
            if (peer) cx().label("write to a closed reader");
            // the answer to it is a reset, which drops what the peer had not sent yet
            if (peer && e.duplex) d[1 - di].lost = true;
        }
        else if (op == 2)
        {
            if (closed[rend]) continue;
            if (r.chance(1, 5) && !x.fly.empty()) arg = (int)x.fly.size();
            if (e.duplex && r.chance(1, 30)) plan.push_back({FERR, 0});
            bool inj = !plan.empty() && plan.back().kind == FERR;
            bool waslost = x.lost;
            do_read(x, mode, arg, plan, rend);
            if (inj) x.lost = waslost || (resetinj[rend] && !x.wopen);
        }
        else if (op == 3)
        {
            if (closed[rend]) continue;
            int n = (int)r.range(0, x.got.size());
            size_t how = r.range(0, 2);
            if (how == 0) x.r->rbuffer().consume(n);
            else if (how == 1) { std::string g = x.r->rbuffer().get_string(n); PV_CHECK(g == x.got.substr(0, n), "get_string of the read buffer"); }
            else { x.r->rbuffer().consume(n); x.r->rbuffer().tiny(); }
            x.got.erase(0, n);
            if (r.chance(1, 3) && !closed[wend]) x.w->wbuffer().tiny();
            cx().log("%d:use %d; ", di, n);
        }
        else if (r.chance(1, 2)) close_end((int)r.range(0, 1));
    }
    // at the end everything must come through, without faults
    for (int di = 0; di < nd; ++di)
    {
        Dir &x = d[di];
        int wend = di == 0 ? 0 : 1, rend = 1 - wend;
        if (!closed[wend] && !closed[rend])
        {
            int idle = 0;
            while ((!x.pend.empty() || !x.fly.empty()) && idle < 3000)
            {
                size_t before = x.pend.size() + x.fly.size();
                if (!x.pend.empty()) do_write(x, di == 0 ? 2 : 1, 3000, {}, wend);
                do_read(x, di == 0 ? 2 : 1, 4096, {}, rend);
                if (x.pend.size() + x.fly.size() == before) { ++idle; pollfd p{x.r->fd(), POLLIN, 0}; poll(&p, 1, 10); }
                else idle = 0;
            }
            PV_CHECK(x.pend.empty() && x.fly.empty(), "%zu bytes never reach the reader", x.pend.size() + x.fly.size());
        }
    }
    int first = (int)h.range(0, 1);
    for (int k = 0; k < (e.duplex ? 1 : 1); ++k)
    {
        int we = e.duplex ? first : 0;
        Dir &x = d[we];
        int rend = 1 - we;
        if (closed[rend]) continue;
        close_end(we);
        if (x.lost) continue;
        for (int i = 0; i < 3000 && !(x.r->eof() && x.fly.empty()); ++i)
        {
            do_read(x, 1, (int)h.range(1, 5000), {}, rend);
            if (!x.r->eof() && !x.r->is_reset()) { pollfd p{x.r->fd(), POLLIN, 0}; poll(&p, 1, 10); }
            if (x.lost) break;
        }
        PV_CHECK(x.lost || (x.r->eof() && x.fly.empty()), "after the writer closed, the reader has %zu bytes to go and eof() is %d", x.fly.size(), (int)x.r->eof());
    }
    for (int i = 0; i < 2; ++i) if (e.duplex && !closed[i]) no_linger((*ends[i])->fd());
    // a reader that is gone shows in the writer's state
    if (!file && !e.duplex && closed[1] && !closed[0])
    {
        d[0].w->wbuffer().put_string("x");
        d[0].pend += "x";
        do_write(d[0], 1, 10, {}, 0);
        PV_CHECK(d[0].w->eop(), "the reader is gone but eop() is not set");
    }
    cx().label(kinds[kind]);
    if (faults) cx().label("injected faults");
    if (blocked) cx().label("would block");
    if (eofs) cx().label("end of file");
    if (broken) cx().label("broken connection");
    cx().nontrivial(moved > 2 && (faults || blocked));
}
Reg r1({"stream-transfer", "histories of filling, writing (chunk/all), reading, consuming and closing over pipe, fifo, file, tcp4, tcp6 and unix channels with planned short transfers, EINTR, would-block, EPIPE and reset results, bytes compared with a model; non-trivial: more than two transfers and a fault or a full channel",
        24, 22, 1, 30, 130000, 2500000, INPROC, 30, body});
}
