// C03: descriptor ownership of I/O objects against a table of who owns what.
#include "engine.h"
#include "net.h"
#include "cppev/nio.h"
#include "cppev/event_loop.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <optional>
#include <poll.h>
#include <set>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
// closes seen, by anybody
std::vector<int> closes;
bool watch = false;
}
extern "C" int close(int fd)
{
    if (watch) closes.push_back(fd);
    return (int)syscall(SYS_close, fd);
}
namespace
{
const int TOP = 120;     // descriptors of a case stay below
enum Kind { STREAM, TCP, UDP };
struct State
{
    int fd = -1;
    bool closed = false;
    std::string rb, wb;
    bool eof = false, eop = false, rst = false;
    family fam = family::ipv4;
    std::tuple<std::string, int> peer{"", 0};
    const event_loop *ev = nullptr;
    bool block = false;     // asked to be
    int flags = 0;          // O_APPEND
};
struct Obj
{
    Kind kind = STREAM;
    std::shared_ptr<nstream> s;
    std::shared_ptr<nsocktcp> t;
    std::shared_ptr<nsockudp> u;
    State m;
    bool live() const { return s || t || u; }
    nio *io() { return s ? static_cast<nio *>(s.get()) : t ? static_cast<nio *>(t.get()) : u ? static_cast<nio *>(u.get()) : nullptr; }
    nstream *st() { return s ? s.get() : t ? static_cast<nstream *>(t.get()) : nullptr; }
    void drop() { s.reset(); t.reset(); u.reset(); }
};
struct Canary { int fd; ino_t ino; };

void verify(Obj &o, int k, const char *after)
{
    nio *io = o.io();
    if (!io) return;
    PV_CHECK(io->is_closed() == o.m.closed, "object %d is_closed() is %d after %s", k, (int)io->is_closed(), after);
    if (!o.m.closed)
    {
        PV_CHECK(io->fd() == o.m.fd, "object %d has descriptor %d after %s, expected %d", k, io->fd(), after, o.m.fd);
        int fl = fcntl(o.m.fd, F_GETFL);
        PV_CHECK(fl >= 0, "the descriptor of live object %d was closed by %s", k, after);
        if (!o.m.block) PV_CHECK(fl & O_NONBLOCK, "the descriptor of object %d is blocking after %s", k, after);
        else PV_CHECK(!(fl & O_NONBLOCK), "the descriptor of object %d, made blocking, is not after %s", k, after);
        PV_CHECK((fl & O_APPEND) == o.m.flags, "the append flag of object %d is %d after %s", k, !!(fl & O_APPEND), after);
    }
    const nio *cio = io;
    PV_CHECK(&cio->rbuffer() == &io->rbuffer() && &cio->wbuffer() == &io->wbuffer(), "object %d shows other buffers when constant", k);
    std::string rb = io->rbuffer().get_string(-1, false), wb = io->wbuffer().get_string(-1, false);
    PV_CHECK(rb == o.m.rb, "object %d read buffer is %s after %s, expected %s", k, show(rb).c_str(), after, show(o.m.rb).c_str());
    PV_CHECK(wb == o.m.wb, "object %d write buffer is %s after %s, expected %s", k, show(wb).c_str(), after, show(o.m.wb).c_str());
    if (o.m.closed) return;
    if (nstream *s = o.st())
    {
        PV_CHECK(s->eof() == o.m.eof, "object %d eof() is %d after %s", k, (int)s->eof(), after);
        PV_CHECK(s->eop() == o.m.eop, "object %d eop() is %d after %s", k, (int)s->eop(), after);
        PV_CHECK(s->is_reset() == o.m.rst, "object %d is_reset() is %d after %s", k, (int)s->is_reset(), after);
    }
    if (o.t)
    {
        PV_CHECK(o.t->sockfamily() == o.m.fam, "object %d family changed by %s", k, after);
        auto p = o.t->connpeer();
        PV_CHECK(std::get<0>(p) == std::get<0>(o.m.peer) && std::get<1>(p) == std::get<1>(o.m.peer), "object %d connpeer() is %s:%d after %s", k, std::get<0>(p).c_str(), std::get<1>(p), after);
    }
    if (o.u) PV_CHECK(o.u->sockfamily() == o.m.fam, "object %d family changed by %s", k, after);
    if (o.m.ev) PV_CHECK(&io->evlp() == o.m.ev && &cio->evlp() == o.m.ev, "object %d lost its event loop at %s", k, after);
}

event_loop *loops[2] = {nullptr, nullptr};

void body(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    static bool once = [] {
        loops[0] = new event_loop();
        loops[1] = new event_loop();
        return true;
    }();
    (void)once;
    const int N = 6;
    Obj o[N];
    std::vector<Canary> can;
    std::set<int> base, owned;
    for (int fd = 0; fd < TOP; ++fd) if (fcntl(fd, F_GETFD) >= 0) base.insert(fd);
    struct Fin
    {
        std::vector<Canary> &c;
        ~Fin() { watch = false; for (auto &x : c) syscall(SYS_close, x.fd); }
    } fin{can};
    closes.clear();
    watch = true;
    int moves = 0, reuse = 0, dbl = 0;
    std::string path;

    auto check = [&](const char *what, std::multiset<int> expect_closed) {
        // each descriptor of an object is closed at the right moment, and nobody else's
        std::multiset<int> got;
        for (int fd : closes) if (fd >= 0) got.insert(fd);
        closes.clear();
        for (int fd : expect_closed) PV_CHECK(got.count(fd), "%s did not close descriptor %d", what, fd);
        for (int fd : got) PV_CHECK(expect_closed.count(fd) == got.count(fd), "%s closed descriptor %d %zu times, %zu expected", what, fd, got.count(fd), expect_closed.count(fd));
        for (int fd : expect_closed) owned.erase(fd);
        for (int k = 0; k < N; ++k) verify(o[k], k, what);
        for (auto &x : can)
        {
            struct stat st;
            PV_CHECK(fstat(x.fd, &st) == 0 && st.st_ino == x.ino, "%s closed or replaced a descriptor of somebody else (%d)", what, x.fd);
        }
        for (int fd = 0; fd < TOP; ++fd)
        {
            bool open = fcntl(fd, F_GETFD) >= 0;
            bool exp = base.count(fd) || owned.count(fd);
            for (auto &x : can) exp = exp || x.fd == fd;
            PV_CHECK(open == exp, "after %s descriptor %d is %s", what, fd, open ? "left open" : "closed");
        }
    };
    auto own = [&](Obj &x, nio *io) { x.m.fd = io->fd(); owned.insert(io->fd()); };
    auto quiet_close = [&](int fd) { watch = false; ::close(fd); watch = true; };
    (void)quiet_close;

    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({5, 4, 4, 4, 4, 4, 3, 2, 3, 1, 2, 1});
        int i = (int)r.range(0, N - 1), j = (int)r.range(0, N - 1);
        char what[160];
        std::multiset<int> cl;
        what[0] = 0;
        auto destroy = [&](int k) {
            if (!o[k].live()) return;
            if (!o[k].m.closed) cl.insert(o[k].m.fd);
            o[k].drop();
            o[k].m = State();
        };
        if (op == 0)
        {
            size_t kind = r.range(0, 5);
            destroy(i);
            if (kind <= 1)
            {
                if (i == j) j = (i + 1) % N;
                destroy(j);
                check("destroy", cl);
                cl.clear();
                std::vector<std::shared_ptr<nstream>> p;
                if (kind == 0) p = nio_factory::get_pipes();
                else
                {
                    path = scratch() + "/f" + std::to_string(unique());
                    p = nio_factory::get_fifos(path);
                    unlink(path.c_str());
                }
                o[i].kind = o[j].kind = STREAM;
                o[i].m = o[j].m = State();
                o[i].s = p[0];
                o[j].s = p[1];
                p.clear();
                own(o[i], o[i].io());
                own(o[j], o[j].io());
                snprintf(what, sizeof what, "create %s %d,%d", kind ? "fifo" : "pipe", i, j);
            }
            else
            {
                check("destroy", cl);
                cl.clear();
                family f = r.chance(1, 3) ? family::ipv6 : r.chance(1, 3) ? family::local : family::ipv4;
                o[i].m = State();
                o[i].m.fam = f;
                if (kind <= 3)
                {
                    o[i].kind = TCP;
                    o[i].t = nio_factory::get_nsocktcp(f);
                    own(o[i], o[i].io());
                    if (r.chance(2, 3))
                    {
                        // an attempt, connected or not, leaves its name in the object
                        if (f == family::local)
                        {
                            std::string p = scratch() + "/nobody" + std::to_string(i);
                            bool b = o[i].t->connect_unix(p);
                            o[i].m.peer = {p, -1};
                            PV_CHECK(!b, "connect to a missing path succeeded");
                        }
                        else
                        {
                            const char *ip = f == family::ipv4 ? "127.0.0.1" : "::1";
                            o[i].t->connect(ip, 1 + i);
                            o[i].m.peer = {ip, 1 + i};
                        }
                    }
                }
                else
                {
                    o[i].kind = UDP;
                    o[i].u = nio_factory::get_nsockudp(f);
                    own(o[i], o[i].io());
                }
                snprintf(what, sizeof what, "create %s %d", kind <= 3 ? "tcp" : "udp", i);
            }
        }
        else if (op == 1)
        {
            // fill buffers, set a loop
            if (!o[i].live()) continue;
            std::string a = bytes(r.word(), r.range(0, 20), Alpha::text), b = bytes(r.word(), r.range(0, 20), Alpha::text);
            // a buffer may have been moved away from; it must still take data
            o[i].io()->rbuffer().put_string(a);
            o[i].m.rb += a;
            o[i].io()->wbuffer().put_string(b);
            o[i].m.wb += b;
            if (r.chance(1, 2)) { int l = (int)r.range(0, 1); o[i].io()->set_evlp(*loops[l]); o[i].m.ev = loops[l]; }
            if (r.chance(1, 3)) { int n = (int)r.range(0, o[i].m.rb.size()); o[i].io()->rbuffer().consume(n); o[i].m.rb.erase(0, n); }
            if (r.chance(1, 3)) { int n = (int)r.range(0, o[i].m.wb.size()); o[i].io()->wbuffer().consume(n); o[i].m.wb.erase(0, n); }
            snprintf(what, sizeof what, "fill %d", i);
        }
        else if (op == 2 || op == 3)
        {
            // move-construct or move-assign between objects of a kind
            bool assign = op == 3;
            if (!o[i].live()) continue;
            if (i == j)
            {
                if (!assign) continue;
                // to itself: nothing happens
                nstream *s = o[i].s.get();
                nsocktcp *t = o[i].t.get();
                nsockudp *u = o[i].u.get();
                if (s) *s = std::move(*o[i].s);
                else if (t) *t = std::move(*o[i].t);
                else *u = std::move(*o[i].u);
                cx().log("move-assign %d->itself; ", i);
                check("moving to itself", cl);
                continue;
            }
            if (assign && (!o[j].live() || o[j].kind != o[i].kind)) continue;
            if (!assign) destroy(j);
            else if (!o[j].m.closed) cl.insert(o[j].m.fd);
            State src = o[i].m;
            if (o[i].s) { if (assign) *o[j].s = std::move(*o[i].s); else o[j].s = std::make_shared<nstream>(std::move(*o[i].s)); }
            else if (o[i].t) { if (assign) *o[j].t = std::move(*o[i].t); else o[j].t = std::make_shared<nsocktcp>(std::move(*o[i].t)); }
            else { if (assign) *o[j].u = std::move(*o[i].u); else o[j].u = std::make_shared<nsockudp>(std::move(*o[i].u)); }
            o[j].kind = o[i].kind;
            o[j].m = src;
            o[i].m.closed = true;
            o[i].m.rb.clear();
            o[i].m.wb.clear();
            o[i].m.ev = nullptr;
            ++moves;
            snprintf(what, sizeof what, "move-%s %d->%d", assign ? "assign" : "construct", i, j);
        }
        else if (op == 4)
        {
            if (!o[i].live()) continue;
            int n = (int)r.range(1, 2);
            if (!o[i].m.closed) cl.insert(o[i].m.fd);
            bool was = o[i].m.closed;
            if (was) ++dbl;
            o[i].io()->close();
            o[i].m.closed = true;
            snprintf(what, sizeof what, "%s %d", was ? "close again" : "close", i);
            if (n == 2)
            {
                check(what, cl);
                cl.clear();
                // somebody else gets the number
                if (can.size() < 10)
                {
                    watch = false;
                    std::string p = scratch() + "/canary" + std::to_string(can.size());
                    int fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0600);
                    struct stat st;
                    fstat(fd, &st);
                    can.push_back({fd, st.st_ino});
                    watch = true;
                    ++reuse;
                }
                o[i].io()->close();
                ++dbl;
                snprintf(what, sizeof what, "close %d, number reused, close again", i);
            }
        }
        else if (op == 5)
        {
            if (!o[i].live()) continue;
            destroy(i);
            snprintf(what, sizeof what, "destroy %d", i);
        }
        else if (op == 6)
        {
            watch = false;
            if (can.size() < 10 && r.chance(2, 3))
            {
                std::string p = scratch() + "/canary" + std::to_string(can.size());
                int fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0600);
                struct stat st;
                fstat(fd, &st);
                can.push_back({fd, st.st_ino});
                ++reuse;
                snprintf(what, sizeof what, "open another file");
            }
            else if (!can.empty())
            {
                size_t k = r.range(0, can.size() - 1);
                ::close(can[k].fd);
                can.erase(can.begin() + k);
                snprintf(what, sizeof what, "close another file");
            }
            watch = true;
        }
        else if (op == 7)
        {
            // drive a stream into a state: end of file or broken pipe
            if (i == j) continue;
            destroy(i);
            check("destroy", cl);
            cl.clear();
            int p[2];
            if (pipe(p)) continue;
            int which = (int)r.range(0, 1);
            o[i].kind = STREAM;
            o[i].m = State();
            o[i].s = std::make_shared<nstream>(p[which]);
            own(o[i], o[i].io());
            watch = false;
            ::close(p[1 - which]);
            watch = true;
            if (which == 0) { o[i].s->read_all(); o[i].m.eof = true; }
            else { o[i].s->wbuffer().put_string("zz"); o[i].m.wb = "zz"; o[i].s->write_all(); o[i].m.eop = true; }
            snprintf(what, sizeof what, "%s %d", which ? "broken pipe" : "end of file", i);
        }
        else if (op == 8)
        {
            // a connected, accepted or reset tcp pair
            if (i == j) continue;
            destroy(i);
            destroy(j);
            check("destroy", cl);
            cl.clear();
            watch = false;
            {
                bool un = r.chance(1, 3);
                family f = un ? family::local : family::ipv4;
                auto l = nio_factory::get_nsocktcp(f);
                std::string p = scratch() + "/l" + std::to_string(unique());
                char ip[40];
                snprintf(ip, sizeof ip, "127.3.%d.1", worker_id() + 1);
                if (un) l->bind_unix(p); else or_skip([&] { l->bind(ip, 0); });
                l->listen();
                o[i].m = o[j].m = State();
                o[i].m.fam = o[j].m.fam = f;
                o[i].kind = o[j].kind = TCP;
                o[i].t = nio_factory::get_nsocktcp(f);
                bool ok = un ? o[i].t->connect_unix(p) : o[i].t->connect(ip, std::get<1>(l->sockname()));
                PV_CHECK(ok, "connect failed");
                int port = un ? -1 : std::get<1>(l->sockname());
                o[i].m.peer = {un ? p : std::string(ip), port};
                pollfd pf{l->fd(), POLLIN, 0};
                ::poll(&pf, 1, 5000);
                auto v = l->accept(1);
                PV_CHECK(v.size() == 1, "accept gave %zu connections", v.size());
                o[j].t = v[0];
                o[j].m.peer = un ? std::tuple<std::string, int>{p, -1} : std::tuple<std::string, int>{"", 0};
                own(o[i], o[i].io());
                own(o[j], o[j].io());
                no_linger(o[i].m.fd);
                no_linger(o[j].m.fd);
                if (un) unlink(p.c_str());
                if (r.chance(1, 2) && !un)
                {
                    // reset: the peer goes away with input unread
                    o[i].t->wbuffer().put_string("hello");
                    o[i].t->write_all();
                    o[j].t->close();
                    o[j].m.closed = true;
                    owned.erase(o[j].m.fd);
                    pollfd pr{o[i].t->fd(), POLLIN, 0};
                    ::poll(&pr, 1, 5000);
                    o[i].t->read_all();
                    o[i].m.rst = true;
                    PV_CHECK(o[i].t->is_reset(), "the reset is not reported");
                }
            }
            closes.clear();
            watch = true;
            snprintf(what, sizeof what, "connect %d,%d", i, j);
        }
        else if (op == 10)
        {
            // blocking and nonblocking
            if (!o[i].live() || o[i].m.closed) continue;
            bool b = r.chance(1, 2);
            if (b) o[i].io()->set_io_block();
            else o[i].io()->set_io_nonblock();
            o[i].m.block = b;
            snprintf(what, sizeof what, "make %d %sblocking", i, b ? "" : "non");
        }
        else if (op == 11)
        {
            // a disk file that is appended to
            destroy(i);
            check("destroy", cl);
            cl.clear();
            watch = false;
            std::string p = scratch() + "/d" + std::to_string(unique());
            int fd = ::open(p.c_str(), O_RDWR | O_CREAT | (r.chance(1, 2) ? O_APPEND : 0), 0600);
            PV_CHECK(fd >= 0, "open");
            unlink(p.c_str());
            watch = true;
            o[i].kind = STREAM;
            o[i].m = State();
            o[i].m.flags = fcntl(fd, F_GETFL) & O_APPEND;
            o[i].s = std::make_shared<nstream>(fd);
            own(o[i], o[i].io());
            snprintf(what, sizeof what, "open a file %d", i);
        }
        else
        {
            // creation that fails for want of descriptors leaves nothing behind
            size_t how = r.range(0, 4);
            struct rlimit old, lim;
            getrlimit(RLIMIT_NOFILE, &old);
            watch = false;
            int free1 = ::open("/dev/null", O_RDONLY);
            watch = true;
            lim = old;
            int allow = (int)r.range(0, 1);
            lim.rlim_cur = free1 + allow;
            watch = false;
            ::close(free1);
            watch = true;
            // is the number above taken?
            std::string p = scratch() + "/g" + std::to_string(unique());
            bool thrown = false;
            setrlimit(RLIMIT_NOFILE, &lim);
            watch = false;
            try
            {
                if (how == 0) nio_factory::get_pipes();
                else if (how == 1) nio_factory::get_fifos(p);
                else if (how == 2) nio_factory::get_nsocktcp(family::ipv4);
                else if (how == 3) nio_factory::get_nsockudp(family::ipv6);
                else { nstream s(free1 + 50); }
            }
            catch (const std::exception &) { thrown = true; }
            setrlimit(RLIMIT_NOFILE, &old);
            closes.clear();
            watch = true;
            unlink(p.c_str());
            if (how <= 1 || allow == 0 || how == 4) PV_CHECK(thrown, "creating without a free descriptor did not fail");
            snprintf(what, sizeof what, "failing create %zu", how);
        }
        if (!what[0]) continue;
        cx().log("%s; ", what);
        check(what, cl);
    }
    std::multiset<int> cl;
    for (int k = 0; k < N; ++k)
        if (o[k].live())
        {
            if (!o[k].m.closed) no_linger(o[k].m.fd);
            if (!o[k].m.closed) cl.insert(o[k].m.fd);
            o[k].drop();
            o[k].m = State();
        }
    check("destroying everything", cl);
    if (moves) cx().label("moved");
    if (dbl) cx().label("closed again");
    if (reuse && dbl) cx().label("number reused");
    cx().nontrivial(moves && (reuse || dbl));
}
Reg r1({"descriptor-table", "histories of creating pipes, fifos, tcp/udp sockets and connected pairs, filling buffers, reaching end states, moving, closing (again, after reuse of the number), destroying and failing to create, on six objects; every close() and the whole descriptor table are compared with a model after each step; non-trivial: an object was moved and a number reused or a close repeated",
        1, 14, 1, 40, 120000, 2500000, INPROC, 30, body});
}
