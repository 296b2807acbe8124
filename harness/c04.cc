// C04: stream sockets: endpoints, accepting, names, options, shutdown.
#include "engine.h"
#include "net.h"
#include "cppev/nio.h"
#include <algorithm>
#include <arpa/inet.h>
#include <csignal>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
using namespace pv;
using namespace cppev;

namespace
{
std::deque<int> acc_plan;   // errno to inject per accept call, 0 = none
int acc_fd = -1;
int acc_injected = 0;
bool acc_hard = false;
int plan_accept(int fd)
{
    if (fd != acc_fd || acc_plan.empty()) return 0;
    int e = acc_plan.front();
    acc_plan.pop_front();
    if (e) ++acc_injected;
    if (e == EMFILE || e == ENOBUFS) acc_hard = true;
    return e;
}
}
extern "C" int accept4(int fd, sockaddr *a, socklen_t *l, int flags)
{
    if (int e = plan_accept(fd)) { errno = e; return -1; }
    return (int)syscall(SYS_accept4, fd, a, l, flags);
}
extern "C" int accept(int fd, sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }

namespace
{
// a raw view of an endpoint: address bytes and port, or a path
struct End
{
    int af = 0;
    std::string addr;
    int port = 0;
    bool operator==(const End &o) const { return af == o.af && addr == o.addr && port == o.port; }
};
std::string text(const End &e)
{
    char b[64] = "";
    if (e.af == AF_INET || e.af == AF_INET6) inet_ntop(e.af, e.addr.data(), b, sizeof b);
    return (e.af == AF_UNIX ? e.addr : std::string(b)) + ":" + std::to_string(e.port);
}
End from(const sockaddr_storage &s, socklen_t len)
{
    End e;
    e.af = s.ss_family;
    if (e.af == AF_INET)
    {
        auto *p = (const sockaddr_in *)&s;
        e.addr.assign((const char *)&p->sin_addr, 4);
        e.port = ntohs(p->sin_port);
    }
    else if (e.af == AF_INET6)
    {
        auto *p = (const sockaddr_in6 *)&s;
        e.addr.assign((const char *)&p->sin6_addr, 16);
        e.port = ntohs(p->sin6_port);
    }
    else if (e.af == AF_UNIX)
    {
        auto *p = (const sockaddr_un *)&s;
        size_t n = len > offsetof(sockaddr_un, sun_path) ? len - offsetof(sockaddr_un, sun_path) : 0;
        e.addr.assign(p->sun_path, strnlen(p->sun_path, n));
    }
    return e;
}
End raw_name(int fd, bool peer)
{
    sockaddr_storage s;
    memset(&s, 0, sizeof s);
    socklen_t l = sizeof s;
    if ((peer ? getpeername(fd, (sockaddr *)&s, &l) : getsockname(fd, (sockaddr *)&s, &l)) < 0) return End();
    return from(s, l);
}
int af_of(family f) { return f == family::ipv4 ? AF_INET : f == family::ipv6 ? AF_INET6 : AF_UNIX; }
End parse(const std::string &ip, int port, family f)
{
    End e;
    e.af = af_of(f);
    e.port = port;
    if (f == family::local) { e.addr = ip; e.port = 0; return e; }
    char b[16];
    int n = f == family::ipv4 ? 4 : 16;
    if (inet_pton(e.af, ip.c_str(), b) == 1) e.addr.assign(b, n);
    else e.addr = "?" + ip;
    return e;
}
End of(const std::tuple<std::string, int, family> &t) { return parse(std::get<0>(t), std::get<1>(t), std::get<2>(t)); }

struct Client
{
    std::shared_ptr<nsocktcp> s;
    int id;
    End local;
};
struct Lis
{
    std::shared_ptr<nsocktcp> s;
    family f;
    std::string ip;      // as given to connect, or the path
    int port = 0;
    bool open = true, any = false;
    std::deque<Client> pend;
};
void say(nsocktcp &s, int id)
{
    char b[16];
    snprintf(b, sizeof b, "%08d", id);
    s.wbuffer().put_string(b);
    s.write_all();
}
int hear(nsocktcp &s)
{
    for (int i = 0; i < 200 && s.rbuffer().size() < 8 && !s.eof() && !s.is_reset(); ++i)
    {
        if (!wait_for(s.fd(), POLLIN, 5000)) break;
        s.read_chunk(8 - s.rbuffer().size());
    }
    std::string t = s.rbuffer().get_string(-1, true);
    return t.size() == 8 ? atoi(t.c_str()) : -1;
}
bool visible_failure(const std::function<bool(nsocktcp &)> &conn, family f, std::string &how, bool block)
{
    auto s = nio_factory::get_nsocktcp(f);
    if (block) s->set_io_block();
    bool ok;
    try { ok = conn(*s); }
    catch (const std::exception &e) { how = "raised"; return true; }
    if (!ok) { how = "refused"; return true; }
    wait_for(s->fd(), POLLOUT, 3000);
    if (!s->check_connect()) { how = "error"; return true; }
    how = "connected to " + text(raw_name(s->fd(), true));
    return false;
}

void endpoints(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    std::vector<Lis> ls;
    std::string dir = scratch() + "/u" + std::to_string(unique());
    mkdir(dir.c_str(), 0700);
    struct Fin
    {
        std::string d;
        std::vector<std::string> files;
        ~Fin()
        {
            acc_fd = -1;
            for (auto &f : files) unlink(f.c_str());
            rmdir(d.c_str());
        }
    } fin{dir, {}};
    std::vector<std::shared_ptr<nsocktcp>> keep;
    int nid = 1, conns = 0, refused = 0, accepted = 0, cut = 0, faults = 0, same = 0, blocked = 0;

    auto path_of = [&](int len, int var) {
        // paths of every length up to the longest a socket can have
        std::string p = dir + "/";
        int want = std::min(std::max(len, (int)p.size() + 1), 107);
        p += std::string(want - p.size(), (char)('a' + var));
        return p;
    };
    auto drain = [&](Lis &l, int batch, std::vector<int> errs) {
        acc_fd = l.s->fd();
        acc_plan.assign(errs.begin(), errs.end());
        acc_injected = 0;
        acc_hard = false;
        if (batch > 0 && !l.pend.empty()) wait_for(l.s->fd(), POLLIN);
        std::vector<std::shared_ptr<nsocktcp>> v;
        bool thrown = false;
        try { v = batch == INT_MAX ? l.s->accept() : l.s->accept(batch); }
        catch (const std::exception &) { thrown = true; }
        acc_fd = -1;
        bool hard = acc_hard;
        faults += acc_injected;
        cx().log("accept(%d)=%zu%s; ", batch == INT_MAX ? -1 : batch, v.size(), thrown ? " raised" : "");
        if (thrown) PV_CHECK(hard, "accept raised although the system reported no error");
        PV_CHECK((long)v.size() <= batch, "accept(%d) returned %zu connections", batch, v.size());
        PV_CHECK(v.size() <= l.pend.size(), "accept returned %zu connections, %zu were made", v.size(), l.pend.size());
        if (!hard) PV_CHECK(v.size() == std::min<size_t>(batch, l.pend.size()), "accept(%d) returned %zu of %zu pending connections", batch == INT_MAX ? -1 : batch, v.size(), l.pend.size());
        if (!l.pend.empty() && batch > 0 && (size_t)batch < l.pend.size()) ++cut;
        for (auto &a : v)
        {
            PV_CHECK(a && !a->is_closed() && fcntl(a->fd(), F_GETFL) >= 0, "accept returned a dead connection");
            PV_CHECK(a->sockfamily() == l.f, "an accepted connection has another family");
            int id = hear(*a);
            auto it = std::find_if(l.pend.begin(), l.pend.end(), [&](const Client &x) { return x.id == id; });
            PV_CHECK(it != l.pend.end(), "accept returned a connection that was not pending here (%d)", id);
            End sn = of(a->sockname()), rs = raw_name(a->fd(), false);
            if (l.f == family::local) PV_CHECK(sn.addr == l.ip && sn.af == AF_UNIX, "sockname() of an accepted connection is %s, bound was %s", sn.addr.c_str(), l.ip.c_str());
            else
            {
                PV_CHECK(sn == rs, "sockname() of an accepted connection is %s, the system says %s", text(sn).c_str(), text(rs).c_str());
                PV_CHECK(rs == parse(l.ip, l.port, l.f), "the connection was accepted at %s, the client asked for %s:%d", text(rs).c_str(), l.ip.c_str(), l.port);
                End pn = of(a->peername());
                PV_CHECK(pn == it->local, "peername() of an accepted connection is %s, the client is %s", text(pn).c_str(), text(it->local).c_str());
            }
            // and back
            say(*a, id + 5000);
            int back = hear(*it->s);
            PV_CHECK(back == id + 5000, "the client got %d from its connection, expected %d", back, id + 5000);
            no_linger(a->fd());
            no_linger(it->s->fd());
            l.pend.erase(it);
            ++accepted;
        }
    };

    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({3, 6, 4, 3, 1});
        bool block = r.chance(1, 4);     // an attempt may also be waited for
        if (op == 0)
        {
            if (ls.size() >= 7) continue;
            Lis l;
            size_t k = r.weighted({5, 2, 4, 1});
            l.f = k == 0 || k == 3 ? family::ipv4 : k == 1 ? family::ipv6 : family::local;
            int len = (int)(r.chance(1, 2) ? 107 - r.range(0, 3) : r.range(1, 107)), var = (int)r.range(0, 1);
            bool reuse_port = r.chance(1, 2), rem = r.chance(1, 3);
            int ipk = 1 + (int)r.range(0, 3);
            l.s = nio_factory::get_nsocktcp(l.f);
            if (l.f == family::local)
            {
                l.ip = path_of(len, var);
                struct stat st;
                bool there = lstat(l.ip.c_str(), &st) == 0;
                bool ok = true;
                try { l.s->bind_unix(l.ip, rem); }
                catch (const std::exception &) { ok = false; }
                PV_CHECK(ok == (rem || !there), "bind_unix(%zu characters%s) %s, the path %s", l.ip.size(), rem ? ", remove" : "", ok ? "worked" : "failed", there ? "exists" : "is free");
                cx().log("unix listener %zu%c%s; ", l.ip.size(), l.ip.back(), ok ? "" : " taken");
                if (!ok) continue;
                fin.files.push_back(l.ip);
                PV_CHECK(raw_name(l.s->fd(), false).addr == l.ip, "bind_unix bound %s instead of %s", raw_name(l.s->fd(), false).addr.c_str(), l.ip.c_str());
                // whoever had it is out of reach now
                for (auto &o : ls) if (o.f == family::local && o.ip == l.ip) o.open = false;
            }
            else
            {
                l.ip = l.f == family::ipv6 ? "::1" : ip4(4, ipk);
                int port = 0;
                if (l.f == family::ipv4 && k == 0 && reuse_port)
                    for (auto &o : ls)
                        if (o.f == family::ipv4 && !o.any && o.open && o.ip != l.ip)
                        {
                            bool used = false;
                            for (auto &q : ls) if (q.f == l.f && q.open && q.port == o.port && (q.ip == l.ip || q.any)) used = true;
                            if (!used) { port = o.port; ++same; break; }
                        }
                if (k == 3) l.any = true;
                // the port of another address may have been given away meanwhile
                try { or_skip([&] { if (l.any) l.s->bind(port); else l.s->bind(l.ip, port); }); }
                catch (const CaseSkip &) { if (port) continue; throw; }
                if (l.any) l.ip = ip4(4, 9);
                End e = of(l.s->sockname()), rw = raw_name(l.s->fd(), false);
                PV_CHECK(e == rw, "sockname() of a bound socket is %s, the system says %s", text(e).c_str(), text(rw).c_str());
                l.port = rw.port;
                PV_CHECK(!port || l.port == port, "bind to port %d got %d", port, l.port);
                if (!l.any) PV_CHECK(rw == parse(l.ip, l.port, l.f), "bind to %s got %s", l.ip.c_str(), text(rw).c_str());
                else PV_CHECK(rw.addr == std::string(4, '\0'), "bind without an address got %s", text(rw).c_str());
                cx().log("listener %s%s; ", l.any ? "any" : l.ip.c_str(), port ? " same port" : "");
            }
            if (!r.chance(1, 8)) l.s->listen();
            else
            {
                // bound, not listening
                std::string how;
                bool fail = visible_failure([&](nsocktcp &s) { return l.f == family::local ? s.connect_unix(l.ip) : s.connect(l.ip, l.port); }, l.f, how, block);
                PV_CHECK(fail, "a connection to a socket that does not listen succeeded (%s)", how.c_str());
                ++refused;
                l.s->listen();
            }
            ls.push_back(l);
        }
        else if (op == 1)
        {
            if (ls.empty()) continue;
            Lis &l = ls[r.range(0, ls.size() - 1)];
            if (!l.open || l.pend.size() >= 9) continue;
            int n = 1 + (int)r.range(0, 2);
            for (int i = 0; i < n; ++i)
            {
                Client cl;
                cl.s = nio_factory::get_nsocktcp(l.f);
                if (block) { cl.s->set_io_block(); ++blocked; }
                bool ok = l.f == family::local ? cl.s->connect_unix(l.ip) : cl.s->connect(l.ip, l.port);
                if (block) cl.s->set_io_nonblock();
                PV_CHECK(ok, "connecting to the listener at %s:%d failed", l.ip.c_str(), l.port);
                PV_CHECK(wait_for(cl.s->fd(), POLLOUT), "connecting to the listener at %s:%d does not end", l.ip.c_str(), l.port);
                PV_CHECK(cl.s->check_connect(), "check_connect() is false for the listener at %s:%d", l.ip.c_str(), l.port);
                End want = parse(l.ip, l.port, l.f), rp = raw_name(cl.s->fd(), true), pn = of(cl.s->peername()), cp = of(cl.s->connpeer());
                PV_CHECK(rp == want, "the connection asked for %s went to %s", text(want).c_str(), text(rp).c_str());
                PV_CHECK(pn == want, "peername() is %s, expected %s", text(pn).c_str(), text(want).c_str());
                PV_CHECK(cp == want, "connpeer() is %s, expected %s", text(cp).c_str(), text(want).c_str());
                cl.local = raw_name(cl.s->fd(), false);
                if (l.f != family::local)
                {
                    End sn = of(cl.s->sockname());
                    PV_CHECK(sn == cl.local, "sockname() is %s, the system says %s", text(sn).c_str(), text(cl.local).c_str());
                }
                cl.id = nid++;
                say(*cl.s, cl.id);
                l.pend.push_back(cl);
                ++conns;
                cx().log("connect %s; ", l.f == family::local ? "unix" : l.ip.c_str());
            }
        }
        else if (op == 2)
        {
            if (ls.empty()) continue;
            Lis &l = ls[r.range(0, ls.size() - 1)];
            if (l.s->is_closed()) continue;
            int batch = r.chance(1, 4) ? INT_MAX : (int)r.range(0, 6);
            std::vector<int> errs;
            int np = (int)r.weighted({5, 2, 2, 1});
            for (int i = 0; i < np; ++i) errs.push_back(r.chance(1, 6) ? EMFILE : r.chance(1, 3) ? ECONNABORTED : r.chance(1, 2) ? EINTR : 0);
            drain(l, batch, errs);
        }
        else if (op == 3)
        {
            // nobody there
            std::string how;
            size_t k = r.range(0, 6);
            int which = (int)r.range(0, 6);
            bool fail = true;
            if (k == 0)
            {
                // an address of this machine on which nobody uses the port
                Lis *l = nullptr;
                for (auto &x : ls) if (x.f == family::ipv4 && !x.any && x.open) { l = &x; if (which-- == 0) break; }
                if (!l) continue;
                std::string ip = ip4(4, 77);
                bool any = false;
                for (auto &x : ls) if (x.f == family::ipv4 && x.any && x.port == l->port && x.open) any = true;
                if (any) continue;
                int port = l->port;
                fail = visible_failure([&](nsocktcp &s) { return s.connect(ip, port); }, family::ipv4, how, block);
                cx().log("other address: %s; ", how.c_str());
            }
            else if (k == 1)
            {
                std::string p = path_of(107, 0).substr(0, 60 + which * 7 % 45) + "~";
                fail = visible_failure([&](nsocktcp &s) { return s.connect_unix(p); }, family::local, how, block);
                cx().log("missing path: %s; ", how.c_str());
            }
            else if (k == 2)
            {
                // longer than a socket path can be; its beginning may well be somebody's
                std::string p = path_of(107, which % 2) + std::string(1 + which, (char)('a' + which % 2));
                fail = visible_failure([&](nsocktcp &s) { return s.connect_unix(p); }, family::local, how, block);
                cx().log("long path: %s; ", how.c_str());
            }
            else if (k == 3)
            {
                static const char *bad[] = {"300.1.1.1", "nobody", "", "127.0.0", "::1", "127.0.0.1.1", " 127.0.0.1"};
                const char *ip = bad[which];
                int port = ls.empty() ? 80 : ls[0].port;
                fail = visible_failure([&](nsocktcp &s) { return s.connect(ip, port); }, family::ipv4, how, block);
                cx().log("bad address: %s; ", how.c_str());
            }
            else if (k == 4 || k == 5)
            {
                if (ls.empty()) continue;
                size_t i = (size_t)which % ls.size();
                Lis &l = ls[i];
                if (!l.open) continue;
                // the listener goes away, with what was pending
                l.s->close();
                l.open = false;
                for (auto &x : l.pend) no_linger(x.s->fd());
                l.pend.clear();
                bool any = false;
                for (auto &x : ls) if (x.f == l.f && x.any && x.port == l.port && x.open) any = true;
                if (any) continue;
                // with the same number nobody else can have it: it stays ours in this case
                fail = visible_failure([&](nsocktcp &s) { return l.f == family::local ? s.connect_unix(l.ip) : s.connect(l.ip, l.port); }, l.f, how, block);
                cx().log("closed listener: %s; ", how.c_str());
                if (!fail && l.f == family::ipv6) fail = true;   // the port may have been given to another worker
            }
            else
            {
                std::string p = dir + "/plain";
                int fd = ::open(p.c_str(), O_CREAT | O_RDWR, 0600);
                ::close(fd);
                fin.files.push_back(p);
                fail = visible_failure([&](nsocktcp &s) { return s.connect_unix(p); }, family::local, how, block);
                cx().log("not a socket: %s; ", how.c_str());
            }
            PV_CHECK(fail, "a connection to nobody succeeded (kind %zu, %s)", k, how.c_str());
            ++refused;
        }
        else
        {
            // a path too long to bind
            auto s = nio_factory::get_nsocktcp(family::local);
            std::string p = path_of(107, 0) + std::string(1 + r.range(0, 4), 'a');
            bool ok = true;
            try { s->bind_unix(p); }
            catch (const std::exception &) { ok = false; }
            if (ok) fin.files.push_back(raw_name(s->fd(), false).addr);
            PV_CHECK(!ok, "binding a path of %zu characters worked, as %s", p.size(), raw_name(s->fd(), false).addr.c_str());
            cx().log("bind long path; ");
        }
    }
    for (auto &l : ls)
    {
        if (l.s->is_closed()) continue;
        drain(l, INT_MAX, {});
        PV_CHECK(l.pend.empty(), "%zu connections were never accepted", l.pend.size());
    }
    if (cut) cx().label("batch limit");
    if (faults) cx().label("accept faults");
    if (blocked) cx().label("connection waited for");
    if (same) cx().label("same port on another address");
    if (refused) cx().label("refused");
    cx().nontrivial(accepted > 1 && (cut || refused || faults || same));
}
Reg r1({"endpoints", "histories of binding listeners (several loopback addresses with the same port, any, ::1, unix paths of 1..107 characters sharing prefixes), connecting, connecting to nobody (waiting for the attempt or not), and accepting in batches with injected EINTR/ECONNABORTED/EMFILE; every connection carries an id checked both ways and all names are compared with the system's; non-trivial: at least two accepted connections and a cut batch, refusal, fault or shared port",
        1, 16, 2, 34, 70000, 1200000, INPROC, 30, endpoints});

// ---- options -----------------------------------------------------------
struct Opt { const char *name; int level, opt; };
const Opt OPTS[] = {
    {"reuseaddr", SOL_SOCKET, SO_REUSEADDR}, {"reuseport", SOL_SOCKET, SO_REUSEPORT}, {"rcvbuf", SOL_SOCKET, SO_RCVBUF},
    {"sndbuf", SOL_SOCKET, SO_SNDBUF}, {"rcvlowat", SOL_SOCKET, SO_RCVLOWAT}, {"keepalive", SOL_SOCKET, SO_KEEPALIVE},
    {"linger", SOL_SOCKET, SO_LINGER}, {"nodelay", IPPROTO_TCP, TCP_NODELAY}, {"broadcast", SOL_SOCKET, SO_BROADCAST},
    {"sndlowat", SOL_SOCKET, SO_SNDLOWAT}, {"dontroute", SOL_SOCKET, SO_DONTROUTE}, {"oobinline", SOL_SOCKET, SO_OOBINLINE},
    {"priority", SOL_SOCKET, SO_PRIORITY}, {"passcred", SOL_SOCKET, SO_PASSCRED}, {"timestamp", SOL_SOCKET, SO_TIMESTAMP},
    {"mark", SOL_SOCKET, SO_MARK}, {"rcvtimeo", SOL_SOCKET, SO_RCVTIMEO}, {"sndtimeo", SOL_SOCKET, SO_SNDTIMEO},
    {"cork", IPPROTO_TCP, TCP_CORK}, {"keepidle", IPPROTO_TCP, TCP_KEEPIDLE}, {"maxseg", IPPROTO_TCP, TCP_MAXSEG},
    {"quickack", IPPROTO_TCP, TCP_QUICKACK}, {"defer", IPPROTO_TCP, TCP_DEFER_ACCEPT},
};
const int NOPT = sizeof OPTS / sizeof *OPTS;
std::string raw_opt(int fd, const Opt &o)
{
    char b[64];
    socklen_t l = sizeof b;
    memset(b, 0, sizeof b);
    if (getsockopt(fd, o.level, o.opt, b, &l) < 0) return "error";
    return std::string(b, l);
}
int raw_int(int fd, int level, int opt)
{
    int v = -12345;
    socklen_t l = sizeof v;
    if (getsockopt(fd, level, opt, &v, &l) < 0) return -54321;
    return v;
}
int read_max(const char *path)
{
    FILE *f = fopen(path, "r");
    int v = 212992;
    if (f) { if (fscanf(f, "%d", &v) != 1) v = 212992; fclose(f); }
    return v;
}
void options(const Case &c)
{
    static int rmax = read_max("/proc/sys/net/core/rmem_max"), wmax = read_max("/proc/sys/net/core/wmem_max");
    Src h(c.hdr);
    family f = h.pick(std::vector<family>{family::ipv4, family::ipv6, family::local});
    bool udp = h.chance(1, 4);
    bool conn = !udp && h.chance(1, 3);
    std::shared_ptr<nsocktcp> t, peer, l;
    std::shared_ptr<nsockudp> u;
    nsock *s;
    if (udp) { u = nio_factory::get_nsockudp(f); s = u.get(); }
    else { t = nio_factory::get_nsocktcp(f); s = t.get(); }
    std::string path;
    if (conn)
    {
        l = nio_factory::get_nsocktcp(f);
        path = scratch() + "/o" + std::to_string(unique());
        if (f == family::local) l->bind_unix(path);
        else or_skip([&] { l->bind(f == family::ipv4 ? ip4(4, 20) : "::1", 0); });
        l->listen();
        bool ok = f == family::local ? t->connect_unix(path) : t->connect(std::get<0>(l->sockname()), std::get<1>(l->sockname()));
        if (f == family::local) unlink(path.c_str());
        PV_CHECK(ok && wait_for(t->fd(), POLLOUT) && t->check_connect(), "connect failed");
    }
    int fd = s->fd();
    // the last value set through the object
    std::map<int, long> set;
    std::map<int, int> lingv;
    int sets = 0;
    cx().log("%s %s%s: ", udp ? "udp" : "tcp", f == family::ipv4 ? "4" : f == family::ipv6 ? "6" : "unix", conn ? " connected" : "");
    for (auto &w : c.ops)
    {
        Src r(w);
        int o = (int)r.range(0, 9);
        bool on = r.chance(1, 2);
        long v = 0;
        std::string before[NOPT];
        for (int i = 0; i < NOPT; ++i) before[i] = raw_opt(fd, OPTS[i]);
        int fl = fcntl(fd, F_GETFL);
        bool ok = true;
        if (r.chance(1, 10))
        {
            // somebody else changes it behind the object: the getter tells the truth
            int x = on;
            if (o <= 1 && !(f == family::local && o == 1)) { if (setsockopt(fd, OPTS[o].level, OPTS[o].opt, &x, sizeof x) == 0) set[o] = on; }
            continue;
        }
        try
        {
            switch (o)
            {
            case 0: if (on && r.chance(1, 2)) s->set_so_reuseaddr(); else s->set_so_reuseaddr(on); v = on; break;
            case 1: if (on && r.chance(1, 2)) s->set_so_reuseport(); else s->set_so_reuseport(on); v = on; break;
            case 2: v = r.range(2400, rmax); s->set_so_rcvbuf((int)v); break;
            case 3: v = r.range(4800, wmax); s->set_so_sndbuf((int)v); break;
            case 4: v = r.range(1, 1024); s->set_so_rcvlowat((int)v); break;
            case 5: if (udp) continue; if (on && r.chance(1, 2)) t->set_so_keepalive(); else t->set_so_keepalive(on); v = on; break;
            case 6: if (udp) continue; v = on; lingv[6] = (int)r.range(0, 300); if (on) t->set_so_linger(true, lingv[6]); else if (r.chance(1, 2)) t->set_so_linger(false); else t->set_so_linger(false, lingv[6]); break;
            case 7: if (udp) continue; if (on && r.chance(1, 2)) t->set_tcp_nodelay(); else t->set_tcp_nodelay(on); v = on; break;
            case 8: if (!udp) continue; if (on && r.chance(1, 2)) u->set_so_broadcast(); else u->set_so_broadcast(on); v = on; break;
            case 9: s->set_so_sndlowat((int)r.range(1, 100)); break;
            }
        }
        catch (const std::exception &) { ok = false; }
        cx().log("%s=%ld%s; ", OPTS[o].name, v, ok ? "" : " refused");
        bool settable = !(o == 9) && !(o == 7 && f == family::local) && !(o == 1 && f == family::local);
        if (settable) PV_CHECK(ok, "setting %s failed", OPTS[o].name);
        if (o == 9 || (o == 7 && f == family::local)) PV_CHECK(!ok, "setting %s, which the system does not support, did not fail", OPTS[o].name);
        if (ok && o != 9) { set[o] = v; ++sets; }
        for (int i = 0; i < NOPT; ++i)
            if (i != o) PV_CHECK(raw_opt(fd, OPTS[i]) == before[i], "setting %s changed %s", OPTS[o].name, OPTS[i].name);
            else if (!ok) PV_CHECK(raw_opt(fd, OPTS[i]) == before[i], "setting %s failed but changed it", OPTS[o].name);
        PV_CHECK(fcntl(fd, F_GETFL) == fl, "setting %s changed the flags of the descriptor", OPTS[o].name);
        for (auto &kv : set)
        {
            long g = 0, want = kv.second;
            switch (kv.first)
            {
            case 0: g = s->get_so_reuseaddr(); break;
            case 1: g = s->get_so_reuseport(); break;
            case 2: g = s->get_so_rcvbuf(); if (g == 2 * want) want = g; break;
            case 3: g = s->get_so_sndbuf(); if (g == 2 * want) want = g; break;
            case 4: g = s->get_so_rcvlowat(); break;
            case 5: g = t->get_so_keepalive(); break;
            case 6:
            {
                auto p = t->get_so_linger();
                g = p.first;
                if (p.first && want) PV_CHECK(p.second == lingv[6], "linger time reads %d, set was %d", p.second, lingv[6]);
                break;
            }
            case 7: g = t->get_tcp_nodelay(); break;
            case 8: g = u->get_so_broadcast(); break;
            }
            PV_CHECK(g == want, "%s reads %ld, set was %ld", OPTS[kv.first].name, g, kv.second);
            if (kv.first <= 4 && kv.first >= 2) PV_CHECK(g == raw_int(fd, OPTS[kv.first].level, OPTS[kv.first].opt), "%s reads %ld, the system has %d", OPTS[kv.first].name, g, raw_int(fd, OPTS[kv.first].level, OPTS[kv.first].opt));
            else if (kv.first != 6) PV_CHECK(g == (raw_int(fd, OPTS[kv.first].level, OPTS[kv.first].opt) != 0), "%s disagrees with the system", OPTS[kv.first].name);
        }
        PV_CHECK(s->get_so_sndlowat() == raw_int(fd, SOL_SOCKET, SO_SNDLOWAT), "sndlowat disagrees with the system");
        if (!udp) PV_CHECK(t->get_so_error() == 0, "so_error on a healthy socket");
    }
    if (conn) no_linger(fd);
    else if (!udp) t->set_so_linger(false);
    cx().nontrivial(sets >= 3);
}
Reg r2({"options", "sequences of setting socket options through the object on tcp/udp sockets of every family, connected or not; every option set so far is read back through the object and all 23 watched options are compared with the system; non-trivial: three or more options set",
        4, 8, 2, 16, 100000, 1500000, INPROC, 30, options});

// ---- shutdown ----------------------------------------------------------
void halfclose(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    Src h(c.hdr);
    family f = h.pick(std::vector<family>{family::ipv4, family::ipv6, family::local});
    std::shared_ptr<nsocktcp> s[2], l = nio_factory::get_nsocktcp(f);
    s[0] = nio_factory::get_nsocktcp(f);
    std::string path = scratch() + "/h" + std::to_string(unique());
    if (f == family::local) l->bind_unix(path);
    else or_skip([&] { l->bind(f == family::ipv4 ? ip4(4, 30) : "::1", 0); });
    l->listen();
    bool ok = f == family::local ? s[0]->connect_unix(path) : s[0]->connect(std::get<0>(l->sockname()), std::get<1>(l->sockname()));
    if (f == family::local) unlink(path.c_str());
    PV_CHECK(ok && wait_for(l->fd(), POLLIN), "connect failed");
    auto v = l->accept();
    PV_CHECK(v.size() == 1, "accept failed");
    s[1] = v[0];
    no_linger(s[0]->fd());
    no_linger(s[1]->fd());
    // direction d: from s[d] to s[1-d]
    bool wr[2] = {true, true}, rd[2] = {true, true};   // rd[d]: the receiver still reads
    std::string fly[2];
    int half = 0, after = 0;
    auto transfer = [&](int d, int n, uint32_t seed) {
        std::string b = bytes(seed, n);
        s[d]->wbuffer().produce(b.data(), n);
        int k = s[d]->write_all();
        PV_CHECK(k == n && !s[d]->eop(), "%d of %d bytes could be written in a direction that is not shut down", k, n);
        fly[d] += b;
    };
    auto receive = [&](int d) {
        nsocktcp &x = *s[1 - d];
        std::string got;
        for (int i = 0; i < 400 && got.size() < fly[d].size() && !x.eof(); ++i)
        {
            if (!wait_for(x.fd(), POLLIN)) break;
            x.read_all();
            got += x.rbuffer().get_string(-1, true);
        }
        PV_CHECK(got == fly[d], "%zu of %zu bytes arrive in a direction that is not shut down", got.size(), fly[d].size());
        fly[d].clear();
    };
    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({4, 4, 2});
        int d = (int)r.range(0, 1);
        if (op == 0)
        {
            int n = (int)r.range(1, 2000);
            if (!wr[d])
            {
                // writing after the own side was shut down is reported, not fatal
                continue;
            }
            if (!rd[d]) continue;
            transfer(d, n, r.word());
            if (!wr[1 - d] || !rd[1 - d]) ++after;
            cx().log("%d sends %d; ", d, n);
        }
        else if (op == 1)
        {
            if (!rd[d]) continue;
            receive(d);
            cx().log("%d receives; ", 1 - d);
        }
        else
        {
            size_t m = r.weighted({2, 2, 1});
            shut_mode mode = m == 0 ? shut_mode::shut_wr : m == 1 ? shut_mode::shut_rd : shut_mode::shut_rdwr;
            // unread input would turn into a reset elsewhere; read it first
            if (m != 0 && rd[1 - d]) receive(1 - d);
            s[d]->shutdown(mode);
            ++half;
            if (m != 1) wr[d] = false;
            if (m != 0) rd[1 - d] = false;
            cx().log("%d shuts %s; ", d, m == 0 ? "write" : m == 1 ? "read" : "both");
        }
    }
    for (int d = 0; d < 2; ++d)
    {
        nsocktcp &x = *s[1 - d];
        if (rd[d])
        {
            // still open for the receiver
            if (wr[d]) { transfer(d, 100, 7); receive(d); PV_CHECK(!x.eof(), "the end of a direction was reported that is not shut down"); if (half) ++after; }
            else
            {
                receive(d);
                for (int i = 0; i < 100 && !x.eof(); ++i) { wait_for(x.fd(), POLLIN, 5000); x.read_all(); }
                PV_CHECK(x.eof(), "the peer shut down writing but the end of file does not arrive");
                PV_CHECK(x.rbuffer().size() == 0, "bytes from nowhere");
            }
        }
        else
        {
            // reading was shut down by the receiver
            x.read_all();
            PV_CHECK(x.eof(), "reading was shut down but the end of file is not reported");
        }
        if (!wr[d])
        {
            s[d]->wbuffer().put_string("late");
            s[d]->write_all();
            PV_CHECK(s[d]->eop() || s[d]->is_reset(), "writing was shut down but a write reports nothing");
        }
    }
    cx().nontrivial(half && after);
}
Reg r3({"half-close", "sequences of sending, receiving and shutting down directions on connected pairs of every family; directions not shut down must deliver everything, shut ones must end; non-trivial: a shutdown followed by a transfer the other way",
        4, 8, 2, 16, 40000, 800000, INPROC, 30, halfclose});

// ---- names -------------------------------------------------------------
std::string mapped(const std::string &v4) { return std::string(10, '\0') + "\xff\xff" + v4; }
// an address as one may write it
std::string written(const std::string &a, Src &r)
{
    char b[64] = "";
    if (a.size() == 4) { inet_ntop(AF_INET, a.data(), b, sizeof b); return b; }
    size_t form = r.range(0, 2);
    if (form == 0) { inet_ntop(AF_INET6, a.data(), b, sizeof b); return b; }
    std::string t;
    for (int i = 0; i < 8; ++i)
    {
        snprintf(b, sizeof b, form == 1 ? "%x" : "%04X", (unsigned char)a[2 * i] * 256 + (unsigned char)a[2 * i + 1]);
        t += (i ? ":" : "") + std::string(b);
    }
    return t;
}
std::string some6(Src &r)
{
    static const unsigned char first[] = {0x20, 0x21, 0x26, 0x2a, 0xfd};
    uint64_t seed = r.word();
    std::string a = bytes(seed, 16);
    a[0] = (char)first[r.range(0, 4)];
    // runs of zeros are left out when written
    int z = (int)r.range(0, 15), k = (int)(r.chance(1, 2) ? 0 : r.range(1, 15));
    for (int i = z; i < z + k && i < 16; ++i) if (i) a[i] = 0;
    return a;
}
std::string some4(Src &r, bool loop)
{
    std::string a(4, '\0');
    a[0] = (char)(loop ? 127 : r.chance(1, 3) ? 200 + r.range(0, 23) : 1 + r.range(0, 125));
    for (int i = 1; i < 4; ++i) a[i] = (char)(r.chance(1, 3) ? 100 + r.range(0, 154) : 1 + r.range(0, 253));
    return a;
}
void names(const Case &c)
{
    int nt = 0;
    for (auto &w : c.ops)
    {
        Src r(w);
        bool six = r.chance(2, 3);
        std::string a = six ? r.chance(1, 6) ? mapped(some4(r, false)) : some6(r) : some4(r, false);
        int port = r.chance(1, 6) ? 0 : (int)r.range(1024, 65535);
        std::string ip = written(a, r);
        family f = six ? family::ipv6 : family::ipv4;
        std::shared_ptr<nsocktcp> t = nio_factory::get_nsocktcp(f);
        // any address may be bound then, this machine's or not
        int on = 1;
        if (setsockopt(t->fd(), SOL_IP, IP_FREEBIND, &on, sizeof on) != 0) throw CaseSkip();
        cx().log("%s:%d; ", ip.c_str(), port);
        or_skip([&] { t->bind(ip, port); });
        End raw = raw_name(t->fd(), false), want = parse(ip, port ? port : raw.port, f);
        PV_CHECK(raw == want, "bind to %s:%d bound %s", ip.c_str(), port, text(raw).c_str());
        End sn = of(t->sockname());
        PV_CHECK(sn == raw, "sockname() is %s, the system says %s", text(sn).c_str(), text(raw).c_str());
        if (ip.size() > 15) ++nt;
    }
    cx().nontrivial(nt);
}
Reg r4({"names", "binding sockets to generated addresses, of this machine or not (IP_FREEBIND), written in several ways, and ports; what is bound and what sockname() tells is compared with the system; non-trivial: an address longer than any of ipv4",
        0, 28, 1, 6, 60000, 1000000, INPROC, 30, names});

void dualstack(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    auto l = nio_factory::get_nsocktcp(family::ipv6);
    or_skip([&] { l->bind(0); });
    // somebody else may have been faster to listen there
    try { l->listen(); } catch (const std::system_error &e) { if (e.code().value() == EADDRINUSE) throw CaseSkip(); throw; }
    int only = raw_int(l->fd(), IPPROTO_IPV6, IPV6_V6ONLY);
    End ln = raw_name(l->fd(), false);
    PV_CHECK(of(l->sockname()) == ln && ln.addr == std::string(16, '\0'), "a socket bound without an address has the name %s, the system says %s", text(of(l->sockname())).c_str(), text(ln).c_str());
    int port = ln.port, nt = 0;
    struct Cl { std::shared_ptr<nsocktcp> s; End local, target; };
    std::map<int, Cl> pend;
    int id = 0;
    auto drain = [&] {
        if (pend.empty()) return;
        size_t got = 0, want = pend.size();
        while (got < want)
        {
            PV_CHECK(wait_for(l->fd(), POLLIN), "%zu of %zu connections never arrive", want - got, want);
            for (auto &a : l->accept())
            {
                int k = hear(*a);
                PV_CHECK(pend.count(k), "accept returned a connection nobody made (%d)", k);
                Cl &x = pend[k];
                PV_CHECK(std::get<2>(a->sockname()) == family::ipv6 && a->sockfamily() == family::ipv6, "a connection accepted by an ipv6 listener has another family");
                End pn = of(a->peername()), sn = of(a->sockname());
                PV_CHECK(pn == x.local, "peername() of an accepted connection is %s, the client is %s", text(pn).c_str(), text(x.local).c_str());
                PV_CHECK(sn == x.target, "sockname() of an accepted connection is %s, the client asked for %s", text(sn).c_str(), text(x.target).c_str());
                say(*a, k + 5000);
                int back = hear(*x.s);
                PV_CHECK(back == k + 5000, "the client got %d from its connection, expected %d", back, k + 5000);
                no_linger(a->fd());
                no_linger(x.s->fd());
                pend.erase(k);
                ++got;
            }
        }
    };
    for (auto &w : c.ops)
    {
        Src r(w);
        size_t k = r.range(0, 2);
        if (only && k != 0) k = 0;
        std::string target4 = some4(r, true), local4 = some4(r, true);
        Cl x;
        x.s = nio_factory::get_nsocktcp(k == 2 ? family::ipv6 : k == 1 ? family::ipv4 : family::ipv6);
        std::string a = k == 0 ? std::string(15, '\0') + "\x01" : k == 1 ? target4 : mapped(target4);
        std::string ip = written(a, r);
        bool own = r.chance(1, 2);
        if (k == 1 && own) or_skip([&] { x.s->bind(written(local4, r), 0); });
        cx().log("%s%s; ", ip.c_str(), k == 1 && own ? " bound" : "");
        PV_CHECK(x.s->connect(ip, port) && wait_for(x.s->fd(), POLLOUT) && x.s->check_connect(), "connecting to %s failed", ip.c_str());
        End want = parse(ip, port, k == 1 ? family::ipv4 : family::ipv6), pn = of(x.s->peername()), cp = of(x.s->connpeer()), sn = of(x.s->sockname());
        End raw = raw_name(x.s->fd(), false);
        PV_CHECK(pn == want, "peername() is %s, expected %s", text(pn).c_str(), text(want).c_str());
        PV_CHECK(cp == want, "connpeer() is %s, expected %s", text(cp).c_str(), text(want).c_str());
        PV_CHECK(sn == raw, "sockname() is %s, the system says %s", text(sn).c_str(), text(raw).c_str());
        if (k == 1 && own) PV_CHECK(raw.addr == local4, "a socket bound to one address connects from %s", text(raw).c_str());
        x.local = raw;
        x.target = want;
        for (End *e : {&x.local, &x.target}) if (e->addr.size() == 4) { e->addr = mapped(e->addr); e->af = AF_INET6; }
        if (k) ++nt;
        say(*x.s, ++id);
        pend[id] = x;
        if (r.chance(1, 4)) drain();
    }
    drain();
    cx().nontrivial(nt);
}
Reg r5({"dual-stack", "ipv6 listeners on every address, reached by clients of ipv6, of ipv4 from and to any loopback address, and by mapped addresses; names on both sides compared with the system's; non-trivial: a client not of plain ipv6",
        0, 24, 1, 6, 12000, 200000, INPROC, 30, dualstack});

// ---- an address is free again once its listener is gone -------------------------
void again(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    Src h(c.hdr);
    family f = h.chance(1, 4) ? family::ipv6 : family::ipv4;
    std::string ip = f == family::ipv6 ? "::1" : ip4(4, 100 + (int)h.range(0, 50));
    int rounds = (int)h.range(1, 3), port = 0, lingering = 0;
    std::vector<std::shared_ptr<nsocktcp>> kept;
    size_t op = 0;
    for (int k = 0; k <= rounds; ++k)
    {
        auto l = nio_factory::get_nsocktcp(f);
        if (!k)
        {
            or_skip([&] { l->bind(ip, 0); });
            try { l->listen(); } catch (const std::system_error &e) { if (e.code().value() == EADDRINUSE) throw CaseSkip(); throw; }
            port = raw_name(l->fd(), false).port;
        }
        else
        {
            std::string why;
            for (int t = 0; t < 3; ++t)
            {
                why.clear();
                try { l->bind(ip, port); l->listen(); break; }
                catch (const std::system_error &e) { why = e.what(); }
                // unless somebody else has taken it meanwhile
                auto s = nio_factory::get_nsocktcp(f);
                if (s->connect(ip, port) && wait_for(s->fd(), POLLOUT) && s->check_connect()) throw CaseSkip();
                usleep(20000);
                l = nio_factory::get_nsocktcp(f);
            }
            if (!why.empty())
                cx().fail("listening again at %s:%d, where the listener was closed and %d connections linger: %s", ip.c_str(), port, lingering, why.c_str());
        }
        cx().log("listening; ");
        int n = k == rounds ? 1 : (int)h.range(0, 3);
        for (int i = 0; i < n; ++i)
        {
            uint32_t w = op < c.ops.size() && !c.ops[op].empty() ? c.ops[op][0] : 0;
            ++op;
            auto s = nio_factory::get_nsocktcp(f);
            PV_CHECK(s->connect(ip, port) && wait_for(s->fd(), POLLOUT) && s->check_connect(), "connecting to %s:%d failed", ip.c_str(), port);
            PV_CHECK(wait_for(l->fd(), POLLIN), "the connection never arrives");
            auto v = l->accept();
            PV_CHECK(v.size() == 1, "accept returned %zu connections", v.size());
            say(*s, 7);
            PV_CHECK(hear(*v[0]) == 7, "the data did not arrive");
            ++lingering;
            switch (w % 4)
            {
            case 0: v[0]->close(); if (w & 16) s->close(); cx().log("accepted side closes%s; ", w & 16 ? ", then the other" : ""); break;
            case 1: s->close(); if (w & 16) v[0]->close(); cx().log("connecting side closes%s; ", w & 16 ? ", then the other" : ""); break;
            case 2: cx().log("stays; "); break;
            default: no_linger(s->fd()); s->close(); --lingering; cx().log("reset; ");
            }
            kept.push_back(s);
            kept.push_back(v[0]);
        }
        l->close();
    }
    cx().nontrivial(lingering > 1);
}
Reg r6({"again", "a listener accepts up to three connections that stay, are closed by either side first, or reset, is closed, and its address is bound and listened at again, up to three times; non-trivial: connections linger",
        12, 1, 0, 6, 1200, 20000, INPROC, 30, again});
}
