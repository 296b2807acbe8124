// C05: datagrams, one by one, against a model of every receiver's queue.
#include "engine.h"
#include "net.h"
#include "cppev/nio.h"
#include <arpa/inet.h>
#include <csignal>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
using namespace pv;
using namespace cppev;

namespace
{
std::deque<int> plan_s, plan_r;   // errno per call, 0 = none
bool armed = false;
int injected = 0;
bool take(std::deque<int> &p)
{
    if (!armed || p.empty()) return false;
    int e = p.front();
    p.pop_front();
    if (!e) return false;
    ++injected;
    errno = e;
    return true;
}
}
extern "C" ssize_t sendto(int fd, const void *b, size_t n, int fl, const sockaddr *a, socklen_t l)
{
    if (take(plan_s)) return -1;
    return syscall(SYS_sendto, fd, b, n, fl, a, l);
}
extern "C" ssize_t sendmsg(int fd, const msghdr *m, int fl)
{
    if (take(plan_s)) return -1;
    return syscall(SYS_sendmsg, fd, m, fl);
}
extern "C" ssize_t recvfrom(int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *l)
{
    if (!(fl & MSG_PEEK) && take(plan_r)) return -1;
    return syscall(SYS_recvfrom, fd, b, n, fl, a, l);
}
extern "C" ssize_t recvmsg(int fd, msghdr *m, int fl)
{
    if (!(fl & MSG_PEEK) && take(plan_r)) return -1;
    return syscall(SYS_recvmsg, fd, m, fl);
}

namespace
{
struct Gram { std::string data; int from; long cost; int port; std::string ip; };
struct Sock
{
    std::shared_ptr<nsockudp> s;
    family f;
    std::string ip;        // or path; empty when unbound
    int port = 0;
    bool open = true;
    std::string wb, rb;
    std::deque<Gram> q;
    long cost = 0;
};
int raw_port(int fd)
{
    sockaddr_storage s;
    memset(&s, 0, sizeof s);
    socklen_t l = sizeof s;
    getsockname(fd, (sockaddr *)&s, &l);
    return ntohs(s.ss_family == AF_INET ? ((sockaddr_in *)&s)->sin_port : ((sockaddr_in6 *)&s)->sin6_port);
}

void body(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    Src h(c.hdr);
    size_t mix = h.range(0, 3);   // one family mostly, so that they meet
    std::vector<Sock> ss;
    std::string dir = scratch() + "/d" + std::to_string(unique());
    mkdir(dir.c_str(), 0700);
    struct Fin
    {
        std::string d;
        std::vector<std::string> files;
        ~Fin()
        {
            armed = false;
            for (auto &f : files) unlink(f.c_str());
            rmdir(d.c_str());
        }
    } fin{dir, {}};
    int n = (int)h.range(2, 5);
    Setting size(sysconfig::udp_buffer_size, h.chance(1, 2) ? 2048 : h.pick(std::vector<int>{1, 2, 100, 2047, 2049, 65535, 65536, 100000}));
    for (int i = 0; i < n; ++i)
    {
        Sock s;
        size_t k = h.chance(3, 4) ? mix : h.range(0, 3);
        s.f = k <= 1 ? family::ipv4 : k == 2 ? family::ipv6 : family::local;
        s.s = nio_factory::get_nsockudp(s.f);
        s.s->set_so_rcvbuf(1 << 20);
        s.s->set_so_sndbuf(1 << 20);
        bool bound = i == 0 || h.chance(5, 6);
        if (bound && s.f == family::local)
        {
            s.ip = dir + "/" + std::string(1 + h.range(0, 30), (char)('a' + i));
            s.s->bind_unix(s.ip);
            fin.files.push_back(s.ip);
        }
        else if (bound)
        {
            s.ip = s.f == family::ipv4 ? ip4(5, 1 + i) : "::1";
            int port = 0;
            // the same port on another address, a datagram must not go astray
            if (s.f == family::ipv4) for (auto &o : ss) if (o.f == family::ipv4 && !o.ip.empty()) port = o.port;
            bool done = false;
            if (port) { try { s.s->bind(s.ip, port); done = true; } catch (const std::exception &) {} }
            if (s.f == family::ipv6) or_skip([&] { s.s->bind(s.ip, port6(i)); });
            else if (!done) or_skip([&] { s.s->bind(s.ip, 0); });
            s.port = raw_port(s.s->fd());
        }
        ss.push_back(s);
    }
    int sent = 0, got = 0, errors = 0, left = 0, zero = 0, large = 0, reord = 0;

    auto check_bufs = [&](const char *what) {
        for (size_t i = 0; i < ss.size(); ++i)
        {
            std::string r = ss[i].s->rbuffer().get_string(-1, false), w = ss[i].s->wbuffer().get_string(-1, false);
            PV_CHECK(r == ss[i].rb, "after %s the read buffer of %zu holds %zu bytes %s, expected %zu bytes %s", what, i, r.size(), show(r, 24).c_str(), ss[i].rb.size(), show(ss[i].rb, 24).c_str());
            PV_CHECK(w == ss[i].wb, "after %s the write buffer of %zu holds %zu bytes %s, expected %zu bytes %s", what, i, w.size(), show(w, 24).c_str(), ss[i].wb.size(), show(ss[i].wb, 24).c_str());
        }
    };
    auto receive = [&](size_t i, std::deque<int> p) {
        Sock &d = ss[i];
        if (!d.q.empty()) PV_CHECK(wait_for(d.s->fd(), POLLIN), "a datagram of %zu bytes sent to %zu never arrives", d.q.front().data.size(), i);
        plan_r = p;
        injected = 0;
        armed = true;
        bool thrown = false;
        std::tuple<std::string, int, family> from;
        try { from = d.s->recv(); }
        catch (const std::exception &) { thrown = true; }
        armed = false;
        bool fault = injected > 0;
        cx().log("%zu recv%s%s; ", i, thrown ? " raised" : "", fault ? " (fault)" : "");
        if (thrown)
        {
            ++errors;
            PV_CHECK(fault || d.q.empty(), "receiving raised although a datagram of %zu bytes was waiting", d.q.front().data.size());
            check_bufs("a receive that failed");
            return;
        }
        PV_CHECK(!d.q.empty(), "receiving succeeded although nothing was sent");
        Gram g = d.q.front();
        d.q.pop_front();
        d.cost -= g.cost;
        if (!d.rb.empty()) ++left;
        if (d.q.size() && d.q.front().from != g.from) ++reord;
        d.rb += g.data;
        ++got;
        check_bufs("a receive");
        PV_CHECK(std::get<2>(from) == d.f, "the sender's family is wrong");
        if (d.f == family::local)
            PV_CHECK(std::get<0>(from) == d.ip || std::get<0>(from) == g.ip, "the receive reports %s", std::get<0>(from).c_str());
        else
        {
            PV_CHECK(std::get<1>(from) == g.port, "the datagram came from port %d, reported was %d", g.port, std::get<1>(from));
            std::string ip = std::get<0>(from);
            if (!g.ip.empty()) PV_CHECK(ip == g.ip, "the datagram came from %s, reported was %s", g.ip.c_str(), ip.c_str());
            else PV_CHECK(d.f == family::ipv6 ? ip == "::1" : ip.compare(0, 4, "127.") == 0, "the datagram came from this machine, reported was %s", ip.c_str());
        }
    };

    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({5, 7, 6, 3, 2, 1});
        size_t i = r.range(0, n - 1), j = r.range(0, n - 1);
        if (op == 0)
        {
            static const int edges[] = {0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 65507, 65508, 65527, 65528, 65535, 65536, 100000};
            int m = (int)(r.chance(1, 4) ? edges[r.range(0, 15)] : r.skew(0, 70000));
            if (m + ss[i].wb.size() > 120000) continue;
            std::string s = bytes(r.word(), m, r.chance(1, 2) ? Alpha::any : Alpha::nul);
            ss[i].s->wbuffer().produce(s.data(), m);
            ss[i].wb += s;
            cx().log("%zu put %d; ", i, m);
        }
        else if (op == 1)
        {
            Sock &s = ss[i];
            bool fill = s.wb.empty() && r.chance(2, 3);
            if (fill)
            {
                std::string x = bytes(r.word(), r.skew(0, 3000));
                s.s->wbuffer().produce(x.data(), (int)x.size());
                s.wb = x;
            }
            std::deque<int> p;
            if (r.chance(1, 10)) p.push_back(r.pick(std::vector<int>{EINTR, EAGAIN, ENOBUFS, EPERM}));
            // find someone of the same family
            size_t tries = 0;
            while ((ss[j].f != s.f || ss[j].ip.empty()) && tries++ < (size_t)n) j = (j + 1) % n;
            if (ss[j].f != s.f || ss[j].ip.empty()) continue;
            Sock &d = ss[j];
            long size = (long)s.wb.size();
            long cost = 2 * size + 4000;
            if (d.open && s.f != family::local && d.cost + cost > 380000) continue;
            plan_s = p;
            injected = 0;
            armed = true;
            bool thrown = false;
            try
            {
                if (s.f == family::local) { if (r.chance(1, 2)) s.s->send_unix(d.ip); else s.s->send_unix(d.ip.c_str()); }
                else if (r.chance(1, 2)) s.s->send(d.ip, d.port);
                else s.s->send(d.ip.c_str(), d.port);
            }
            catch (const std::exception &) { thrown = true; }
            armed = false;
            bool fault = injected > 0;
            cx().log("%zu->%zu %ld%s%s; ", i, j, size, thrown ? " raised" : "", fault ? " (fault)" : "");
            long max = s.f == family::ipv4 ? 65507 : s.f == family::ipv6 ? 65527 : 100000000;
            if (thrown)
            {
                ++errors;
                bool full = s.f == family::local && (d.q.size() >= 8 || size + d.cost > 120000);
                PV_CHECK(fault || size > max || !d.open || full, "sending %ld bytes to %s raised", size, d.ip.c_str());
                check_bufs("a send that failed");
                continue;
            }
            PV_CHECK(size <= max, "sending %ld bytes, more than a datagram holds, succeeded", size);
            if (s.f == family::local) PV_CHECK(d.open, "sending to a closed unix socket succeeded");
            if (d.open) { d.q.push_back({s.wb, (int)i, cost, s.f == family::local ? 0 : raw_port(s.s->fd()), s.ip}); d.cost += cost; }
            if (size == 0) ++zero;
            if (size > 2048) ++large;
            s.wb.clear();
            ++sent;
            check_bufs("a send");
        }
        else if (op == 2 || op == 3)
        {
            if (op == 3) { size_t t = 0; while (ss[i].q.empty() && t++ < (size_t)n) i = (i + 1) % n; }
            if (!ss[i].open) continue;
            if (ss[i].ip.empty()) continue;
            std::deque<int> p;
            if (r.chance(1, 8)) p.push_back(r.pick(std::vector<int>{EINTR, EAGAIN, ENOMEM, EIO}));
            receive(i, p);
        }
        else if (op == 4)
        {
            // use up part of a buffer
            Sock &s = ss[i];
            if (r.chance(1, 2)) { int k = (int)(r.chance(1, 2) ? s.rb.size() : r.range(0, s.rb.size())); s.s->rbuffer().consume(k); s.rb.erase(0, k); if (r.chance(1, 3)) s.s->rbuffer().tiny(); }
            else { int k = (int)r.range(0, s.wb.size()); s.s->wbuffer().consume(k); s.wb.erase(0, k); if (r.chance(1, 3)) s.s->wbuffer().tiny(); }
            check_bufs("consuming");
            cx().log("%zu consume; ", i);
        }
        else
        {
            size_t k = r.range(0, 2);
            Sock &s = ss[i];
            if (k == 0 && s.open && i != 0 && !s.ip.empty())
            {
                // gone, with what was waiting; its number stays ours
                s.s->close();
                s.open = false;
                s.q.clear();
                s.cost = 0;
                Sock t = s;
                s.s = nio_factory::get_nsockudp(s.f);
                s.wb.clear();
                s.rb.clear();
                cx().log("%zu closed; ", i);
                // the object is new and unbound, nobody listens at the old address
                if (s.f != family::local) { s.ip.clear(); s.port = 0; s.open = true; }
                continue;
            }
            bool thrown = false;
            try
            {
                if (k == 1 && s.f == family::local) s.s->send_unix(dir + "/missing");
                else if (k == 2 && s.f == family::local) s.s->send_unix(dir + "/" + std::string(120, 'a'));
                else if (s.f == family::ipv4) s.s->send(r.pick(std::vector<const char *>{"300.0.0.1", "", "::1", "here"}), 9);
                else if (s.f == family::ipv6) s.s->send(r.pick(std::vector<const char *>{"127.0.0.1", "", ":::1", "here"}), 9);
                else continue;
            }
            catch (const std::exception &) { thrown = true; }
            cx().log("%zu -> nowhere; ", i);
            ++errors;
            PV_CHECK(thrown, "sending to an address that cannot be succeeded");
            check_bufs("a send to nowhere");
        }
    }
    for (size_t i = 0; i < ss.size(); ++i)
    {
        if (!ss[i].open || ss[i].ip.empty()) continue;
        while (!ss[i].q.empty()) receive(i, {});
        receive(i, {});   // and nothing more
    }
    if (zero) cx().label("empty datagram");
    if (large) cx().label("larger than the default buffer");
    if (left) cx().label("appended to unread data");
    if (errors) cx().label("errors");
    if (reord) cx().label("several senders");
    cx().nontrivial(got > 2 && (left || large || zero || reord));
}
Reg r1({"datagrams", "histories of filling, sending, receiving and consuming on 2-5 udp4 (one port on several addresses), udp6 and unix datagram sockets, sizes 0..100000, injected send/receive errors and impossible addresses; every datagram, both buffers and the reported sender are compared with a queue model; non-trivial: three or more datagrams received and one of: appended to unread data, larger than 2048, empty, several senders",
        48, 16, 2, 40, 100000, 1800000, INPROC, 30, body});

// ipv6 sockets bound to every address hear ipv4 senders too, and reach ipv4 receivers by mapped addresses
void dualstack(const Case &c)
{
    Src h(c.hdr);
    auto rx = nio_factory::get_nsockudp(family::ipv6);
    or_skip([&] { rx->bind(port6(20)); });
    int port = raw_port(rx->fd()), only = 0;
    socklen_t ol = sizeof only;
    getsockopt(rx->fd(), IPPROTO_IPV6, IPV6_V6ONLY, &only, &ol);
    if (only) throw CaseSkip();
    auto loop = [](Src &r) {
        std::string ip = "127";
        for (int i = 0; i < 3; ++i) ip += "." + std::to_string(r.chance(1, 3) ? 100 + r.range(0, 154) : 1 + r.range(0, 253));
        return ip;
    };
    std::string ip4r = ip4(5, 1 + (int)h.range(0, 200));
    auto rx4 = nio_factory::get_nsockudp(family::ipv4);
    or_skip([&] { rx4->bind(ip4r, 0); });
    int port4 = raw_port(rx4->fd()), nt = 0;
    std::string have, have4;
    for (auto &w : c.ops)
    {
        Src r(w);
        size_t k = r.range(0, 2);
        std::string data = bytes(r.word(), (size_t)r.skew(0, 3000));
        std::string from = loop(r), to = loop(r), want;
        std::shared_ptr<nsockudp> tx = nio_factory::get_nsockudp(k == 0 ? family::ipv4 : family::ipv6);
        if (k == 0) { or_skip([&] { tx->bind(from, 0); }); want = "::ffff:" + from; }
        if (k == 1) { or_skip([&] { tx->bind("::1", port6(21)); }); want = "::1"; }
        if (k == 2) or_skip([&] { tx->bind(0); });
        tx->wbuffer().produce(data.data(), (int)data.size());
        nsockudp &d = k == 2 ? *rx4 : *rx;
        std::string &hv = k == 2 ? have4 : have;
        std::string dest = k == 0 ? to : k == 1 ? "::1" : "::ffff:" + ip4r;
        cx().log("%s -> %s %zu; ", k == 0 ? from.c_str() : "ipv6", dest.c_str(), data.size());
        tx->send(dest, k == 2 ? port4 : port);
        PV_CHECK(tx->wbuffer().size() == 0, "after a send the write buffer holds %d bytes", tx->wbuffer().size());
        PV_CHECK(wait_for(d.fd(), POLLIN), "a datagram sent to %s never arrives", dest.c_str());
        auto t = d.recv();
        hv += data;
        std::string now = d.rbuffer().get_string(-1, false);
        PV_CHECK(now == hv, "after a receive the read buffer holds %zu bytes, expected %zu", now.size(), hv.size());
        PV_CHECK(std::get<1>(t) == raw_port(tx->fd()), "the datagram came from port %d, reported was %d", raw_port(tx->fd()), std::get<1>(t));
        if (k == 2) PV_CHECK(std::get<2>(t) == family::ipv4 && std::get<0>(t).compare(0, 4, "127.") == 0, "the datagram came from this machine by ipv4, reported was %s", std::get<0>(t).c_str());
        else
        {
            // however it is written
            char a[16], b[16];
            PV_CHECK(std::get<2>(t) == family::ipv6 && inet_pton(AF_INET6, std::get<0>(t).c_str(), a) == 1 && inet_pton(AF_INET6, want.c_str(), b) == 1 && memcmp(a, b, 16) == 0, "the datagram came from %s, reported was %s", want.c_str(), std::get<0>(t).c_str());
        }
        if (k != 1) ++nt;
        if (r.chance(1, 3)) { d.rbuffer().clear(); hv.clear(); }
    }
    cx().nontrivial(nt);
}
Reg r2({"dual-stack", "datagrams from any ipv4 loopback address and from ipv6 to an ipv6 receiver on every address, and by mapped addresses to an ipv4 receiver; data and sender compared; non-trivial: one between the families",
        2, 20, 1, 8, 30000, 600000, INPROC, 30, dualstack});
}
