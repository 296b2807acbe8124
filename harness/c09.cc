// C09: the life cycle of reactor connections, whatever the peers do.
#include "reactor.h"
#include <algorithm>
#include <sys/resource.h>
using namespace pv;
using namespace rx;

namespace
{
struct World
{
    int kind;                    // 0 server and raw peers, 1 client and raw listeners
    End a;
    std::vector<Addr> addrs;
    std::vector<int> lfds;
    std::deque<Peer> peers;
    std::vector<bool> echo;      // left alone: has to get everything back
    std::atomic<int> claimed[MAXCONN + 1];
    std::unique_ptr<cppev::reactor::tcp_server> server;
    std::unique_ptr<cppev::reactor::tcp_client> client;
    int n = 0;
    bool hold = false;           // nobody connects at the moment
    bool squeeze = false;
};
World *W;

bool round_()
{
    World &w = *W;
    bool moved = false;
    static long last = 0;
    for (size_t l = 0; l < w.lfds.size(); ++l)
        for (;;)
        {
            int fd = accept4(w.lfds[l], nullptr, nullptr, SOCK_CLOEXEC);
            if (fd < 0) break;
            Peer *p = nullptr;
            for (auto &x : w.peers) if (!x.connected && x.to.port == w.addrs[l].port && x.to.path == w.addrs[l].path) { p = &x; break; }
            if (!p) cx().fail("the client made more connections than it was asked to");
            p->adopt(fd);
            moved = true;
        }
    ++w.n;
    auto claim = [](uint32_t k) -> std::string {
        if ((k >> 24) != 0xE0 || (k & 0xFFFFFF) >= MAXCONN) return "unknown stream";
        return W->claimed[k & 0xFFFFFF].fetch_add(1, RLX) ? "a stream reaches two peers" : "";
    };
    for (auto &p : w.peers)
    {
        if (!p.connected && !p.gone && w.kind == 0 && !w.hold && w.n > p.start) { p.connect_now(); if (p.refused) cx().fail("a connection to the server was refused (errno %d)", errno); moved = true; }
        moved |= p.step(claim);
    }
    long sum = w.a.callbacks.load(RLX) + w.a.returns.load(RLX);
    if (sum != last) { last = sum; moved = true; }
    return moved;
}
// connections the endpoint has opened and not seen the end of
int alive()
{
    int n = 0, m = std::min<int>(W->a.nconn.load(RLX), MAXCONN);
    for (int i = 0; i < m; ++i) n += !W->a.conns[i].ended.load(RLX);
    return n;
}
// what is missing of a state in which all has been done; peers let_go must end
std::string missing_now()
{
    World &w = *W;
    char b[300];
    int opened = w.a.nconn.load(RLX), lost = 0, up = 0;
    for (size_t i = 0; i < w.peers.size(); ++i)
    {
        Peer &p = w.peers[i];
        if (w.hold && !p.connected) continue;
        if (!p.connected && !p.gone) { snprintf(b, sizeof b, "peer %zu is not connected", i); return b; }
        if (p.fin != STAY && !p.gone && !(p.wr_done && p.rd_done)) { snprintf(b, sizeof b, "peer %zu, which is to end, waits: %zu of %zu sent, %llu read, end seen %d", i, p.sent, p.to_send, (unsigned long long)p.sink.got, p.rd_done); return b; }
        // cut off before the client has looked at it
        if (w.kind == 1 && p.gone) ++lost;
        if (!p.gone && !p.rd_done) ++up;
        if (w.echo[i] && !p.let_go)
        {
            if (p.rd_done) { snprintf(b, sizeof b, "peer %zu, left alone by both sides, was cut off", i); return b; }
            if (p.sink.got != p.to_send) { snprintf(b, sizeof b, "peer %zu has got %llu of %zu bytes back", i, (unsigned long long)p.sink.got, p.to_send); return b; }
        }
        else if (!p.gone && !p.rd_done && !p.wr_done && p.sent < p.to_send) { snprintf(b, sizeof b, "peer %zu could send %zu of %zu", i, p.sent, p.to_send); return b; }
    }
    int all = 0;
    for (auto &p : w.peers) all += p.connected || p.gone;
    if (opened < all - lost) { snprintf(b, sizeof b, "%d accept/connect callbacks for %d connections", opened, all); return b; }
    if (alive() != up) { snprintf(b, sizeof b, "%d connections of the endpoint are open, but %d of the peers'", alive(), up); return b; }
    return "";
}
std::string missing()
{
    World &w = *W;
    long returned = w.a.returns.load(RLX);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    long called = w.a.callbacks.load(RLX);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    if (called != returned) return "a callback does not return";
    std::string m = missing_now();
    std::atomic_signal_fence(std::memory_order_seq_cst);
    if (m.empty() && w.a.callbacks.load(RLX) != called) return "callbacks go on and on";
    return m;
}
void reach(const char *when)
{
    bool ok = drive(round_, []() { return missing().empty(); });
    if (ok) return;
    ds::Quiet q;
    std::string m = missing();
    if (!m.empty()) cx().fail("%s, nothing moves any more: %s", when, m.c_str());
}
size_t fds() { return open_fds().size(); }

void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    (void)cfg;
    cfg.fair_steps = 20000000;
    cfg.max_steps = 120000000;
    tune(h);
    W = new World();
    World &w = *W;
    for (auto &x : w.claimed) x.store(0, RLX);
    w.kind = (int)h.weighted({3, 2});
    int workers = (int)h.range(1, 4), conts = (int)h.range(1, 2);
    int naddr = (int)h.range(1, 3);
    int fams[3] = {(int)(h.word() % 3), (int)(h.word() % 3), (int)(h.word() % 3)};
    int endmode = (int)h.range(0, 2);
    bool deaf = h.chance(1, 3);
    w.squeeze = w.kind == 0 && h.chance(1, 8);
    int slots = (int)h.range(0, 3);
    size_t nmax = PV_DSCHED ? 6 : 16;
    for (int k = 0; k < naddr; ++k) w.addrs.push_back(address(9, k, fams[k]));
    w.a.what = w.kind == 1 ? "client" : "server";
    w.a.claim = [](uint32_t k) -> std::string {
        if ((k >> 24) != 0x5A) return "unknown stream";
        return "";
    };
    // the endpoint's doings are not tied to a peer: the k-th connection it opens
    bool closes = false;
    size_t n = 0;
    int fins[5] = {0, 0, 0, 0, 0}, ins[5] = {0, 0, 0, 0, 0};
    size_t most = 0;
    for (auto &o : c.ops)
    {
        if (n >= nmax) break;
        Src r(o);
        Peer p;
        p.key = 0x5A000000u | (uint32_t)n;
        p.to = w.addrs[r.word() % naddr];
        p.start = (int)r.range(0, 30);
        size_t k = r.weighted({2, 4, 2, 1});
        p.to_send = k == 0 ? 0 : k == 1 ? r.range(4, 300) : k == 2 ? r.range(4, 6000) : r.range(4, PV_DSCHED ? 20000 : 200000);
        p.chunk = r.chance(1, 2) ? 60000 : r.range(1, 3000);
        p.chunk = std::max(p.chunk, p.to_send / 100);
        p.send_every = (int)r.range(1, 4);
        p.read_start = r.chance(1, 3) ? (int)r.range(0, 40) : 0;
        p.rchunk = r.chance(1, 2) ? 65536 : r.range(500, 5000);
        p.fin = (int)r.weighted({2, 2, 1, 2, 3});
        p.fin_when = (int)r.weighted({3, 3, 2});
        if (r.chance(1, 4)) { p.rcvbuf = PV_DSCHED ? 2304 : 32768; p.sndbuf = 4608; }
        Script &s = w.a.conns[n].s;
        size_t big = PV_DSCHED ? 30000 : 400000;
        auto some = [&](int max) {
            std::vector<Wr> v;
            int m = (int)r.range(0, max);
            for (int i = 0; i < m; ++i)
            {
                Wr x;
                x.n = r.chance(1, 4) ? r.range(1, (long long)big) : r.range(1, 300);
                x.parts = (int)r.range(1, 3);
                x.each = r.chance(1, 2);
                v.push_back(x);
            }
            return v;
        };
        s.open = some(2);
        s.resp = (int)r.weighted({1, 3, 1});
        s.resp_n = r.range(1, 3000);
        s.resp_max = 300000;
        s.stream = some(3);
        s.sndbuf = r.chance(1, 3) ? 4608 : 0;
        s.work = PV_DSCHED ? (int)r.range(0, 4) : 0;
        s.close_in = (int)r.weighted({4, 1, 2, 1, 1});
        s.close_at = s.close_in == READ || s.close_in == WRITTEN ? (int)r.range(1, 3) : 1;
        s.close_late = r.chance(1, 2);
        s.careless = r.chance(1, 3);
        // never reads, so only a close of its own ends it
        if (deaf && p.fin >= CLOSE) { p.read_start = 1 << 30; p.fin_when = 0; }
        p.fin_rounds = r.chance(1, 2) ? (int)r.range(0, 40) : 0;
        closes |= s.close_in != NONE;
        p.fin_got = 0;
        for (auto &x : s.open) p.rchunk = std::max(p.rchunk, x.n / 100);
        for (auto &x : s.stream) p.rchunk = std::max(p.rchunk, x.n / 100);
        most = std::max(most, p.rchunk);
        ++fins[p.fin];
        ++ins[s.close_in];
        w.peers.push_back(p);
        w.echo.push_back(false);
        ++n;
    }
    if (w.peers.empty()) { cx().log("(none)"); return; }
    for (auto &p : w.peers) p.rchunk = std::max(p.rchunk, most);
    // which connection a peer gets is not known beforehand; where the endpoint closes nothing,
    // echoes everything and adds nothing, the peers that stay are served in full
    bool plain = h.chance(1, 3);
    if (plain)
    {
        for (size_t i = 0; i < n; ++i)
        {
            Script &s = w.a.conns[i].s;
            s.open.clear();
            s.stream.clear();
            s.resp = 1;
            s.resp_max = 1u << 30;
            s.close_in = NONE;
            w.echo[i] = w.peers[i].fin == STAY;
            if (w.peers[i].fin_when == 2) w.peers[i].fin_got = w.peers[i].to_send / 2;
        }
        closes = false;
    }
    // a peer that sends in bulk and an endpoint that does not read, since it has to write
    // first, need a peer that reads: all but the deaf ones do
    static const char *K[] = {"server", "client"};
    static const char *F[] = {"stays", "shuts", "shuts+closes", "closes", "resets"};
    cx().log("%s %d workers%s%s;", K[w.kind], workers, plain ? " echo" : "", w.squeeze ? " no descriptors" : "");
    for (auto &p : w.peers) cx().log(" [%s %s@%d sends %zu/%zu reads@%d/%zu from %d to %d]", p.to.f == cppev::family::ipv4 ? "4" : p.to.f == cppev::family::ipv6 ? "6" : "u", F[p.fin], p.fin_when, p.to_send, p.chunk, p.read_start, p.rchunk, p.start, p.fin_rounds);
    for (size_t i = 0; i < n && !plain; ++i)
    {
        Script &s = w.a.conns[i].s;
        cx().log(" <");
        for (auto &x : s.open) cx().log(" %zux%d%s", x.n, x.parts, x.each ? "e" : "");
        if (s.resp) cx().log(" r%d:%zu", s.resp, s.resp_n);
        for (auto &x : s.stream) cx().log(" w%zu", x.n);
        if (s.close_in) cx().log(" close in %s %d%s%s", End::name(s.close_in), s.close_at, s.close_late ? " late" : "", s.careless ? " careless" : "");
        cx().log(">");
    }
#if PV_DSCHED
    ds::run(cfg, [&]() {
#endif
        if (w.kind == 0)
        {
            w.server.reset(new cppev::reactor::tcp_server(workers, &w.a.dummy));
            w.a.attach_server(*w.server);
            for (auto &a : w.addrs)
                or_skip([&]() {
                    if (a.f == cppev::family::local) w.server->listen_unix(a.path, true);
                    else w.server->listen(a.port, a.f, a.ip.c_str());
                });
            w.server->run();
        }
        else
        {
            for (auto &a : w.addrs) w.lfds.push_back(raw_bind(a, true));
            w.client.reset(new cppev::reactor::tcp_client(workers, conts, &w.a.dummy));
            w.a.attach_client(*w.client);
            w.client->run();
        }
        pass_time(1);
        size_t base = fds();
        if (w.kind == 1)
            for (auto &p : w.peers)
            {
                if (p.to.f == cppev::family::local) w.client->add_unix(p.to.path);
                else w.client->add(p.to.ip, p.to.port, p.to.f);
            }
        if (w.squeeze)
        {
            // the first peers are there when the descriptors run out, the others come meanwhile
            std::vector<int> later;
            for (size_t i = 1; i < n; ++i) { w.peers[i].start = 1 << 30; }
            drive(round_, []() { return W->peers[0].connected; });
            rlimit old, low;
            std::vector<int> sock;
            for (size_t i = 1; i < n; ++i) sock.push_back(socket(w.peers[i].to.af(), SOCK_STREAM | SOCK_CLOEXEC, 0));
            getrlimit(RLIMIT_NOFILE, &old);
            low = old;
            std::vector<int> pad;
            int top = dup(0);
            close(top);
            low.rlim_cur = top + slots;
            setrlimit(RLIMIT_NOFILE, &low);
            for (size_t i = 1; i < n; ++i)
            {
                Peer &p = w.peers[i];
                sockaddr_storage sa;
                socklen_t l = p.to.fill(sa);
                if (connect(sock[i - 1], (sockaddr *)&sa, l)) cx().fail("a connection to the server was refused (errno %d) while it was out of descriptors", errno);
                nonblock(sock[i - 1]);
                p.fd = sock[i - 1];
                p.connected = true;
            }
            for (int i = 0; i < 30; ++i) { { ds::Quiet q; round_(); } pass_time(1); }
            setrlimit(RLIMIT_NOFILE, &old);
        }
        reach("with some peers gone");
        pass_time(1);
        {
            ds::Quiet q;
            round_();
            int open = alive();
            cx().nontrivial(fins[SHUT] + fins[SHUTCLOSE] + fins[CLOSE] + fins[RESET] > 0 || closes);
            if (open) cx().label("some connections outlive others");
            if (fins[RESET]) cx().label("resets");
            if (fins[SHUT] + fins[SHUTCLOSE]) cx().label("half closes");
            for (int i = 1; i < 5; ++i) if (ins[i] && closes) cx().label(std::string("closed in ") + End::name(i));
            if (w.squeeze) cx().label("out of descriptors");
            int k = 0;
            for (auto &p : w.peers)
            {
                p.let_go = true;
                if (p.gone || p.rd_done) { p.drop(false); continue; }
                p.fin = endmode == 0 ? CLOSE : endmode == 1 ? RESET : k++ % 2 ? CLOSE : RESET;
            }
        }
        reach("with all peers gone");
        {
            ds::Quiet q;
            PV_CHECK(alive() == 0, "%d connections are open without a peer", alive());
        }
        wait_until([&]() { return fds() == base; });
        pass_time(1);
        {
            ds::Quiet q;
            if (fds() != base) cx().fail("%zu descriptors are open, there were %zu before the first connection", fds(), base);
            int m = std::min<int>(w.a.nconn.load(RLX), MAXCONN);
            for (int i = 0; i < m; ++i)
            {
                Conn &x = w.a.conns[i];
                if (x.closed.load(RLX) + x.local.load(RLX) == 0 || x.closed.load(RLX) > 1)
                    cx().fail("%s connection %d: %d closed callbacks, closed locally %d", w.a.what, i, x.closed.load(RLX), x.local.load(RLX));
            }
            PV_CHECK(m <= (int)n, "%d accept/connect callbacks for %zu connections", m, n);
        }
        // still in service
        {
            Peer p;
            p.key = 0x5A0000FFu;
            p.to = w.addrs[0];
            p.to_send = 500;
            int k = std::min<int>(w.a.nconn.load(RLX), MAXCONN - 1);
            w.a.conns[k].s = Script();
            w.a.conns[k].s.resp = 1;
            w.a.conns[k].s.resp_max = 1 << 20;
            w.peers.clear();
            w.peers.push_back(p);
            w.echo.assign(1, true);
            w.n = 10;
            if (w.kind == 1)
            {
                if (p.to.f == cppev::family::local) w.client->add_unix(p.to.path);
                else w.client->add(p.to.ip, p.to.port, p.to.f);
            }
            bool ok = drive(round_, []() { return W->peers[0].sink.got == 500; });
            if (!ok) cx().fail("a new connection after all that is not served (connected %d, %zu sent, %llu got back)", w.peers[0].connected, w.peers[0].sent, (unsigned long long)w.peers[0].sink.got);
            w.peers[0].drop(true);
        }
        if (w.client) w.client->shutdown();
        if (w.server) w.server->shutdown();
        w.a.down = true;
        w.client.reset();
        w.server.reset();
#if PV_DSCHED
    });
#endif
    for (auto &a : w.addrs) if (!a.path.empty()) unlink(a.path.c_str());
}
#if !PV_DSCHED
// The system gives up on a peer that does not take anything (as it does on a host
// that has vanished): the read or write that finds out fails with ETIMEDOUT.
void vanish(const Case &c)
{
    Src h(c.hdr);
    tune(h);
    W = new World();
    World &w = *W;
    for (auto &x : w.claimed) x.store(0, RLX);
    w.kind = (int)h.range(0, 1);
    int workers = (int)h.range(1, 3);
    w.addrs.push_back(address(9, 0, (int)h.range(0, 1)));
    w.a.what = w.kind == 1 ? "client" : "server";
    w.a.claim = [](uint32_t k) -> std::string { return (k >> 24) != 0x5A ? "unknown stream" : ""; };
    size_t n = 0;
    bool in_open = h.chance(1, 2);
    cx().log("%s %d workers, writes in %s;", w.kind ? "client" : "server", workers, in_open ? "accept/connect" : "read-complete");
    for (auto &o : c.ops)
    {
        if (n >= 8) break;
        Src r(o);
        Peer p;
        p.key = 0x5A000000u | (uint32_t)n;
        p.to = w.addrs[0];
        p.start = (int)r.range(0, 10);
        p.to_send = r.range(4, 400);
        p.rcvbuf = 2304;
        p.read_start = 1 << 30;
        p.fin = CLOSE;
        p.fin_when = 3;
        size_t big = r.chance(1, 2) ? r.range(100000, 300000) : r.range(3000000, 9000000);
        Script &s = w.a.conns[n].s;
        s.timeout = (int)r.range(50, 400);
        if (in_open) s.open.push_back(Wr{big, 1, false});
        else { s.resp = 2; s.resp_n = s.resp_max = big; }
        s.close_in = (int)r.weighted({3, 0, 0, 0, 1});
        cx().log(" [sends %zu, is sent %zu, %d ms%s]", p.to_send, big, s.timeout, s.close_in ? ", closed in closed" : "");
        w.peers.push_back(p);
        w.echo.push_back(false);
        ++n;
    }
    if (!n) return;
    if (w.kind == 0)
    {
        w.server.reset(new cppev::reactor::tcp_server(workers, &w.a.dummy));
        w.a.attach_server(*w.server);
        or_skip([&]() { w.server->listen(w.addrs[0].port, w.addrs[0].f, w.addrs[0].ip.c_str()); });
        w.server->run();
    }
    else
    {
        w.lfds.push_back(raw_bind(w.addrs[0], true));
        w.client.reset(new cppev::reactor::tcp_client(workers, 1, &w.a.dummy));
        w.a.attach_client(*w.client);
        w.client->run();
        w.client->add(w.addrs[0].ip, w.addrs[0].port, w.addrs[0].f, (int)n);
    }
    drive(round_, []() { for (auto &p : W->peers) if (!p.connected) return false; return true; });
    double end = now() + 25;
    while (now() < end && !(w.a.nconn.load(RLX) == (int)n && alive() == 0)) { round_(); if (cx().failed()) end_case(); real_pause(2000000); }
    PV_CHECK(w.a.nconn.load(RLX) == (int)n, "%d accept/connect callbacks for %zu connections", w.a.nconn.load(RLX), n);
    for (size_t i = 0; i < n; ++i)
        PV_CHECK(w.a.conns[i].closed.load(RLX) == 1, "%s connection %zu has timed out, but got %d closed callbacks", w.a.what, i, w.a.conns[i].closed.load(RLX));
    pass_time(1);
    cx().nontrivial();
    Peer p;
    p.key = 0x5A0000FFu;
    p.to = w.addrs[0];
    p.to_send = 500;
    w.a.conns[n].s = Script();
    w.a.conns[n].s.resp = 1;
    w.a.conns[n].s.resp_max = 1 << 20;
    for (auto &x : w.peers) x.drop(true);
    w.peers.clear();
    w.peers.push_back(p);
    w.echo.assign(1, true);
    if (w.kind == 1) w.client->add(p.to.ip, p.to.port, p.to.f);
    w.n = 10;
    bool ok = drive(round_, []() { return W->peers[0].sink.got == 500; });
    if (!ok) cx().fail("a new connection after all that is not served");
    w.peers[0].drop(true);
    if (w.client) w.client->shutdown();
    if (w.server) w.server->shutdown();
}

// ---- any subset of handlers ---------------------------------------------------
void handlers(const Case &c)
{
    signal(SIGPIPE, SIG_IGN);
    Src h(c.hdr);
    int kind = (int)h.range(0, 1), workers = (int)h.range(1, 3);
    unsigned mask = (unsigned)h.range(0, 15);        // opened, read, written, closed
    bool twice = h.chance(1, 4), data = h.chance(1, 2);
    int fam = (int)(h.word() % 3);
    size_t greet = h.chance(1, 2) ? (size_t)h.skew(1, 20000) : 0;
    if (!(mask & 1)) greet = 0;
    Addr a = address(9, 0, fam);
    struct P { int end; size_t send; int fd = -1; size_t got = 0; bool over = false; };
    std::vector<P> ps;
    for (auto &o : c.ops)
    {
        Src r(o);
        int end = (int)r.range(0, 2);
        ps.push_back({end, (size_t)r.skew(0, 5000)});
    }
    int n = (int)ps.size();
    cx().log("%s of %d workers, handlers %s%s%s%s%s, greeting %zu, family %d:", kind ? "client" : "server", workers, mask & 1 ? "opened " : "", mask & 2 ? "read " : "", mask & 4 ? "written " : "", mask & 8 ? "closed" : "", mask ? "" : "none", greet, fam);
    for (auto &p : ps) cx().log(" %zu%s", p.send, p.end == 0 ? " closes" : p.end == 1 ? " shuts down" : " resets");
    static std::atomic<long> opened, read, written, closed, wrong;
    opened = read = written = closed = wrong = 0;
    static int mark;
    void *ext = data ? &mark : nullptr;
    auto ok = [ext](const Iop &i) { if (cppev::reactor::external_data(i) != ext || i->is_closed()) ++wrong; };
    auto f_open = [ok, greet](const Iop &i) {
        ok(i);
        ++opened;
        if (greet) { i->wbuffer().put_string(std::string(greet, 'g')); cppev::reactor::async_write(i); }
    };
    auto f_read = [ok](const Iop &i) { ok(i); read += i->rbuffer().size(); };
    auto f_written = [ok](const Iop &i) { ok(i); ++written; };
    auto f_closed = [ok](const Iop &i) { ok(i); ++closed; };
    auto stale = [](const Iop &) { ++wrong; };
    size_t fds0 = fds(), fds1 = 0;
    auto wait = [&](const std::function<bool()> &cond) {
        double until = now() + 15;
        while (!cond()) { if (now() > until) return false; usleep(200); }
        return true;
    };
    std::unique_ptr<cppev::reactor::tcp_server> server;
    std::unique_ptr<cppev::reactor::tcp_client> client;
    int lfd = -1;
    if (kind == 0)
    {
        server.reset(data ? new cppev::reactor::tcp_server(workers, ext) : new cppev::reactor::tcp_server(workers));
        if (twice) { if (mask & 1) server->set_on_accept(stale); if (mask & 8) server->set_on_closed(stale); if (mask & 2) server->set_on_read_complete(stale); if (mask & 4) server->set_on_write_complete(stale); }
        if (mask & 1) server->set_on_accept(f_open);
        if (mask & 2) server->set_on_read_complete(f_read);
        if (mask & 4) server->set_on_write_complete(f_written);
        if (mask & 8) server->set_on_closed(f_closed);
        or_skip([&]() { if (a.f == cppev::family::local) server->listen_unix(a.path, true); else server->listen(a.port, a.f, a.ip.c_str()); });
        server->run();
        fds1 = fds();
    }
    else
    {
        lfd = raw_bind(a, true);
        if (data) client.reset(new cppev::reactor::tcp_client(workers, 1, ext));
        else client.reset(new cppev::reactor::tcp_client(workers));
        if (twice) { if (mask & 1) client->set_on_connect(stale); if (mask & 8) client->set_on_closed(stale); if (mask & 2) client->set_on_read_complete(stale); if (mask & 4) client->set_on_write_complete(stale); }
        if (mask & 1) client->set_on_connect(f_open);
        if (mask & 2) client->set_on_read_complete(f_read);
        if (mask & 4) client->set_on_write_complete(f_written);
        if (mask & 8) client->set_on_closed(f_closed);
        client->run();
        fds1 = fds();
        if (a.f == cppev::family::local) client->add_unix(a.path, n);
        else client->add(a.ip, a.port, a.f, n);
    }
    long sent = 0, sure = 0;
    for (auto &p : ps)
    {
        if (kind == 0)
        {
            p.fd = socket(a.af(), SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_storage s;
            socklen_t l = a.fill(s);
            PV_CHECK(connect(p.fd, (sockaddr *)&s, l) == 0, "a connection to the server was refused (errno %d)", errno);
        }
        else
        {
            PV_CHECK(wait([&]() { p.fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC); return p.fd >= 0; }), "the client makes fewer connections than it was asked for");
        }
        fcntl(p.fd, F_SETFL, O_NONBLOCK);
    }
    std::string buf(70000, 0);
    // the greetings, before anything ends
    for (auto &p : ps)
        PV_CHECK(wait([&]() { while (p.got < greet) { ssize_t k = ::read(p.fd, &buf[0], buf.size()); if (k <= 0) break; p.got += k; } return p.got == greet; }), "%zu of %zu bytes written on opening arrive", p.got, greet);
    for (auto &p : ps)
    {
        size_t at = 0;
        PV_CHECK(wait([&]() { while (at < p.send) { ssize_t k = ::write(p.fd, buf.data() + at, p.send - at); if (k <= 0) break; at += k; } return at == p.send; }), "%zu of %zu bytes are taken, nobody reads", at, p.send);
        sent += p.send;
        if (p.end != 2) sure += p.send;
    }
    if (mask & 1) PV_CHECK(wait([&]() { return opened == n; }), "%ld opening callbacks for %d connections", opened.load(), n);
    for (auto &p : ps)
    {
        if (p.end == 1) ::shutdown(p.fd, SHUT_WR);
        else { if (p.end == 2) no_linger(p.fd); ::close(p.fd); p.fd = -1; }
    }
    for (auto &p : ps)
        if (p.fd >= 0)
        {
            PV_CHECK(wait([&]() { ssize_t k = ::read(p.fd, &buf[0], buf.size()); return k == 0; }), "a peer that shut down its side does not see the end");
            ::close(p.fd);
        }
    // an attempt that is reset before the client looks has failed, unless it was seen to be opened
    int resets = 0;
    for (auto &p : ps) resets += p.end == 2;
    int least = kind == 1 && !(mask & 1) ? n - resets : n;
    if (mask & 8) PV_CHECK(wait([&]() { return closed >= least; }), "%ld closed callbacks for %d connections", closed.load(), n);
    if (mask & 2) PV_CHECK(wait([&]() { return read >= sure; }) && read <= sent, "%ld bytes read of %ld sent", read.load(), sent);
    long w = greet && mask & 4 ? n : 0;
    PV_CHECK(wait([&]() { return written >= w; }) && written == w, "%ld write-complete callbacks, %ld expected", written.load(), w);
    PV_CHECK(wait([&]() { return fds() <= fds1; }), "all connections have ended, but %zu descriptors are open, %zu were before", fds(), fds1);
    PV_CHECK(wrong == 0, "%ld callbacks with other data, of a closed connection, or to a handler that was replaced", wrong.load());
    if (server) server->shutdown();
    if (client) client->shutdown();
    if (mask & 1) PV_CHECK(opened == n, "%ld opening callbacks for %d connections", opened.load(), n);
    if (mask & 8) PV_CHECK(closed <= n && closed >= least, "%ld closed callbacks for %d connections", closed.load(), n);
    server.reset();
    client.reset();
    if (lfd >= 0) ::close(lfd);
    if (a.f == cppev::family::local) unlink(a.path.c_str());
    PV_CHECK(fds() == fds0, "%zu descriptors are open at last, %zu were at first", fds(), fds0);
    if (mask != 15) cx().label("handlers missing");
    if (!mask) cx().label("no handlers");
    if (twice) cx().label("handlers replaced");
    cx().nontrivial(mask != 15 && n > 1);
}
#endif
#ifndef C09_NAME
#define C09_NAME "threads"
#define HOW CONCLUSIVE
#else
#define HOW (CONCLUSIVE | EXEC)
#endif
#if PV_DSCHED
Reg r1({"schedules", "a reactor server with raw peers or a reactor client with raw listeners; up to 6 peers that stay, shut down their side, close or reset, at once, after sending or after reading, endpoints that close in any callback, lack of descriptors; under a generated interleaving of all threads; non-trivial if a peer or the endpoint ends a connection",
        ds::HDR + 24, 60, 1, 6, 4000, 80000, FORKED, 20, body, HOW});
#else
Reg r1({C09_NAME, "the same on the system's own scheduler with up to 16 peers; non-trivial if a peer or the endpoint ends a connection",
        ds::HDR + 24, 60, 1, 16, 3000, 60000, FORKED, 25, body, HOW});
Reg r2({C09_NAME "-vanish", "up to 8 peers that never read until the system gives up on them (TCP_USER_TIMEOUT), with the endpoint waiting to write or to read; non-trivial always",
        8, 12, 1, 8, 60, 2000, FORKED, 30, vanish, HOW});
Reg r3({C09_NAME "-handlers", "a server or client with any subset of its handlers set, or replaced before the start, with or without external data; up to 8 peers that send and then close, shut down or reset; non-trivial if a handler is missing and there are two peers",
        8, 4, 1, 8, 1200, 40000, FORKED, 40, handlers, HOW});
#endif
}
