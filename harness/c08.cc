// C08: the reactor delivers every byte both ways.
#include "reactor.h"
#include <algorithm>
using namespace pv;
using namespace rx;

namespace
{
struct World
{
    int kind;                    // 0 server and raw peers, 1 client and raw listeners, 2 server and client
    End a, b;                    // b only for kind 2 (client)
    std::vector<Addr> addrs;
    std::vector<int> lfds;
    std::deque<Peer> peers;
    std::atomic<int> claimed[2][MAXCONN + 1];
    std::unique_ptr<cppev::reactor::tcp_server> server;
    std::unique_ptr<cppev::reactor::tcp_client> client;
};
World *W;

std::vector<Wr> writes(Src &r, int max, size_t big)
{
    std::vector<Wr> v;
    int n = (int)r.range(0, max);
    for (int i = 0; i < n; ++i)
    {
        Wr w;
        size_t k = r.weighted({5, 4, 3, 1});
        w.n = k == 0 ? r.range(1, 80) : k == 1 ? r.range(1, 5000) : r.range(1, (long long)big);
        w.parts = r.chance(1, 3) ? (int)r.range(1, 5) : 1;
        w.each = r.chance(1, 2);
        v.push_back(w);
    }
    return v;
}
void endpoint_script(Src &r, Script &s, size_t big)
{
    s.open = writes(r, 3, big);
    s.resp = (int)r.weighted({2, 3, 2});
    s.resp_n = r.range(1, 3000);
    s.resp_max = r.chance(1, 3) ? big : 4000;
    s.stream = writes(r, 4, big);
    if (r.chance(1, 12))
        // many small pieces, one after the other
#if PV_DSCHED
        s.stream.assign(200, Wr{7, 1, false});
#else
    {
        // an emptied buffer is cleared to its capacity, so that a piece costs as
        // much time as the largest write
        size_t m = 4000, n = r.range(100, 40000), k = r.range(1, 64);
        for (auto &w : s.open) m = std::max(m, w.n);
        if (s.resp) m = std::max(m, s.resp_max);
        s.stream.assign(std::min<size_t>(n, std::max<size_t>(100, 500000000 / m)), Wr{k, 1, false});
    }
#endif
    s.sndbuf = r.chance(1, 2) ? 4608 : 0;
    s.work = PV_DSCHED ? (int)r.range(0, 4) : 0;
}
size_t total(const Script &s)
{
    size_t n = s.resp ? s.resp_max : 0;
    for (auto &w : s.open) n += w.n;
    for (auto &w : s.stream) n += w.n;
    return n;
}
void shrink_to(Script &s, size_t n)
{
    // every write takes space of its own
    if (s.stream.size() > 10) s.stream.resize(10);
    if (s.resp) { s.resp = 2; s.resp_n = std::max<size_t>(s.resp_n, 100); }
    s.sndbuf = 0;
    while (total(s) > n)
    {
        if (s.resp_max > n / 4) s.resp_max = n / 4;
        else if (!s.stream.empty()) s.stream.pop_back();
        else s.open.pop_back();
    }
}

bool round_()
{
    World &w = *W;
    bool moved = false;
    static uint64_t last = 0;
    // raw listeners
    for (size_t l = 0; l < w.lfds.size(); ++l)
        for (;;)
        {
            int fd = accept4(w.lfds[l], nullptr, nullptr, SOCK_CLOEXEC);
            if (fd < 0) break;
            Peer *p = nullptr;
            for (auto &x : w.peers) if (!x.connected && x.to.port == w.addrs[l].port && x.to.path == w.addrs[l].path) { p = &x; break; }
            if (!p) cx().fail("the client made more connections than it was asked to");
            p->adopt(fd);
            moved = true;
        }
    static int n = 0;
    ++n;
    auto claim = [](uint32_t k) -> std::string {
        int e = (int)(k >> 24) - 0xE0;
        if ((e != 0 && e != 1) || (k & 0xFFFFFF) >= MAXCONN) return "unknown stream";
        return W->claimed[e][k & 0xFFFFFF].fetch_add(1, RLX) ? "a stream reaches two peers" : "";
    };
    for (auto &p : w.peers)
    {
        if (!p.connected && !p.gone && w.kind == 0 && n > p.start) { p.connect_now(); if (p.refused) cx().fail("a connection to the server was refused (errno %d)", errno); moved = true; }
        moved |= p.step(claim);
    }
    // the endpoints' progress
    uint64_t sum = w.a.returns.load(RLX) + w.b.returns.load(RLX);
    for (End *e : {&w.a, &w.b})
    {
        int m = std::min<int>(e->nconn.load(RLX), MAXCONN);
        sum += m;
        for (int i = 0; i < m; ++i) sum += e->conns[i].handed.load(RLX) + e->conns[i].in.load(RLX) + e->conns[i].writtens.load(RLX) + e->conns[i].ended.load(RLX);
    }
    if (sum != last) { last = sum; moved = true; }
    return moved;
}
std::string missing_now()
{
    World &w = *W;
    char b[300];
    auto conns = [&](End &e) { return std::min<int>(e.nconn.load(RLX), MAXCONN); };
    if (w.kind == 2)
    {
        if (conns(w.a) != (int)w.peers.size() || conns(w.b) != (int)w.peers.size()) { snprintf(b, sizeof b, "%d and %d of %zu connections are open", conns(w.a), conns(w.b), w.peers.size()); return b; }
        for (int d = 0; d < 2; ++d)
        {
            End &s = d ? w.b : w.a, &r = d ? w.a : w.b;
            for (int i = 0; i < conns(s); ++i)
            {
                Conn &c = s.conns[i];
                uint64_t h = c.handed.load(RLX);
                if (c.owed.load(RLX)) { snprintf(b, sizeof b, "%s connection %d waits for its write-complete callback (%llu bytes handed over)", s.what, i, (unsigned long long)h); return b; }
                if (!h) continue;
                bool ok = false;
                uint64_t in = 0;
                for (int j = 0; j < conns(r); ++j) if (r.conns[j].from.load(RLX) == c.key.load(RLX)) { in = r.conns[j].in.load(RLX); ok = in == h; }
                if (!ok) { snprintf(b, sizeof b, "%s connection %d handed over %llu bytes, the other side has seen %llu", s.what, i, (unsigned long long)h, (unsigned long long)in); return b; }
            }
        }
        return "";
    }
    End &e = w.a;
    if (conns(e) != (int)w.peers.size()) { snprintf(b, sizeof b, "%d of %zu connections are open", conns(e), w.peers.size()); return b; }
    for (auto &p : w.peers)
    {
        if (p.aborted) { snprintf(b, sizeof b, "peer %x was cut off after sending %zu of %zu and reading %llu", p.key, p.sent, p.to_send, (unsigned long long)p.sink.got); return b; }
        if (p.sent < p.to_send) { snprintf(b, sizeof b, "peer %x could send %zu of %zu", p.key, p.sent, p.to_send); return b; }
        if (!p.to_send) continue;
        const Conn *c = nullptr;
        for (int i = 0; i < conns(e); ++i) if (e.conns[i].from.load(RLX) == p.key) c = &e.conns[i];
        if (!c || c->in.load(RLX) != p.to_send) { snprintf(b, sizeof b, "peer %x sent %zu, the read-complete callbacks have seen %llu", p.key, p.to_send, c ? (unsigned long long)c->in.load(RLX) : 0ull); return b; }
        if (p.fin == SHUT && (!c->ended.load(RLX) || !p.rd_done)) { snprintf(b, sizeof b, "peer %x has shut down its side, but the connection does not end (closed callback: %d, end seen: %d)", p.key, c->closed.load(RLX), p.rd_done); return b; }
    }
    for (int i = 0; i < conns(e); ++i)
    {
        const Conn &c = e.conns[i];
        uint64_t h = c.handed.load(RLX), got = 0;
        for (auto &p : w.peers) if (p.sink.got >= 4 && p.sink.key == c.key.load(RLX)) got = p.sink.got;
        if (got != h) { snprintf(b, sizeof b, "connection %d handed over %llu bytes, its peer has read %llu", i, (unsigned long long)h, (unsigned long long)got); return b; }
        if (c.owed.load(RLX)) { snprintf(b, sizeof b, "connection %d waits for its write-complete callback (%llu bytes handed over)", i, (unsigned long long)h); return b; }
    }
    return "";
}
// the callbacks go on meanwhile, so that only what no callback has disturbed counts
std::string missing()
{
    World &w = *W;
    long returned = w.a.returns.load(RLX) + w.b.returns.load(RLX);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    long called = w.a.callbacks.load(RLX) + w.b.callbacks.load(RLX);
    std::atomic_signal_fence(std::memory_order_seq_cst);
    if (called != returned) return "a callback does not return";
    std::string m = missing_now();
    std::atomic_signal_fence(std::memory_order_seq_cst);
    if (m.empty() && w.a.callbacks.load(RLX) + w.b.callbacks.load(RLX) != called) return "callbacks go on and on";
    return m;
}
void body(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    (void)cfg;
    cfg.fair_steps = 20000000;
    cfg.max_steps = 120000000;
    tune(h);
    W = new World();
    World &w = *W;
    for (auto &x : w.claimed) for (auto &y : x) y.store(0, RLX);
    w.kind = (int)h.weighted({4, 3, 2});
    int workers = (int)h.range(1, 4), conts = (int)h.range(1, 3);
    int naddr = (int)h.range(1, 3);
    int fams[3] = {(int)(h.word() % 3), (int)(h.word() % 3), (int)(h.word() % 3)};
    bool early = h.chance(1, 2);
    size_t big = PV_DSCHED ? 20000 : h.chance(1, 10) ? 3000000 : h.chance(1, 2) ? 300000 : 30000;
    bool smallbufs = h.chance(2, 3);
    size_t nmax = PV_DSCHED ? 4 : 10;
    for (int k = 0; k < naddr; ++k) w.addrs.push_back(address(8, k, fams[k]));
    w.a.what = w.kind == 1 ? "client" : "server";
    w.a.id = 0;
    w.b.what = "client";
    w.b.id = 1;
    w.a.claim = [&w](uint32_t k) -> std::string {
        int e = (int)(k >> 24);
        int s = w.kind == 2 ? 1 : 0;
        if (e != (w.kind == 2 ? 0xE1 : 0x5A) || (k & 0xFFFFFF) >= MAXCONN) return "unknown stream";
        (void)s;
        return W->claimed[1][k & 0xFFFFFF].fetch_add(1, RLX) ? "a stream reaches two connections" : "";
    };
    w.b.claim = [](uint32_t k) -> std::string {
        if ((k >> 24) != 0xE0 || (k & 0xFFFFFF) >= MAXCONN) return "unknown stream";
        return W->claimed[0][k & 0xFFFFFF].fetch_add(1, RLX) ? "a stream reaches two connections" : "";
    };
    // connections
    size_t n = 0;
    size_t volume = 0;
    bool halfclose = false;
    for (auto &o : c.ops)
    {
        if (n >= nmax) break;
        Src r(o);
        Peer p;
        p.key = 0x5A000000u | (uint32_t)n;
        p.to = w.addrs[r.word() % naddr];
        p.start = (int)r.range(0, 20);
        size_t k = r.weighted({1, 4, 3, 2});
        p.to_send = k == 0 ? 0 : k == 1 ? r.range(4, 200) : k == 2 ? r.range(4, 6000) : r.range(4, (long long)big);
        p.chunk = r.chance(1, 2) ? 60000 : r.range(1, 3000);
        p.chunk = std::max(p.chunk, p.to_send / 300);
        p.send_every = (int)r.range(1, 4);
        p.read_start = r.chance(1, 3) ? (int)r.range(0, 60) : 0;
        p.read_every = r.chance(1, 3) ? (int)r.range(1, 6) : 1;
        p.rchunk = r.chance(1, 2) ? 65536 : r.range(200, 5000);
        // (tiny windows make TCP wait for its timers)
        if (smallbufs) { p.rcvbuf = PV_DSCHED ? 2304 : r.chance(1, 2) ? 32768 : 0; p.sndbuf = r.chance(1, 2) ? 4608 : 0; }
        if (r.chance(1, 4) && p.to_send) { p.fin = SHUT; p.fin_when = 1; halfclose = true; }
        Script &s = w.a.conns[n].s;
        endpoint_script(r, s, big);
        if (w.kind == 2)
        {
            Script &t = w.b.conns[n].s;
            endpoint_script(r, t, big);
            // endpoints do not read while they have to write: only one side of a pair sends in bulk
            if (r.chance(1, 2)) std::swap(s, t);
        }
        p.rchunk = std::max(p.rchunk, total(s) / 300);
        volume += p.to_send + total(s);
        w.peers.push_back(p);
        ++n;
    }
    if (w.peers.empty()) { cx().log("(none)"); return; }
    if (w.kind == 2)
    {
        // which connections meet is not known beforehand, so one endpoint is the modest one
        bool which = h.chance(1, 2);
        for (size_t i = 0; i < n; ++i) shrink_to((which ? w.a : w.b).conns[i].s, 2000);
        for (auto &p : w.peers) { p.to_send = 0; p.fin = STAY; }
    }
    static const char *K[] = {"server", "client", "server+client"};
    cx().log("%s %d workers %zu connections", K[w.kind], workers, n);
    for (auto &p : w.peers) cx().log(" [%s in %zu/%zu rd@%d/%d/%zu%s]", p.to.f == cppev::family::ipv4 ? "4" : p.to.f == cppev::family::ipv6 ? "6" : "u", p.to_send, p.chunk, p.read_start, p.read_every, p.rchunk, p.fin == SHUT ? " shut" : "");
    for (size_t i = 0; i < n; ++i)
        for (End *e : {&w.a, &w.b})
        {
            if (e == &w.b && w.kind != 2) continue;
            Script &s = e->conns[i].s;
            cx().log(" <%s%zu", e == &w.b ? "c" : "", i);
            for (auto &x : s.open) cx().log(" %zux%d%s", x.n, x.parts, x.each ? "e" : "");
            if (s.resp) cx().log(" r%d:%zu/%zu", s.resp, s.resp_n, s.resp_max);
            if (s.stream.size() <= 4) for (auto &x : s.stream) cx().log(" w%zu", x.n);
            else cx().log(" w%zux%zu", s.stream[0].n, s.stream.size());
            cx().log(">");
        }
#if PV_DSCHED
    ds::run(cfg, [&]() {
#endif
        if (w.kind != 1)
        {
            w.server.reset(new cppev::reactor::tcp_server(workers, &w.a.dummy));
            w.a.attach_server(*w.server);
            for (auto &a : w.addrs)
                or_skip([&]() {
                    if (a.f == cppev::family::local) w.server->listen_unix(a.path, true);
                    else w.server->listen(a.port, a.f, a.ip.c_str());
                });
            w.server->run();
        }
        if (w.kind == 1) for (auto &a : w.addrs) w.lfds.push_back(raw_bind(a, true));
        if (w.kind != 0)
        {
            End &e = w.kind == 1 ? w.a : w.b;
            w.client.reset(new cppev::reactor::tcp_client(workers, conts, &e.dummy));
            e.attach_client(*w.client);
            if (!early) w.client->run();
            for (auto &p : w.peers)
            {
                if (p.to.f == cppev::family::local) w.client->add_unix(p.to.path);
                else w.client->add(p.to.ip, p.to.port, p.to.f);
            }
            if (early) w.client->run();
        }
        bool ok = drive(round_, []() { return missing().empty(); });
        {
            ds::Quiet q;
            std::string m = missing();
            if (!ok && !m.empty()) cx().fail("nothing moves any more: %s", m.c_str());
        }
        pass_time(1);
        {
            ds::Quiet q;
            round_();
            std::string m = missing();
            PV_CHECK(m.empty(), "after everything was delivered: %s", m.c_str());
            if (cx().failed()) end_case();
            bool left = false;
            for (size_t i = 0; i < n; ++i) if (w.a.conns[i].handed.load(RLX) > 4000) left = true;
            cx().nontrivial(volume > 0);
            if (left) cx().label("more than 4000 bytes written on a connection");
            if (halfclose && w.kind != 2) cx().label("half-closing peers");
            if (smallbufs) cx().label("small buffers");
            if (n > 1) cx().label("several connections");
        }
        for (auto &p : w.peers) p.drop(true);
        if (w.client) w.client->shutdown();
        if (w.server) w.server->shutdown();
        w.a.down = w.b.down = true;
        w.client.reset();
        w.server.reset();
#if PV_DSCHED
    });
#endif
    for (auto &a : w.addrs) if (!a.path.empty()) unlink(a.path.c_str());
}
#ifndef C08_NAME
#define C08_NAME "threads"
#define HOW CONCLUSIVE
#else
#define HOW (CONCLUSIVE | EXEC)
#endif
#if PV_DSCHED
Reg r1({"schedules", "a reactor server with raw peers, a reactor client with raw listeners or one of each; up to 4 connections over ipv4, ipv6 and unix sockets with small buffers, writes from all callbacks, slow and half-closing peers, under a generated interleaving of all threads; non-trivial if bytes flow",
        ds::HDR + 24, 60, 1, 4, 3000, 60000, FORKED, 20, body, HOW});
#else
Reg r1({C08_NAME, "the same on the system's own scheduler with up to 10 connections, 4 workers and 3 MB in a write; non-trivial if bytes flow",
        ds::HDR + 24, 60, 1, 10, 2500, 60000, FORKED, 25, body, HOW});
#endif
}
