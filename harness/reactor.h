// A world of reactor endpoints and raw peers, shared by C08, C09 and C10.
//
// Every direction of a connection carries a stream that names its sender: four
// bytes of key and then bytes that follow from the key and the position, so the
// receiver can tell at once whether a byte is right, in order, and of the right
// connection.  The endpoints' callbacks check what holds at each call and record
// the rest in relaxed atomics (a lock of the harness would hide races).
#ifndef PV_REACTOR_H
#define PV_REACTOR_H
#include "dsched.h"
#include "net.h"
#include "cppev/tcp.h"
#include <arpa/inet.h>
#include <array>
#include <atomic>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace rx
{
using cppev::nsocktcp;
typedef std::shared_ptr<nsocktcp> Iop;
const auto RLX = std::memory_order_relaxed;

// ---- streams ----------------------------------------------------------------
__attribute__((no_sanitize("thread", "address", "undefined"))) inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
__attribute__((no_sanitize("thread", "address", "undefined"))) inline uint8_t at(uint32_t key, uint64_t i)
{
    if (i < 4) return (uint8_t)(key >> (8 * i));
    return (uint8_t)(mix(((uint64_t)key << 32) ^ (i / 8)) >> (8 * (i % 8)));
}
__attribute__((no_sanitize("thread", "address", "undefined"))) inline void fill(char *p, uint32_t key, uint64_t from, size_t n)
{
    for (size_t i = 0; i < n; ++i) p[i] = (char)at(key, from + i);
}
// first position that differs, n if none
__attribute__((no_sanitize("thread", "address", "undefined"))) inline size_t differ(const char *p, uint32_t key, uint64_t from, size_t n)
{
    for (size_t i = 0; i < n; ++i) if ((uint8_t)p[i] != at(key, from + i)) return i;
    return n;
}
// the receiving side of a stream
struct Sink
{
    uint32_t key = 0;
    uint64_t got = 0;
    // empty if right
    std::string take(const char *p, size_t n, const std::function<std::string(uint32_t)> &claim)
    {
        size_t i = 0;
        while (got < 4 && i < n)
        {
            key |= (uint32_t)(uint8_t)p[i++] << (8 * got++);
            if (got == 4)
            {
                std::string e = claim(key);
                if (!e.empty()) return e;
            }
        }
        size_t d = differ(p + i, key, got, n - i);
        if (d < n - i) return "byte " + std::to_string(got + d) + " of stream " + name() + " is not what was sent";
        got += n - i;
        return "";
    }
    std::string name() const { char b[20]; snprintf(b, sizeof b, "%x", key); return b; }
};

// ---- what an endpoint does with its k-th connection -------------------------
struct Wr { size_t n = 0; int parts = 1; bool each = false; };
enum Cb { NONE = 0, OPEN, READ, WRITTEN, CLOSED };
struct Script
{
    std::vector<Wr> open;            // written from on_accept / on_connect
    int resp = 0;                    // from on_read_complete: 0 nothing, 1 as much as was read, 2 resp_n bytes
    size_t resp_n = 0, resp_max = 0;
    std::vector<Wr> stream;          // one from every on_write_complete
    int close_in = NONE, close_at = 1;
    bool close_late = false;         // after the writes of that callback rather than before
    bool careless = false;           // writes and closes again after closing
    int sndbuf = 0, timeout = 0;
    int work = 0;                    // places to switch, in every callback
};
struct Conn
{
    Script s;
    std::atomic<uint32_t> key{0};
    std::atomic<int> opened{0}, closed{0}, local{0}, ended{0}, reads{0}, writtens{0};
    std::atomic<uint64_t> handed{0}, in{0};
    std::atomic<bool> owed{false};
    std::atomic<uint32_t> from{0};       // key of the other side, once known
    std::atomic<unsigned long> thread{0};
    std::atomic<int> fd{-1};
    // only used by the worker
    Sink sink;
    int depth = 0, writing = 0;
    bool over = false;
    size_t streamed = 0, responded = 0, unanswered = 0;
    int count[5] = {0, 0, 0, 0, 0};
    std::weak_ptr<nsocktcp> weak;
};
const int MAXCONN = 96;

struct End
{
    const char *what = "";
    int id = 0;
    Conn conns[MAXCONN];
    std::atomic<int> nconn{0};
    std::atomic<bool> down{false};       // shutdown has returned
    std::atomic<long> callbacks{0}, returns{0};   // of all connections
    int dummy = 0;                       // external data
    std::function<std::string(uint32_t)> claim;   // a key seen by this endpoint

    std::unordered_map<const nsocktcp *, Conn *> &table()
    {
        static thread_local std::unordered_map<const nsocktcp *, Conn *> t[4];
        return t[id];
    }
    void bad(Conn *c, const char *m, const char *w = "")
    {
        pv::cx().soft_fail("%s connection %d: %s%s", what, c ? (int)(c - conns) : -1, m, w);
    }
    static const char *name(int cb) { static const char *n[] = {"?", "accept/connect", "read-complete", "write-complete", "closed"}; return n[cb]; }

    Conn *enter(const Iop &iopt, int cb)
    {
        ds::Quiet q;
        callbacks.fetch_add(1, RLX);
        if (down.load(RLX)) { bad(nullptr, "a callback ran after the endpoint was shut down: ", name(cb)); return nullptr; }
        if (cppev::reactor::external_data(iopt) != &dummy) bad(nullptr, "the external data is not what was given");
        auto &t = table();
        auto it = t.find(iopt.get());
        Conn *c = it == t.end() ? nullptr : it->second;
        if (cb == OPEN)
        {
            if (c && !c->over && c->weak.lock().get() == iopt.get()) { bad(c, "a second accept/connect callback"); return nullptr; }
            int k = nconn.fetch_add(1, RLX);
            if (k >= MAXCONN) { bad(nullptr, "more connections than were made"); return nullptr; }
            c = &conns[k];
            c->key.store((uint32_t)(0xE0 + id) << 24 | k, RLX);
            c->weak = iopt;
            c->thread.store((unsigned long)pthread_self(), RLX);
            c->fd.store(iopt->fd(), RLX);
            t[iopt.get()] = c;
            c->opened.fetch_add(1, RLX);
        }
        else if (!c)
        {
            bad(nullptr, "a callback of a connection that has no accept/connect callback on this thread: ", name(cb));
            return nullptr;
        }
        else if (c->over)
        {
            bad(c, c->closed.load(RLX) ? "a callback after the closed callback: " : "a callback after it was closed locally: ", name(cb));
            return nullptr;
        }
        if (c->depth && !(cb == WRITTEN && c->writing)) bad(c, "callbacks overlap: ", name(cb));
        ++c->depth;
        ++c->count[cb];
        if (cb == READ) c->reads.fetch_add(1, RLX);
        if (cb == WRITTEN) c->writtens.fetch_add(1, RLX);
        return c;
    }
    void leave(Conn *c)
    {
        ds::Quiet q;
        --c->depth;
        if (c->over && !c->depth) c->ended.store(1, RLX);
    }
    void close(Conn *c, const Iop &iopt)
    {
        { ds::Quiet q; c->over = true; c->local.store(1, RLX); }
        cppev::reactor::safely_close(iopt);
        ds::Quiet q;
        if (!iopt->is_closed()) bad(c, "it is not closed though it was closed locally");
    }
    // false if it got closed
    bool hand(Conn *c, const Iop &iopt, const Wr &w)
    {
        int parts = w.parts < 1 ? 1 : w.parts;
        size_t left = w.n;
        for (int i = 0; i < parts; ++i)
        {
            size_t n = i + 1 == parts ? left : std::min(left, w.n / parts);
            {
                ds::Quiet q;
                uint64_t h = c->handed.load(RLX);
                std::string b(n, 0);
                fill(&b[0], c->key.load(RLX), h, n);
                iopt->wbuffer().put_string(b);
                c->handed.store(h + n, RLX);
                left -= n;
            }
            if (w.each || i + 1 == parts)
            {
                { ds::Quiet q; c->owed.store(true, RLX); ++c->writing; }
                cppev::reactor::async_write(iopt);
                ds::Quiet q;
                --c->writing;
                if (c->over) return false;
            }
        }
        return true;
    }
    bool write(Conn *c, const Iop &iopt, Wr w)
    {
        // the first bytes name the stream
        if (c->handed.load(RLX) == 0 && w.n < 4) w.n = 4;
        return hand(c, iopt, w);
    }
    bool closes(Conn *c, int cb) { return c->s.close_in == cb && c->count[cb] == c->s.close_at; }
    void run(const Iop &iopt, int cb)
    {
        struct Back { End *e; ~Back() { e->returns.fetch_add(1, RLX); } } back{this};
        Conn *c = enter(iopt, cb);
        if (!c) return;
        for (int i = 0; i < c->s.work; ++i) ds::point();
        bool closing = closes(c, cb), go = true;
        size_t read = 0;
        if (cb == OPEN && c->s.sndbuf) { ds::Quiet q; iopt->set_so_sndbuf(c->s.sndbuf); }
        if (cb == OPEN && c->s.timeout) { ds::Quiet q; setsockopt(iopt->fd(), IPPROTO_TCP, TCP_USER_TIMEOUT, &c->s.timeout, sizeof c->s.timeout); }
        if (cb == READ)
        {
            ds::Quiet q;
            read = iopt->rbuffer().size();
            std::string e = c->sink.take(iopt->rbuffer().rawbuf(), read, claim);
            if (!e.empty()) bad(c, e.c_str());
            if (c->sink.got >= 4) c->from.store(c->sink.key, RLX);
            c->in.store(c->sink.got, RLX);
        }
        if (cb == WRITTEN)
        {
            ds::Quiet q;
            if (iopt->wbuffer().size()) bad(c, "write-complete though bytes are left");
            c->owed.store(false, RLX);
        }
        if (cb == CLOSED) { ds::Quiet q; c->closed.fetch_add(1, RLX); if (iopt->is_closed()) bad(c, "closed callback of a connection closed locally"); }
        if (closing && !c->s.close_late) { close(c, iopt); go = false; }
        if (go && cb == OPEN)
            for (auto &w : c->s.open) if (!(go = write(c, iopt, w))) break;
        if (go && cb == READ && c->s.resp && read)
        {
            // the first four bytes come together
            c->unanswered += read;
            size_t n = c->s.resp == 2 ? c->s.resp_n : c->handed.load(RLX) == 0 && c->unanswered < 4 ? 0 : c->unanswered;
            if (n) c->unanswered = 0;
            n = std::min(n, c->s.resp_max - std::min(c->s.resp_max, c->responded));
            c->responded += n;
            if (n) go = write(c, iopt, Wr{n, 1 + (int)(n % 3), n % 2 == 0});
        }
        if (go && cb == WRITTEN && c->streamed < c->s.stream.size()) go = write(c, iopt, c->s.stream[c->streamed++]);
        if (go && closing && c->s.close_late) { close(c, iopt); go = false; }
        if (c->over && c->s.careless)
        {
            iopt->wbuffer().put_string("never");
            cppev::reactor::async_write(iopt);
            cppev::reactor::safely_close(iopt);
        }
        if (cb == CLOSED) { ds::Quiet q; c->over = true; }
        leave(c);
    }
    template <typename T> void attach(T &t)
    {
        auto f = [this](int cb) { return [this, cb](const Iop &i) { run(i, cb); }; };
        t.set_on_read_complete(f(READ));
        t.set_on_write_complete(f(WRITTEN));
        t.set_on_closed(f(CLOSED));
    }
    void attach_server(cppev::reactor::tcp_server &s) { attach(s); s.set_on_accept([this](const Iop &i) { run(i, OPEN); }); }
    void attach_client(cppev::reactor::tcp_client &s) { attach(s); s.set_on_connect([this](const Iop &i) { run(i, OPEN); }); }
};

// ---- addresses --------------------------------------------------------------
struct Addr
{
    cppev::family f = cppev::family::ipv4;
    std::string ip, path;
    int port = 0;
    bool any = false;
    int af() const { return f == cppev::family::ipv4 ? AF_INET : f == cppev::family::ipv6 ? AF_INET6 : AF_UNIX; }
    socklen_t fill(sockaddr_storage &s) const
    {
        memset(&s, 0, sizeof s);
        s.ss_family = af();
        if (f == cppev::family::ipv4)
        {
            auto *a = (sockaddr_in *)&s;
            a->sin_port = htons(port);
            inet_pton(AF_INET, ip.c_str(), &a->sin_addr);
            return sizeof *a;
        }
        if (f == cppev::family::ipv6)
        {
            auto *a = (sockaddr_in6 *)&s;
            a->sin6_port = htons(port);
            inet_pton(AF_INET6, ip.c_str(), &a->sin6_addr);
            return sizeof *a;
        }
        auto *a = (sockaddr_un *)&s;
        strncpy(a->sun_path, path.c_str(), sizeof a->sun_path - 1);
        return sizeof *a;
    }
};
// k-th address of this case
inline Addr address(int check, int k, int fam)
{
    Addr a;
    // every case is a process of its own
    a.port = 10000 + (int)((getpid() * 5 + k) % 22000);
    if (fam == 0) { a.f = cppev::family::ipv4; a.ip = pv::ip4(check, 1 + k % 200); }
    else if (fam == 1) { a.f = cppev::family::ipv6; a.ip = "::1"; }
    else { a.f = cppev::family::local; a.path = pv::scratch() + "/s" + std::to_string(k); }
    return a;
}
// what a program may set before it uses the library (each case is a process of its own)
inline void tune(pv::Src &h)
{
    if (h.chance(1, 2)) cppev::sysconfig::event_number = h.pick(std::vector<int>{1, 2, 3, 7});
    if (h.chance(1, 3)) cppev::sysconfig::buffer_io_step = h.pick(std::vector<int>{512, 1000, 1025, 65536});
}
inline void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
// bound but not listening: nobody else gets the port, and connecting is refused
inline int raw_bind(const Addr &a, bool listening)
{
    int fd = socket(a.af(), SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (a.f == cppev::family::local) unlink(a.path.c_str());
    sockaddr_storage s;
    socklen_t n = a.fill(s);
    if (bind(fd, (sockaddr *)&s, n)) { ::close(fd); if (errno == EADDRINUSE) throw pv::CaseSkip(); return -1; }
    if (listening) listen(fd, 256);
    nonblock(fd);
    return fd;
}

// ---- raw peers --------------------------------------------------------------
enum Fin { STAY = 0, SHUT, SHUTCLOSE, CLOSE, RESET };
struct Peer
{
    int fd = -1;
    uint32_t key = 0;
    Addr to;
    // script
    int start = 0;                       // round of connecting
    size_t to_send = 0, chunk = 1000;
    int send_every = 1;
    int read_start = 0, read_every = 1;
    size_t rchunk = 1 << 16;
    int rcvbuf = 0, sndbuf = 0;
    int fin = STAY;                      // what it does in the end
    int fin_when = 0;                    // 0 once connected, 1 when all is sent, 2 when fin_got bytes were read too, 3 when the test says so
    uint64_t fin_got = 0;
    int fin_rounds = 0;                  // turns before the end, for 0
    // state
    bool connected = false, wr_done = false, rd_done = false, gone = false, refused = false, aborted = false;
    size_t sent = 0;
    Sink sink;
    int rounds = 0;
    bool let_go = false;

    bool tcp() const { return to.f != cppev::family::local; }
    bool connect_now()
    {
        int n = to.af();
        int s = socket(n, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (s < 0) throw pv::CaseSkip();
        fd = s;
        if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        if (sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        sockaddr_storage sa;
        socklen_t l = to.fill(sa);
        // loopback connections are established at once if there is room in the backlog
        if (::connect(fd, (sockaddr *)&sa, l))
        {
            int e = errno;
            ::close(fd);
            fd = -1;
            if (e == EADDRNOTAVAIL || e == EADDRINUSE) throw pv::CaseSkip();
            refused = true;
            gone = true;
            return false;
        }
        nonblock(fd);
        connected = true;
        return true;
    }
    void adopt(int s)
    {
        fd = s;
        nonblock(fd);
        if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        if (sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        connected = true;
    }
    void drop(bool reset)
    {
        if (fd < 0) return;
        if (reset && tcp()) pv::no_linger(fd);
        ::close(fd);
        fd = -1;
        gone = true;
    }
    bool all_sent() const { return sent == to_send || aborted; }
    // one turn; true if something happened
    bool step(const std::function<std::string(uint32_t)> &claim)
    {
        if (gone || !connected) return false;
        bool moved = false;
        ++rounds;
        if (!wr_done && sent < to_send && rounds % send_every == 0)
        {
            static char b[1 << 16];
            size_t n = std::min({chunk, to_send - sent, sizeof b});
            fill(b, key, sent, n);
            ssize_t r = ::send(fd, b, n, MSG_NOSIGNAL);
            if (r > 0) { sent += r; moved = true; }
            else if (r < 0 && errno != EAGAIN && errno != EINTR) { wr_done = true; aborted = true; moved = true; }
        }
        if (!rd_done && rounds > read_start && rounds % read_every == 0)
        {
            static char b[1 << 16];
            ssize_t r = ::recv(fd, b, std::min(rchunk, sizeof b), 0);
            if (r > 0)
            {
                moved = true;
                std::string e = sink.take(b, r, claim);
                if (!e.empty()) pv::cx().fail("peer %x: %s", key, e.c_str());
            }
            else if (r == 0) { rd_done = true; moved = true; }
            else if (errno != EAGAIN && errno != EINTR) { rd_done = true; aborted = true; moved = true; }
        }
        bool now = (fin_when == 0 && rounds > fin_rounds) || (fin_when == 1 && all_sent()) || (fin_when == 2 && all_sent() && (sink.got >= fin_got || rd_done)) || let_go;
        if (fin != STAY && now)
        {
            if (fin == CLOSE || fin == RESET) { drop(fin == RESET); moved = true; }
            else if (!wr_done) { shutdown(fd, SHUT_WR); wr_done = true; moved = true; }
            else if (fin == SHUTCLOSE && rd_done) { drop(false); moved = true; }
        }
        return moved;
    }
};

// ---- waiting ----------------------------------------------------------------
inline void real_pause(long ns)
{
    timespec t{0, ns};
    syscall(SYS_nanosleep, &t, nullptr);
}
// calls round() (true: something moved) until done(); false if nothing moves any more
inline bool drive(const std::function<bool()> &round, const std::function<bool()> &done)
{
    int idle = 0;
    double since = pv::now();
    for (;;)
    {
        bool moved, fin;
        {
            ds::Quiet q;
            moved = round();
            fin = done();
        }
        if (pv::cx().failed()) pv::end_case();
        if (fin) return true;
        if (moved) { idle = 0; since = pv::now(); }
        else ++idle;
#if PV_DSCHED
        if (idle == 0) { ds::point(); continue; }
        if (idle < 4) ds::yield();
        else if (idle < 40) ds::settle();
        else usleep(50);
        if (idle > 300) real_pause(200000);
        if (idle > 1000 && pv::now() - since > 4) return false;
#else
        if (idle > 3) real_pause(idle < 30 ? 20000 : 200000);
        if (idle > 500 && pv::now() - since > 10) return false;
#endif
    }
}
inline bool wait_until(const std::function<bool()> &done) { return drive([]() { return false; }, done); }
// give things that must not happen time to happen
inline void pass_time(int ms)
{
#if PV_DSCHED
    ds::settle();
    usleep(100);
    ds::settle();
    (void)ms;
#else
    real_pause(ms * 1000000L);
#endif
}
inline int threads_now()
{
#if PV_DSCHED
    if (ds::vnow() || ds::steps()) return ds::threads_alive() + 1;
#endif
    int n = 0;
    FILE *f = fopen("/proc/self/status", "r");
    char line[200];
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "Threads: %d", &n) == 1) break;
    if (f) fclose(f);
    return n;
}
}
#endif
