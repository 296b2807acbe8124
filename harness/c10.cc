// C10: starting, asking for connections, spreading them and shutting down.
#include "reactor.h"
#include <algorithm>
#include <set>
#include <sys/resource.h>
#include <thread>
using namespace pv;
using namespace rx;

// an attempt is mostly under way when connect() returns; the system may also have its outcome at once
namespace
{
int fast_net = 0;                        // 0 never, 1 always, 2 now and then
std::atomic<unsigned> attempts{0}, at_once{0};
}
extern "C" int connect(int fd, const sockaddr *a, socklen_t l)
{
    int r = (int)syscall(SYS_connect, fd, a, l), e = errno;
    ds::Quiet q;
    if (r && e == EINPROGRESS && (fast_net == 1 || (fast_net == 2 && mix(attempts.fetch_add(1, RLX)) % 2)))
    {
        pollfd p{fd, POLLOUT, 0};
        socklen_t n = sizeof e;
        if (syscall(SYS_poll, &p, 1, 5000) == 1 && getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &n) == 0)
        {
            at_once.fetch_add(1, RLX);
            r = e ? -1 : 0;
        }
        else e = EINPROGRESS;
    }
    errno = e;
    return r;
}

namespace
{
enum Host { LISTENS = 0, REFUSES, MISSING, INVALID };
struct Add
{
    int host, n, who, when;      // by which thread; 0 before run, 1 after, 2 from the first connect callback
};
struct World
{
    std::vector<Addr> addrs;
    std::vector<int> kinds;
    std::vector<int> lfds;       // of all addresses; -1 for none
    std::vector<int> accepted;
    std::vector<int> fds;        // the other ends
    std::atomic<int> connects{0}, closed{0}, after{0};
    std::atomic<bool> down{false};
    std::atomic<int> per[MAXCONN * 4];       // connects by thread, open addressing
    std::atomic<unsigned long> thr[MAXCONN * 4];
    std::atomic<long> callbacks{0}, returns{0};
    std::unique_ptr<cppev::reactor::tcp_server> server;
    std::unique_ptr<cppev::reactor::tcp_client> client;
    std::vector<Add> late;
    std::vector<int> ports;      // of the listeners a connect callback names
    int dummy = 0;
    int work = 0, threads = 1;
};
World *W;

int slot()
{
    unsigned long me = (unsigned long)pthread_self();
    for (int i = 0;; ++i)
    {
        unsigned long z = 0;
        if (W->thr[i].load(RLX) == me) return i;
        if (W->thr[i].compare_exchange_strong(z, me, RLX)) return i;
    }
}
struct Call
{
    Call() { ds::Quiet q; W->callbacks.fetch_add(1, RLX); if (W->down.load(RLX)) cx().soft_fail("a callback runs after shutdown has returned"); }
    ~Call() { ds::Quiet q; if (W->down.load(RLX)) cx().soft_fail("a callback was running when shutdown returned"); W->returns.fetch_add(1, RLX); }
};
void add_now(const Add &a)
{
    World &w = *W;
    Addr &x = w.addrs[a.host];
    if (x.f == cppev::family::local) w.client->add_unix(x.path, a.n);
    else w.client->add(x.ip, x.port, x.f, a.n);
}
void opened(const Iop &iopt)
{
    Call c;
    for (int i = 0; i < W->work; ++i) ds::point();
    int k;
    {
        ds::Quiet q;
        W->per[slot()].fetch_add(1, RLX);
        if (cppev::reactor::external_data(iopt) != &W->dummy) cx().soft_fail("the external data is not what was given");
        k = W->connects.fetch_add(1, RLX);
    }
    if (k == 0) for (auto &a : W->late) add_now(a);
}
void ended(const Iop &)
{
    Call c;
    ds::Quiet q;
    W->per[slot()].fetch_sub(1, RLX);
    W->closed.fetch_add(1, RLX);
}
void echoes(const Iop &iopt)
{
    Call c;
    for (int i = 0; i < W->work; ++i) ds::point();
    iopt->wbuffer().put_string(iopt->rbuffer().get_string());
    cppev::reactor::async_write(iopt);
}
void wrote(const Iop &)
{
    Call c;
}
void setup_server(int workers)
{
    World &w = *W;
    w.server.reset(new cppev::reactor::tcp_server(workers, &w.dummy));
    w.server->set_on_accept(opened);
    w.server->set_on_read_complete(echoes);
    w.server->set_on_write_complete(wrote);
    w.server->set_on_closed(ended);
}
void setup_client(int workers, int conts)
{
    World &w = *W;
    w.client.reset(new cppev::reactor::tcp_client(workers, conts, &w.dummy));
    w.client->set_on_connect(opened);
    w.client->set_on_read_complete(echoes);
    w.client->set_on_write_complete(wrote);
    w.client->set_on_closed(ended);
}
// a listen that cannot succeed is reported, and the server goes on without it
void listen_in_vain(int how)
{
    World &w = *W;
    try
    {
        if (how == 1) w.server->listen_unix("/nonexistent-directory/sock", true);
        if (how == 2) w.server->listen(w.addrs[0].port, cppev::family::ipv4, "256.1.1.1");
        if (how == 3) w.server->listen_unix("/dev/null", false);
    }
    catch (const std::exception &) { return; }
    cx().fail("listening where nobody can listen is not reported");
}
void serve(bool again, int vain = 0)
{
    World &w = *W;
    size_t i = 0;
    for (auto &a : w.addrs)
    {
        if (vain && i++ == w.addrs.size() / 2) listen_in_vain(vain);
        auto go = [&]() {
            if (a.f == cppev::family::local) w.server->listen_unix(a.path, true);
            else w.server->listen(a.port, a.f, a.any ? nullptr : a.ip.c_str());
        };
        if (!again) or_skip(go);
        else
            try { go(); }
            catch (const std::exception &e) { cx().fail("the address cannot be served again after the shutdown: %s", e.what()); }
    }
}
// threads that use the endpoint besides the first one
template <typename F> void in_threads(int n, F f)
{
    std::vector<std::thread> t;
    for (int i = 1; i < n; ++i) t.emplace_back([=]() { f(i); });
    f(0);
    for (auto &x : t) x.join();
}
bool take()
{
    World &w = *W;
    bool moved = false;
    for (size_t l = 0; l < w.lfds.size(); ++l)
    {
        if (w.lfds[l] < 0) continue;
        int fd;
        while ((fd = accept4(w.lfds[l], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK)) >= 0)
        {
            ++w.accepted[l];
            w.fds.push_back(fd);
            moved = true;
        }
    }
    static long last = 0;
    long sum = w.callbacks.load(RLX) + w.returns.load(RLX);
    if (sum != last) { last = sum; moved = true; }
    return moved;
}
int raw_connect(const Addr &a)
{
    int s = socket(a.af(), SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (s < 0) throw CaseSkip();
    sockaddr_storage sa;
    socklen_t l = a.fill(sa);
    if (connect(s, (sockaddr *)&sa, l))
    {
        int e = errno;
        ::close(s);
        if (e == EADDRNOTAVAIL || e == EADDRINUSE) throw CaseSkip();
        errno = e;
        return -1;
    }
    nonblock(s);
    return s;
}
void drop_all(bool reset)
{
    for (auto &fd : W->fds) if (fd >= 0) { if (reset) no_linger(fd); ::close(fd); fd = -1; }
}
void used(int workers, int least)
{
    // every worker that nobody had been given to would have been the least loaded one
    int n = 0;
    for (int i = 0; i < MAXCONN * 4 && W->thr[i].load(RLX); ++i) n += W->per[i].load(RLX) > 0;
    if (n < workers) cx().fail("%d connections use %d of %d workers", least, n, workers);
}
std::string loads()
{
    std::string s;
    for (int i = 0; i < MAXCONN * 4 && W->thr[i].load(RLX); ++i) s += (s.empty() ? "" : " ") + std::to_string(W->per[i].load(RLX));
    return s;
}

void check_threads()
{
    // (the system lets go of a joined thread a moment later)
    double end = now() + 3;
    while (!PV_DSCHED && threads_now() > W->threads && now() < end) real_pause(100000);
    PV_CHECK(threads_now() == W->threads, "%d threads after the shutdown, there were %d at first", threads_now(), W->threads);
}

// ---- requests -----------------------------------------------------------------
void requests(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    (void)cfg;
    cfg.fair_steps = 20000000;
    cfg.max_steps = 120000000;
    tune(h);
    W = new World();
    World &w = *W;
    for (auto &x : w.per) x.store(0, RLX);
    for (auto &x : w.thr) x.store(0, RLX);
    int workers = (int)h.range(1, 4), conts = (int)h.range(1, 4);
    int naddr = (int)h.range(1, 4);
    uint32_t fams = h.word(), kinds = h.word();
    int users = (int)h.range(1, 3);
    bool resets = h.chance(1, 2);
    fast_net = (int)h.weighted({2, 1, 1});
    w.work = PV_DSCHED ? (int)h.range(0, 4) : 0;
    int most = PV_DSCHED ? 24 : MAXCONN;
    for (int k = 0; k < naddr; ++k)
    {
        int kind = std::vector<int>{LISTENS, LISTENS, LISTENS, REFUSES, REFUSES, MISSING, INVALID, LISTENS}[kinds >> (4 * k) & 7];
        Addr a = address(10, k, (int)((fams >> (4 * k)) % 3));
        if (k && (kinds >> 20 & 3) == 0 && a.f == cppev::family::ipv4 && w.addrs[0].f == a.f) a.port = w.addrs[0].port;   // another host, same port
        if (kind == INVALID && a.f == cppev::family::ipv6 && k % 2) a.ip = "10.0.0.1";
        else if (kind == INVALID) { a.ip = "300.1.1.1"; a.path = std::string(200, 'x'); }
        // nobody is at a port that is bound without listening; a path needs no holder
        if (kind == MISSING && a.f != cppev::family::local) kind = REFUSES;
        w.addrs.push_back(a);
        w.kinds.push_back(kind);
    }
    w.accepted.assign(naddr, 0);
    std::vector<Add> adds;
    std::vector<int> want(naddr, 0);
    int sum = 0, reach = 0, hit = 0, zero = 0;
    cx().log("%d workers %d connectors %d users;", workers, conts, users);
    static const char *KN[] = {"", " refuses", " missing", " invalid"};
    for (int k = 0; k < naddr; ++k) cx().log(" %s%s", w.addrs[k].f == cppev::family::ipv4 ? "4" : w.addrs[k].f == cppev::family::ipv6 ? "6" : "u", KN[w.kinds[k]]);
    for (auto &o : c.ops)
    {
        Src r(o);
        Add a;
        a.host = (int)(r.word() % naddr);
        a.n = (int)(r.chance(1, 3) ? r.range(0, 24) : r.range(0, 3));
        a.who = (int)(r.word() % users);
        a.when = (int)r.weighted({2, 4, 1});
        if (sum + a.n > most) a.n = most - sum;
        // a callback makes no request unless there is one
        if (a.when == 2 && w.kinds[a.host] == LISTENS && a.n == 0) a.when = 1;
        sum += a.n;
        zero += !a.n;
        adds.push_back(a);
    }
    for (auto &a : adds) if (a.when != 2 && w.kinds[a.host] == LISTENS) hit += a.n;
    for (auto &a : adds)
    {
        if (a.when == 2 && !hit) a.when = 1;
        if (a.when == 2) w.late.push_back(a);
    }
    for (auto &a : adds)
    {
        cx().log(" [%d x%d by %d %s]", a.host, a.n, a.who, a.when == 0 ? "before" : a.when == 1 ? "after" : "callback");
        if (w.kinds[a.host] == LISTENS) { want[a.host] += a.n; reach += a.n; }
    }
#if PV_DSCHED
    ds::run(cfg, [&]() {
#endif
        w.threads = threads_now();
        size_t fds0 = open_fds().size();
        for (int k = 0; k < naddr; ++k)
        {
            int fd = -1;
            if (w.kinds[k] == LISTENS || w.kinds[k] == REFUSES) fd = raw_bind(w.addrs[k], w.kinds[k] == LISTENS);
            if (fd < 0 && (w.kinds[k] == LISTENS || w.kinds[k] == REFUSES)) throw CaseSkip();
            w.lfds.push_back(fd);
        }
        std::vector<int> keep = w.lfds;
        for (int k = 0; k < naddr; ++k) if (w.kinds[k] == REFUSES) w.lfds[k] = -1;
        setup_client(workers, conts);
        in_threads(users, [&](int me) { for (auto &a : adds) if (a.when == 0 && a.who == me) add_now(a); });
        w.client->run();
        in_threads(users, [&](int me) { for (auto &a : adds) if (a.when == 1 && a.who == me) add_now(a); });
        auto done = [&]() {
            for (int k = 0; k < naddr; ++k) if (w.accepted[k] < want[k]) return false;
            return w.connects.load(RLX) >= reach;
        };
        drive(take, done);
        pass_time(1);
        {
            ds::Quiet q;
            take();
            for (int k = 0; k < naddr; ++k) PV_CHECK(w.accepted[k] == want[k], "%d connections asked for, %d made to host %d", want[k], w.accepted[k], k);
            PV_CHECK(w.connects.load(RLX) == reach, "%d connect callbacks for %d connections", w.connects.load(RLX), reach);
            // (attempts that fail are a load for a moment)
            if (reach == sum && reach >= 3 * workers * conts) { used(workers, reach); cx().label("enough for all workers"); }
            cx().nontrivial(sum > 0);
            if (reach < sum) cx().label("attempts that fail");
            if (reach && reach < sum) cx().label("attempts that fail and others that do not");
            if (at_once.load(RLX)) cx().label("attempts that end at once");
            if (w.late.size()) cx().label("asked from a callback");
            if (zero) cx().label("no connections asked for");
            if (users > 1) cx().label("asked by several threads");
            drop_all(resets);
        }
        drive(take, [&]() { return w.closed.load(RLX) == reach; });
        PV_CHECK(w.closed.load(RLX) == reach, "%d closed callbacks for %d connections", w.closed.load(RLX), reach);
        w.client->shutdown();
        w.down = true;
        check_threads();
        PV_CHECK(w.connects.load(RLX) == reach, "%d connect callbacks for %d connections", w.connects.load(RLX), reach);
        w.client.reset();
        for (auto f : keep) if (f >= 0) ::close(f);
        {
            ds::Quiet q;
            PV_CHECK(open_fds().size() == fds0, "%zu descriptors are open, there were %zu at first", open_fds().size(), fds0);
        }
#if PV_DSCHED
    });
#endif
    for (auto &a : w.addrs) if (a.path.size() > 1 && a.path.size() < 150) unlink(a.path.c_str());
}

// ---- spreading ----------------------------------------------------------------
// One connection after the other, with some ended in between: each goes to a worker
// that has the least.
void spread(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    (void)cfg;
    cfg.fair_steps = 20000000;
    cfg.max_steps = 120000000;
    tune(h);
    W = new World();
    World &w = *W;
    for (auto &x : w.per) x.store(0, RLX);
    for (auto &x : w.thr) x.store(0, RLX);
    int workers = (int)h.range(2, 6), conts = (int)h.range(1, 3);
    bool server = h.chance(1, 2);
    int naddr = (int)h.range(1, 3);
    uint32_t fams = h.word();
    w.work = PV_DSCHED ? (int)h.range(0, 2) : 0;
    for (int k = 0; k < naddr; ++k) { w.addrs.push_back(address(10, k, (int)((fams >> (4 * k)) % 3))); w.kinds.push_back(LISTENS); }
    w.accepted.assign(naddr, 0);
    cx().log("%s %d workers %d;", server ? "server" : "client", workers, server ? naddr : conts);
#if PV_DSCHED
    ds::run(cfg, [&]() {
#endif
        if (server) { setup_server(workers); serve(false); w.server->run(); }
        else
        {
            for (auto &a : w.addrs) w.lfds.push_back(raw_bind(a, true));
            setup_client(workers, conts);
            w.client->run();
        }
        int made = 0, gone = 0, up = 0;
        for (auto &o : c.ops)
        {
            Src r(o);
            int what = (int)r.weighted({4, 2, 1});
            if (what == 0 || !up)
            {
                if (made >= 60) break;
                // loads before, to tell which worker it goes to
                std::vector<int> before;
                for (int i = 0; i < workers; ++i) before.push_back(w.per[i].load(RLX));
                int k = (int)(r.word() % naddr);
                if (server)
                {
                    int fd = raw_connect(w.addrs[k]);
                    if (fd < 0) cx().fail("a connection to the server was refused (errno %d)", errno);
                    w.fds.push_back(fd);
                }
                else add_now(Add{k, 1, 0, 0});
                ++made;
                ++up;
                if (!drive(take, [&]() { return w.connects.load(RLX) == made && w.returns.load(RLX) == w.callbacks.load(RLX) && (server || (int)w.fds.size() == made); }))
                    cx().fail("%d accept/connect callbacks for %d connections", w.connects.load(RLX), made);
                std::sort(before.begin(), before.end());
                int low = before[0];
                int rise = -1;
                // the worker it went to had the least
                std::vector<int> now;
                for (int i = 0; i < workers; ++i) now.push_back(w.per[i].load(RLX));
                std::sort(now.begin(), now.end());
                std::multiset<int> a(before.begin(), before.end()), b(now.begin(), now.end());
                for (int x : std::vector<int>(b.begin(), b.end())) { auto it = a.find(x); if (it != a.end()) { a.erase(it); b.erase(b.find(x)); } }
                if (a.size() == 1) rise = *a.begin();
                if (rise != low) cx().fail("a new connection went to a worker that had %d of them, though one had %d (now %s)", rise, low, loads().c_str());
                cx().log(" +");
            }
            else
            {
                size_t i = r.word() % w.fds.size();
                while (w.fds[i] < 0) i = (i + 1) % w.fds.size();
                if (what == 2) no_linger(w.fds[i]);
                ::close(w.fds[i]);
                w.fds[i] = -1;
                ++gone;
                --up;
                if (!drive(take, [&]() { return w.closed.load(RLX) == gone && w.returns.load(RLX) == w.callbacks.load(RLX); }))
                    cx().fail("%d closed callbacks for %d connections", w.closed.load(RLX), gone);
                // until the worker is done with it
                for (int t = 0; t < 3; ++t) pass_time(1);
                cx().log(" -");
                cx().label("connections that end in between");
            }
        }
        cx().nontrivial(made > 2);
        drop_all(true);
        if (w.client) w.client->shutdown();
        if (w.server) w.server->shutdown();
        w.down = true;
        w.client.reset();
        w.server.reset();
#if PV_DSCHED
    });
#endif
    for (auto &a : w.addrs) if (!a.path.empty()) unlink(a.path.c_str());
}

// ---- shutdown -----------------------------------------------------------------
void ending(const Case &c)
{
    Src h(c.hdr);
    ds::Config cfg = ds::config(h);
    (void)cfg;
    cfg.fair_steps = 20000000;
    cfg.max_steps = 120000000;
    tune(h);
    W = new World();
    World &w = *W;
    for (auto &x : w.per) x.store(0, RLX);
    for (auto &x : w.thr) x.store(0, RLX);
    bool server = h.chance(1, 2);
    int workers = (int)h.range(1, 4), conts = (int)h.range(1, 3), naddr = (int)h.range(1, 3);
    uint32_t fams = h.word();
    w.work = PV_DSCHED ? (int)h.range(0, 4) : 0;
    int rounds = (int)h.range(1, 3);
    uint32_t flags = h.word();
    int twice = (flags & 15) == 1, never = (flags >> 4 & 15) == 1;
    int delay = (int)h.range(0, PV_DSCHED ? 60 : 400);
    bool any = h.chance(1, 3);
    int vain = (flags >> 8 & 3) == 1 ? 1 + (int)((flags >> 10) % 3) : 0;
    for (int k = 0; k < naddr; ++k)
    {
        w.addrs.push_back(address(10, k, (int)((fams >> (4 * k)) % 3)));
        w.kinds.push_back(LISTENS);
        // the whole machine's address
        w.addrs.back().any = any && w.addrs.back().f == cppev::family::ipv4 && server;
    }
    w.accepted.assign(naddr, 0);
    cx().log("%s %d workers, %d addresses, %d rounds%s%s delay %d;", server ? "server" : "client", workers, naddr, rounds, twice ? ", shut down twice" : "", never ? ", never run" : "", delay);
    std::vector<std::pair<int, int>> act;
    for (auto &o : c.ops)
    {
        Src r(o);
        act.push_back({(int)r.weighted({4, 3, 2, 1}), (int)r.word() & 0xFFFF});
        cx().log(" %c%d", "cwxr"[act.back().first], act.back().second % 7);
    }
#if PV_DSCHED
    ds::run(cfg, [&]() {
#endif
        w.threads = threads_now();
        size_t fds0 = open_fds().size();
        std::vector<int> listeners;
        if (!server) for (auto &a : w.addrs) w.lfds.push_back(raw_bind(a, true));
        size_t fds1 = open_fds().size();
        for (int round = 0; round < rounds; ++round)
        {
            if (server) { setup_server(workers); serve(round > 0, vain); }
            else setup_client(workers, conts);
            bool run = !(never && round == 0);
            if (run) (server ? w.server->run() : w.client->run());
            // traffic that is still going on at the shutdown
            char b[3000];
            for (auto &a : act)
            {
                ds::Quiet q;
                if (a.first == 0)
                {
                    if (w.fds.size() >= 40) continue;
                    int k = a.second % naddr;
                    if (server && run)
                    {
                        int fd = raw_connect(w.addrs[k]);
                        if (fd < 0) cx().fail("a connection to the server was refused (errno %d)", errno);
                        w.fds.push_back(fd);
                    }
                    else if (!server) add_now(Add{k, 1 + a.second % 3, 0, 0});
                }
                else if (w.fds.size())
                {
                    int &fd = w.fds[a.second % w.fds.size()];
                    if (fd < 0) continue;
                    if (a.first == 1) { memset(b, a.second, sizeof b); if (send(fd, b, 1 + a.second % sizeof b, MSG_NOSIGNAL) < 0) { } }
                    if (a.first >= 2) { if (a.first == 3) no_linger(fd); ::close(fd); fd = -1; }
                }
                if (!server) take();
                while (recv(w.fds.empty() || w.fds[0] < 0 ? -1 : w.fds[0], b, sizeof b, MSG_DONTWAIT) > 0) ;
                if (PV_DSCHED) ds::point();
            }
#if PV_DSCHED
            for (int i = 0; i < delay; ++i) ds::point();
#else
            if (delay) real_pause(delay * 1000L);
#endif
            long before = w.callbacks.load(RLX);
            (void)before;
            if (server) w.server->shutdown();
            else w.client->shutdown();
            w.down = true;
            {
                ds::Quiet q;
                check_threads();
                PV_CHECK(w.callbacks.load(RLX) == w.returns.load(RLX), "a callback is running after the shutdown");
            }
            if (twice) { if (server) w.server->shutdown(); else w.client->shutdown(); }
            long cb = w.callbacks.load(RLX);
            pass_time(1);
            PV_CHECK(w.callbacks.load(RLX) == cb, "a callback ran after the shutdown");
            w.server.reset();
            w.client.reset();
            {
                ds::Quiet q;
                // what was under way is accepted and dropped
                if (!server) take();
                // every other end sees the end
                char x[4096];
                for (auto &fd : w.fds)
                {
                    if (fd < 0) continue;
                    int r;
                    double end = now() + 5;
                    while ((r = recv(fd, x, sizeof x, MSG_DONTWAIT)) > 0 || (r < 0 && errno == EAGAIN && now() < end)) if (r < 0) real_pause(100000);
                    if (r < 0 && errno == EAGAIN) cx().fail("a connection is still open after its %s is destroyed", server ? "server" : "client");
                    if (round % 2) no_linger(fd);
                    ::close(fd);
                }
                w.fds.clear();
                // descriptors go with the last callback's thread
                PV_CHECK(open_fds().size() == fds1, "%zu descriptors are open, there were %zu at first", open_fds().size(), fds1);
                cx().nontrivial(cb > 0 || !run);
                if (cb) cx().label("shut down in traffic");
                if (!run) cx().label("shut down without having run");
                if (twice) cx().label("shut down twice");
                if (server && vain) cx().label("a listen in vain");
                if (rounds > 1) cx().label("served again");
                w.down = false;
            }
        }
        for (auto f : w.lfds) ::close(f);
        ds::Quiet q;
        PV_CHECK(open_fds().size() == fds0, "%zu descriptors are open, there were %zu at first", open_fds().size(), fds0);
        (void)listeners;
#if PV_DSCHED
    });
#endif
    for (auto &a : w.addrs) if (!a.path.empty()) unlink(a.path.c_str());
}
#ifndef C10_NAME
#define C10_NAME "threads"
#define HOW CONCLUSIVE
#else
#define HOW (CONCLUSIVE | EXEC)
#endif
#if PV_DSCHED
#define NAME(x) "schedules-" x
const int F = 1;
#else
#define NAME(x) C10_NAME "-" x
const int F = 2;
#endif
Reg r1({NAME("requests"), "a client of up to 4 workers and 4 connectors asked for up to 96 connections to up to 4 hosts that listen, refuse, do not exist or have an invalid name, by up to 3 threads and from a callback, before and after its start, where the system may have the outcome of an attempt at once or later; non-trivial if any is asked for",
        ds::HDR + 12, 12, 0, 12, 2400u / F, 50000, FORKED, 25, requests, HOW});
Reg r2({NAME("spread"), "connections that begin and end one after the other: each goes to a least loaded worker; non-trivial from 3 connections on",
        ds::HDR + 12, 6, 1, 30, 1600u / F, 30000, FORKED, 25, spread, HOW});
Reg r3({NAME("shutdown"), "a server or client shut down (also twice, or without having run) while connections begin, carry data and end, destroyed and started again on the same addresses, up to 3 times; non-trivial if callbacks ran",
        ds::HDR + 14, 4, 0, 20, 2400u / F, 50000, FORKED, 25, ending, HOW});
}
