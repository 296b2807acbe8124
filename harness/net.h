// Small helpers shared by the network harnesses.
#ifndef PV_NET_H
#define PV_NET_H
#include "engine.h"
#include "cppev/sysconfig.h"
#include <cerrno>
#include <cstdio>
#include <poll.h>
#include <string>
#include <system_error>
#include <sys/socket.h>
#include <unistd.h>
namespace pv
{
// every check and worker has loopback addresses of its own
inline std::string ip4(int check, int k = 1)
{
    char b[40];
    snprintf(b, sizeof b, "127.%d.%d.%d", 100 + check, worker_id() + 1, k);
    return b;
}
// there is only one ::1, so ports below the automatic range are dealt out
inline int port6(int k) { return 10000 + worker_id() % 128 * 160 + k; }
// close with a reset: leaves no TIME_WAIT behind
inline void no_linger(int fd)
{
    struct linger l = {1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
}
// a value the program may set before it uses the library, for the time of one case
struct Setting
{
    int &var;
    int before;
    Setting(int &v, int now) : var(v), before(v) { var = now; }
    ~Setting() { var = before; }
};
inline bool wait_for(int fd, short ev, int ms = 5000)
{
    pollfd p{fd, ev, 0};
    double end = now() + ms / 1000.0;
    for (;;)
    {
        int r = poll(&p, 1, ms);
        if (r > 0) return true;
        if (r == 0 || now() > end) return false;
    }
}
// no free port at the moment: the machine's shortage, not the code's fault
template <typename F> void or_skip(F f)
{
    for (int i = 0;; ++i)
    {
        try { f(); return; }
        catch (const std::system_error &e)
        {
            if (e.code().value() != EADDRINUSE && e.code().value() != EADDRNOTAVAIL) throw;
            if (i > 20) throw CaseSkip();
            usleep(20000);
        }
    }
}
}
#endif
