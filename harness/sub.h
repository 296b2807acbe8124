// Shared by the subprocess harnesses: commands for aux/sub_helper.c and what they yield.
#ifndef PV_SUB_H
#define PV_SUB_H
#include "engine.h"
#include "aux/sub_bytes.h"
#include <cstdlib>
#include <string>
#include <sys/wait.h>
#include <vector>
namespace pv
{
inline std::string helper() { return std::string(getenv("VERIF_AUX") ? getenv("VERIF_AUX") : ".") + "/sub_helper"; }
inline std::string sub_data(size_t n, uint64_t seed, int any)
{
    std::string s(n, 0);
    if (n) sub_bytes(&s[0], n, seed, any);
    return s;
}
inline std::string item(const std::string &s) { return std::to_string(s.size()) + ":" + s + ","; }
// has ended, reaped or not; without reaping it
inline bool ended(pid_t p)
{
    siginfo_t si;
    si.si_pid = 0;
    int rc;
    do rc = waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT);
    while (rc < 0 && errno == EINTR);
    return rc < 0 || si.si_pid == p;
}
inline bool reaped(pid_t p)
{
    siginfo_t si;
    return waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT) < 0 && errno == ECHILD;
}
struct Cmd
{
    std::vector<std::string> args;      // after the program
    std::vector<std::string> env;
    size_t reads = 0;                   // bytes it insists on
    std::string out, err;               // from the read bytes on: filled by expect()
    int code = 0, sig = 0;
    bool lingers = false;               // never ends by itself
    std::string text() const
    {
        std::string s = helper();
        for (auto &a : args) s += " " + a;
        return s;
    }
    bool right(int status) const
    {
        if (sig) return WIFSIGNALED(status) && WTERMSIG(status) == sig;
        return WIFEXITED(status) && WEXITSTATUS(status) == code;
    }
};
inline std::string status_text(int st)
{
    char b[80];
    if (WIFEXITED(st)) snprintf(b, sizeof b, "exit code %d (%d)", WEXITSTATUS(st), st);
    else if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal %d (%d)", WTERMSIG(st), st);
    else snprintf(b, sizeof b, "status %d", st);
    return b;
}
// simulates the program; input: everything it will be given
inline void expect(Cmd &c, const std::string &input)
{
    std::string acc;
    size_t at = 0;
    bool o = true, e = true;
    c.out.clear();
    c.err.clear();
    for (auto &a : c.args)
    {
        unsigned long x = 0, y = 0, z = 0, w = 0;
        if (a.size() > 1) sscanf(a.c_str() + 1, "%lu,%lu,%lu,%lu", &x, &y, &z, &w);
        std::string t;
        switch (a.empty() ? 0 : a[0])
        {
        case 'o': t = sub_data(x, y, (int)z); if (o) c.out += t; break;
        case 'e': t = sub_data(x, y, (int)z); if (e) c.err += t; break;
        case 'r': x = std::min<size_t>(x, input.size() - at); acc += input.substr(at, x); at += x; break;
        case 'O': if (o) c.out += acc; break;
        case 'E': if (e) c.err += acc; break;
        case 'H':
        {
            char b[64];
            snprintf(b, sizeof b, "%zu/%016llx;", acc.size(), (unsigned long long)sub_hash(acc.data(), acc.size()));
            if (o) c.out += b;
            break;
        }
        case 'A': if (o) for (auto &q : c.args) c.out += item(q); break;
        case 'V': if (o) for (auto &q : c.env) c.out += item(q); break;
        case 'c': if (a == "co") o = false; else if (a == "ce") e = false; break;
        case 'x': c.code = (int)x; return;
        case 'k': c.sig = (int)x; return;
        case 'z': c.lingers = true; return;
        default: break;
        }
    }
    c.code = 0;
}
}
#endif
