// C19: what a subprocess is given and what it yields, byte for byte.
#include "sub.h"
#include "cppev/subprocess.h"
#include <cerrno>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace pv;
using namespace cppev;

namespace
{
const int SIGS[] = {SIGTERM, SIGKILL, SIGSEGV, SIGABRT, SIGINT, SIGUSR1, SIGFPE, SIGHUP, SIGPIPE};

std::string word_of(uint64_t seed, size_t n)
{
    std::string s = bytes(seed, n, Alpha::any);
    for (auto &c : s) if (c == 0 || c == ' ') c = '_';
    return s;
}
void same(const char *which, const std::string &got, const std::string &want)
{
    if (got == want) return;
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    cx().fail("%s: %zu bytes instead of %zu, different from byte %zu on: \"%s\" instead of \"%s\"", which, got.size(), want.size(), k, show(got.substr(k), 40).c_str(), show(want.substr(k), 40).c_str());
}

void body(const Case &c)
{
    Src h(c.hdr);
    int how = (int)h.weighted({5, 2});      // an object, exec_cmd
    bool exec = how == 1;
    int nenv = (int)h.skew(0, 12), extra = h.chance(1, 4) ? (int)h.skew(1, 100000) : 0, pieces = (int)h.skew(1, 12);
    uint64_t es = h.word(), is = h.word();
    bool binary = h.chance(1, 2), late = h.chance(1, 4), fullwait = h.chance(1, 30);
    int interval = (int)h.range(0, 3);
    if (h.chance(1, 3)) sysconfig::buffer_io_step = h.pick(std::vector<int>{100, 1023, 1025, 4096, 65536, 300000});
    Cmd k;
    for (int i = 0; i < nenv; ++i)
    {
        uint64_t r = splitmix(es);
        std::string e = "V" + std::to_string(r % (nenv + 3)) + "=" + word_of(splitmix(es), (r >> 8) % 40);
        if ((r >> 20) % 4 == 0) e += " with spaces = and equal";
        k.env.push_back(e);
    }
    size_t total = 0;
    bool closed_out = false, closed_err = false;
    for (auto &o : c.ops)
    {
        Src s(o);
        size_t kind = s.weighted({6, 6, 5, 3, 3, 3, 2, 2, 2, 4, 1, 1});
        size_t len = (size_t)s.skew(0, 300000), chunk = s.chance(1, 3) ? (size_t)s.skew(1, 70000) : 0;
        uint32_t seed = s.word() % 100000;
        if (chunk && len / chunk > 400) chunk = len / 400 + 1;
        if (s.chance(1, 3))
        {
            // where buffers end
            static const size_t edge[] = {1, 15, 16, 64, 512, 1023, 1024, 1025, 2047, 2048, 4096, 8192, 65535, 65536, 65537, 131072};
            len = edge[seed % 16];
        }
        if (total + len > 1200000) len = 0;
        std::string a;
        int any = exec ? (int)(seed & 1) : 0;
        switch (kind)
        {
        case 0:
        case 1:
            a = std::string(kind ? "e" : "o") + std::to_string(len) + "," + std::to_string(seed) + "," + std::to_string(any) + "," + std::to_string(chunk);
            total += len;
            break;
        case 2: if (exec) continue; a = "r" + std::to_string(len); k.reads += len; total += len; break;
        case 3: a = exec ? "A" : binary ? "H" : "O"; break;
        case 4: a = exec ? "V" : binary ? "H" : "E"; break;
        case 5: a = "H"; break;
        case 6: a = "A"; break;
        case 7: a = "V"; break;
        case 8: a = "s" + std::to_string(seed % 6); break;
        case 9: a = "#" + word_of(seed, len % 50); break;
        case 10: if (closed_out) continue; a = "co"; closed_out = true; break;
        default: if (closed_err) continue; a = "ce"; closed_err = true; break;
        }
        if (kind == 9 && seed % 5 == 0) a = "";     // two spaces in a row
        k.args.push_back(a);
    }
    if (k.args.empty()) k.args.push_back("s0");
    switch (h.weighted({2, 3, 2}))
    {
    case 0: k.args.push_back("#end"); break;
    case 1: k.args.push_back("x" + std::to_string(h.range(0, 255))); break;
    default: k.args.push_back("k" + std::to_string(SIGS[h.range(0, 8)]));
    }
    std::string input = bytes(is, exec ? 0 : k.reads + extra, Alpha::any);
    if (!binary) for (auto &ch : input) ch = (char)(33 + (unsigned char)ch % 90);
    expect(k, input);
    cx().log("%s env=%d in=%zu/%zu in %d%s out=%zu err=%zu:", exec ? "exec_cmd" : "open", nenv, input.size(), k.reads, pieces, binary ? " binary" : "", k.out.size(), k.err.size());
    for (auto &a : k.args) cx().log(" %s", a.size() && a[0] == '#' ? "#" : show(a, 30).c_str());
    if (k.out.size() > 65536 || k.err.size() > 65536) cx().label("more output than a pipe holds");
    if (k.reads > 65536) cx().label("more input than a pipe holds");
    if (k.sig) cx().label("killed by a signal");
    if (extra) cx().label("input not read");
    if (exec) cx().label("exec_cmd");
    if (nenv) cx().label("environment");
    cx().nontrivial(k.out.size() + k.err.size() + k.reads > 0);
    if (exec)
    {
        auto t = subprocess::exec_cmd(k.text(), k.env);
        PV_CHECK(k.right(std::get<0>(t)), "exec_cmd reports %s instead of %s", status_text(std::get<0>(t)).c_str(), k.sig ? ("signal " + std::to_string(k.sig)).c_str() : ("exit code " + std::to_string(k.code)).c_str());
        same("standard output", std::get<1>(t), k.out);
        same("standard error", std::get<2>(t), k.err);
        return;
    }
    subp_open p(k.text(), k.env);
    if (late) usleep(3000);
    size_t at = 0;
    for (int i = 0; i < pieces; ++i)
    {
        size_t n = i == pieces - 1 ? input.size() - at : (splitmix(is) % (2 * input.size() / pieces + 2));
        n = std::min(n, input.size() - at);
        switch (splitmix(is) % 4)
        {
        case 0: p.communicate(input.substr(at, n)); break;
        case 1: p.communicate(); usleep(splitmix(is) % 500); p.communicate(input.data() + at, (int)n); break;
        default: p.communicate(input.data() + at, (int)n);
        }
        at += n;
        PV_CHECK(std::string(p.stdout()) == k.out.substr(0, strlen(p.stdout())), "standard output is wrong amid");
        PV_CHECK(std::string(p.stderr()) == k.err.substr(0, strlen(p.stderr())), "standard error is wrong amid");
    }
    if (fullwait) p.wait();
    else p.wait(std::chrono::milliseconds(interval));
    PV_CHECK(k.right(p.returncode()), "the status is %s instead of %s", status_text(p.returncode()).c_str(), k.sig ? ("signal " + std::to_string(k.sig)).c_str() : ("exit code " + std::to_string(k.code)).c_str());
    same("standard output", p.stdout(), k.out);
    same("standard error", p.stderr(), k.err);
}
Reg r({"streams", "a generated program (writes of up to 300 kB to both streams in chunks, reads, argument and environment dumps, exit codes, signals) run by an object or exec_cmd with generated arguments, environment and input; non-trivial if any byte goes through a stream",
       20, 8, 0, 10, 8000, 150000, FORKED, 6, body});

// which program is found, and what if none is
void setup(std::string &d)
{
    d = scratch() + "/found";
    mkdir(d.c_str(), 0755);
    static bool done = false;
    if (done && access((d + "/echo").c_str(), X_OK) == 0) return;
    done = true;
    auto put = [&](const char *n, const std::string &t, int mode) {
        std::string f = d + "/" + n;
        { std::ofstream o(f); o << t; }
        chmod(f.c_str(), mode);
    };
    put("echo", "#!/bin/sh\nprintf decoy\n", 0755);
    put("only_here", "#!/bin/sh\nprintf decoy\n", 0755);
    put("plain", "not a program\n", 0644);
    put("lost", "#!/nonexistent/interpreter\n", 0755);
    put("script", "#!/bin/sh\nprintf '%s;' \"$@\"\nprintf e >&2\nexit 5\n", 0755);
    mkdir((d + "/dir").c_str(), 0755);
}
void lookup(const Case &c)
{
    Src h(c.hdr);
    std::string d;
    setup(d);
    int what = (int)h.range(0, 13);
    uint64_t sd = h.word();
    bool exec = h.chance(1, 2), decoy = h.chance(1, 2), bare = h.chance(1, 4);
    std::string arg = word_of(sd, 1 + sd % 12);
    for (auto &ch : arg) if (ch == '\\' || ch == '-') ch = '+';
    std::vector<std::string> env;
    int nenv = (int)h.range(0, 3);
    for (int i = 0; i < nenv; ++i) env.push_back("X" + std::to_string(i) + "=" + std::to_string(splitmix(sd) % 1000));
    std::string cmd, out, err;
    int code = 0;
    bool anyerr = false;
    switch (what)
    {
    case 0: cmd = "echo " + arg + " two"; out = arg + " two\n"; break;
    case 1: cmd = "/bin/echo " + arg; out = arg + "\n"; break;
    case 2: cmd = "env"; for (auto &e : env) out += e + "\n"; break;
    case 3: cmd = "printenv X0"; out = nenv ? env[0].substr(3) + "\n" : ""; code = nenv ? 0 : 1; break;
    case 4: cmd = "head -c 5000 /dev/zero"; if (exec) out = std::string(5000, '\0'); else { cmd = "true"; } break;
    case 5: cmd = "false"; code = 1; break;
    case 6: cmd = "no_such_program_" + std::to_string(sd % 1000) + " " + arg; code = 127; break;
    case 7: cmd = "/no/such/program"; code = 127; break;
    case 8: cmd = d + "/plain"; code = 127; break;
    case 9: cmd = d + "/dir " + arg; code = 127; break;
    case 10: cmd = d + "/lost"; code = 127; break;
    case 11: cmd = "only_here"; code = 127; break;
    case 12: cmd = bare ? "./script " + arg : d + "/script " + arg + " b"; out = arg + ";" + (bare ? "" : "b;"); err = "e"; code = 5; break;
    default: cmd = "cat /no/such/file"; code = 1; anyerr = true;
    }
    if (bare && what == 12) PV_CHECK(chdir(d.c_str()) == 0, "chdir");
    if (decoy) setenv("PATH", (d + ":/bin:/usr/bin").c_str(), 1);
    cx().log("%s \"%s\" env=%d%s", exec ? "exec_cmd" : "open", show(what == 12 || (what >= 8 && what <= 10) ? cmd.substr(cmd.rfind('/')) : cmd).c_str(), nenv, decoy ? " decoy" : "");
    cx().label(code == 127 ? "cannot be started" : "found");
    cx().nontrivial();
    // what this process has not written yet is not the subprocess's
    setvbuf(::stdout, nullptr, _IOFBF, 4096);
    fputs("the parent's", ::stdout);
    std::string gout, gerr;
    int st;
    if (exec) std::tie(st, gout, gerr) = subprocess::exec_cmd(cmd, env);
    else
    {
        subp_open p(cmd, env);
        p.wait(std::chrono::milliseconds(1));
        st = p.returncode();
        gout = p.stdout();
        gerr = p.stderr();
    }
    PV_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == code, "\"%s\" reports %s instead of exit code %d", show(cmd).c_str(), status_text(st).c_str(), code);
    same("standard output", gout, out);
    if (anyerr) PV_CHECK(!gerr.empty(), "nothing on standard error");
    else same("standard error", gerr, err);
}
Reg r2({"lookup", "commands by name, path and relative path, existing or not, with a decoy on the parent's own path; always non-trivial", 12, 1, 0, 0, 800, 12000, FORKED, 6, lookup});
}
