// C24: dynamic loader against a reference-count model of generated plugins.
#include "engine.h"
#include "cppev/dynamic_loader.h"
#include <cstdlib>
#include <fcntl.h>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace pv;

static int loaded[16];
extern "C" void pv_lib_event(int id, int what) __attribute__((used, visibility("default")));
extern "C" void pv_lib_event(int id, int what) { loaded[id] += what; }

namespace
{
const int L = 6;            // plugins 0..5 exist in the aux directory
const int S = 6;            // loader slots
int bumps[16];
std::string dir;            // scratch with copies under odd names
std::string auxdir() { return getenv("VERIF_AUX") ? getenv("VERIF_AUX") : "."; }

void setup()
{
    static bool done = false;
    if (done) return;
    done = true;
    dir = scratch() + "/plugins";
    mkdir(dir.c_str(), 0755);
    mkdir((dir + "/a directory").c_str(), 0755);
    for (int i = 0; i < L; ++i)
    {
        std::ifstream in(auxdir() + "/plug" + std::to_string(i) + ".so", std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        if (d.size() < 1000) { fprintf(stderr, "plugin missing\n"); _exit(3); }
        std::ofstream(dir + "/p " + std::to_string(i) + "%s.so.1", std::ios::binary) << d;
        if (symlink(("p " + std::to_string(i) + "%s.so.1").c_str(), (dir + "/link" + std::to_string(i)).c_str())) {}
        // same file name in two directories of different plugins
        std::string sub = dir + "/d" + std::to_string(i);
        mkdir(sub.c_str(), 0755);
        std::ofstream(sub + "/libsame.so", std::ios::binary) << d;
    }
    // a directory to work in, where the plugins have the names of others
    mkdir((dir + "/cwd").c_str(), 0755);
    mkdir((dir + "/cwd/sub").c_str(), 0755);
    for (int i = 0; i < L; ++i)
    {
        std::ifstream in(auxdir() + "/plug" + std::to_string((i + 1) % L) + ".so", std::ios::binary);
        std::ofstream(dir + "/cwd/plug" + std::to_string(i) + ".so", std::ios::binary) << in.rdbuf();
    }
    std::ofstream(dir + "/cwd/no_such_library_pv.so") << std::ifstream(auxdir() + "/plug0.so", std::ios::binary).rdbuf();
    std::ofstream(dir + "/empty.so");
    std::ofstream(dir + "/text.so") << "this is not a library\n";
}

struct Slot
{
    std::unique_ptr<cppev::dynamic_loader> l;
    int (*fn)() = nullptr;   // obtained at load time, called later
    int id = -1;      // plugin
    int file = -1;    // which copy (the system counts references per file)
};

struct WorkIn
{
    int old = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    WorkIn(const std::string &d) { if (chdir(d.c_str())) abort(); }
    ~WorkIn() { if (fchdir(old)) abort(); close(old); }
};

void body(const Case &c)
{
    setup();
    WorkIn at(dir + "/cwd");
    Slot s[S];
    memset(loaded, 0, sizeof loaded);
    std::map<int, int> refs, state;     // per file
    int errors = 0, maxlive = 0, reload = 0;
    std::map<int, bool> was;
    auto verify = [&](const char *what) {
        // only what stays loaded by somebody is mapped
        int perid[16] = {};
        int live = 0;
        for (auto &r : refs) if (r.second > 0) { perid[r.first % 16] += 1; ++live; }
        maxlive = std::max(maxlive, live);
        for (int i = 0; i < L; ++i)
            PV_CHECK(loaded[i] == perid[i], "after %s plugin %d is loaded %d times, expected %d", what, i, loaded[i], perid[i]);
        for (int k = 0; k < S; ++k)
            if (s[k].l)
            {
                int id = s[k].id;
                PV_CHECK(s[k].fn() == id, "after %s the function obtained earlier from loader %d of plugin %d is another one", what, k, id);
                PV_CHECK((*s[k].l->load<int()>("ident"))() == id, "after %s loader %d of plugin %d yields the function of another library", what, k, id);
            }
    };
    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({5, 4, 4, 3, 2});
        int k = (int)r.range(0, S - 1);
        int id = (int)r.range(0, L - 1);
        char what[200];
        if (op == 0 || (op >= 2 && op <= 3 && !s[k].l))
        {
            s[k].l.reset();
            if (s[k].id >= 0) { --refs[s[k].file]; s[k].id = -1; }
            size_t how = r.range(0, 7);
            std::string path;
            int file;
            std::string n = std::to_string(id);
            switch (how)
            {
            default: path = auxdir() + "/plug" + n + ".so"; file = id; break;
            case 1: path = "plug" + n + ".so"; file = id; break;               // search path
            case 2: path = dir + "/p " + n + "%s.so.1"; file = 16 + id; break;
            case 3: path = dir + "/link" + n; file = 16 + id; break;           // same file as 2
            case 4: path = dir + "/d" + n + "/libsame.so"; file = 32 + id; break;
            case 6: path = "./plug" + std::to_string((id + L - 1) % L) + ".so"; file = 48 + id; break;
            case 7: path = "sub/../plug" + std::to_string((id + L - 1) % L) + ".so"; file = 48 + id; break;
            case 5: path = dir + "/d" + std::to_string((id + 1) % L) + "/../d" + n + "/./libsame.so"; file = 32 + id; break;
            }
            snprintf(what, sizeof what, "load %d:%s", k, how == 0 ? ("aux/plug" + n).c_str() : how == 1 || how > 5 ? path.c_str() : path.substr(dir.size()).c_str());
            s[k].l = std::make_unique<cppev::dynamic_loader>(path);
            s[k].fn = s[k].l->load<int()>("ident");
            s[k].id = id;
            s[k].file = file;
            if (refs[file]++ == 0) { state[file] = id * 1000; if (was[file]) ++reload; was[file] = true; }
        }
        else if (op == 1)
        {
            if (s[k].l) { s[k].l.reset(); --refs[s[k].file]; s[k].id = -1; }
            snprintf(what, sizeof what, "destroy %d", k);
        }
        else if (op == 2)
        {
            int a = (int)r.range(-1000, 1000), b = (int)r.range(-1000, 1000);
            id = s[k].id;
            snprintf(what, sizeof what, "call %d", k);
            PV_CHECK((*s[k].l->load<int(int, int)>("add"))(a, b) == a + b + id * 100000, "add of plugin %d is wrong", id);
            PV_CHECK((*s[k].l->load<int(int)>("only_" + std::to_string(id)))(a) == a * 31 + id, "only_%d is wrong", id);
            PV_CHECK((*s[k].l->load<long(long)>("ident_long_name_with_prefix_ident"))(b) == b - id, "long name of plugin %d is wrong", id);
            PV_CHECK((*s[k].l->load<int()>("bump"))() == ++state[s[k].file], "the state of plugin %d is not its own", id);
        }
        else if (op == 3)
        {
            // a name the library does not export: also one another plugin has
            id = s[k].id;
            static const char *missing[] = {"no_such_function_zz", "", "Ident", "iden", "ident ", "only_"};
            size_t m = r.range(0, 8);
            std::string name = m < 6 ? missing[m] : "only_" + std::to_string((id + 1 + r.range(0, L - 2)) % L);
            snprintf(what, sizeof what, "missing %d:%s", k, name.c_str());
            bool thrown = false;
            try { s[k].l->load<int()>(name); } catch (const std::exception &) { thrown = true; }
            PV_CHECK(thrown, "plugin %d does not export '%s' but a function was returned", id, name.c_str());
            ++errors;
        }
        else
        {
            static const char *bad[] = {"/nonexistent.so", "/a directory", "/empty.so", "/text.so"};
            size_t m = r.range(0, 4);
            std::string path = m < 4 ? dir + bad[m] : "no_such_library_pv.so";
            snprintf(what, sizeof what, "bad %s", m < 4 ? bad[m] : path.c_str());
            bool thrown = false;
            try { cppev::dynamic_loader x(path); } catch (const std::exception &) { thrown = true; }
            PV_CHECK(thrown, "loading %s was not reported as an error", path.c_str());
            ++errors;
        }
        cx().log("%s; ", what);
        verify(what);
    }
    for (int k = 0; k < S; ++k)
        if (s[k].l) { s[k].l.reset(); --refs[s[k].file]; s[k].id = -1; }
    verify("the end");
    for (int i = 0; i < L; ++i) PV_CHECK(loaded[i] == 0, "plugin %d is still loaded after its last loader was destroyed", i);
    if (errors) cx().label("with errors");
    if (maxlive > 2) cx().label("more than two files at once");
    if (reload) cx().label("loaded again after being given up");
    cx().nontrivial(maxlive > 1);
}
Reg r1({"loader-model", "histories of creating loaders (by path, odd path, relative path, link, search path rather than the directory one works in), calling, asking for missing names, loading broken files and destroying, 6 plugins exporting the same names in 24 files, against a reference-count model; non-trivial: two or more files loaded at once",
        1, 7, 1, 40, 200000, 3000000, INPROC, 20, body});
}
