// Property-based testing engine shared by every check in /verif.
//
// A case is a plain table of numbers: a header and a list of fixed-width
// operations.  rapidcheck generates and shrinks that table; a harness decodes
// it through Src, so that one textual replay file per failing case re-runs it
// without the library.
#ifndef PV_ENGINE_H
#define PV_ENGINE_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

namespace pv
{

typedef std::vector<uint32_t> Words;

struct Case
{
    Words hdr;
    std::vector<Words> ops;
};

inline uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

extern bool tape_short;

// Decodes a word list.  Missing words read as 0 and 0 always means the
// simplest choice, which is what makes shrinking useful.
class Src
{
public:
    explicit Src(const Words &w) : w_(&w) {}
    uint32_t word()
    {
        if (i_ < w_->size()) return (*w_)[i_++];
        if (!w_->empty()) tape_short = true;   // the spec should ask for more words
        return 0;
    }
    // uniform in [lo, hi]
    long long range(long long lo, long long hi)
    {
        uint32_t x = word();
        if (hi <= lo) return lo;
        unsigned long long span = (unsigned long long)(hi - lo) + 1;
        return lo + (long long)(span ? x % span : x);
    }
    // small values are likely, up to hi reachable: picks a magnitude first
    long long skew(long long lo, long long hi)
    {
        uint32_t m = word(), v = word();
        if (hi <= lo) return lo;
        unsigned long long span = (unsigned long long)(hi - lo);
        int bits = 0;
        while (bits < 63 && (span >> bits)) ++bits;
        int b = (int)(m % (bits + 1));
        unsigned long long mask = (b == 0) ? 0 : ((1ull << b) - 1);
        uint64_t s = v;
        unsigned long long r = (v == 0) ? 0 : (splitmix(s) & mask);
        if (v && (m >> 16) % 8 == 1) r = mask;                // 2^k - 1
        if (v && (m >> 16) % 8 == 2) r = mask + 1;            // 2^k
        if (r > span) r = span;
        return lo + (long long)r;
    }
    bool chance(uint32_t num, uint32_t den) { return word() % den >= den - num; }
    size_t weighted(std::initializer_list<uint32_t> ws)
    {
        uint32_t t = 0;
        for (auto x : ws) t += x;
        uint32_t x = word() % t;
        size_t i = 0;
        for (auto v : ws)
        {
            if (x < v) return i;
            x -= v;
            ++i;
        }
        return 0;
    }
    template <typename C> auto pick(const C &c) -> decltype(c[0])
    {
        return c[word() % c.size()];
    }
private:
    const Words *w_;
    size_t i_ = 0;
};

// deterministic bytes from a seed word
enum class Alpha { any, text, small, nul };
std::string bytes(uint64_t seed, size_t n, Alpha a = Alpha::any);
std::string show(const std::string &s, size_t max = 64);   // C-escaped
uint64_t hash(const std::string &s);

struct CaseFail : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct CaseSkip
{
};

// State of the running case.
class Ctx
{
public:
    // first failure wins; usable from any thread
    void soft_fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void label(const std::string &s);
    void nontrivial(bool on = true) { nontrivial_ = nontrivial_ || on; }
    // appended to the decoded text of the case (distinctness, samples)
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    bool failed() const { return failed_; }
    void reset();
    bool failed_ = false;
    bool nontrivial_ = false;
    bool verbose_ = false;
    std::string msg_;
    std::string text_;
    std::vector<std::string> labels_;
};
Ctx &cx();

#define PV_CHECK(cond, ...)                                       \
    do                                                            \
    {                                                             \
        if (!(cond)) ::pv::cx().fail(__VA_ARGS__);                \
    } while (0)

enum Mode
{
    INPROC,  // run in the worker; a crash is re-run forked to shrink it
    FORKED   // one child process per case
};
enum Flags
{
    // the oracle is a safety fact about one execution: one observation decides
    // even if a replay of the same case takes another interleaving
    CONCLUSIVE = 1,
    // a forked case starts the program afresh (a copy would lack threads, which ThreadSanitizer cannot stand)
    EXEC = 2,
};

struct Spec
{
    const char *name;
    const char *rule;        // how cases are made / what is non-trivial
    int hdr, oplen, minops, maxops;
    uint64_t quick, thorough; // cases over all workers
    Mode mode;
    double timeout;           // seconds, forked cases: then quiescence check
    std::function<void(const Case &)> body;
    int flags = 0;
};
void add_spec(const Spec &s);
// a recorded finding: true if the defect shows on this tree
void add_finding(const char *name, std::function<bool(std::string &)> fn);
struct Reg
{
    explicit Reg(const Spec &s) { add_spec(s); }
};

int worker_id();
uint64_t unique();              // process-wide counter
std::string scratch();          // directory of this worker, exists
std::string tag();              // per check run and worker, for ipc names
bool thorough();
std::string self_dir();         // directory of the running binary

// run fn in a forked child with the same containment as FORKED cases;
// empty string if it ended well, else what happened.  fn fails through cx().
std::string in_child(double timeout, const std::function<void()> &fn);

// end a forked case at once, from any thread, with what the context holds
[[noreturn]] void end_case();
extern int nopreempt;

double now();                   // monotonic seconds
std::vector<int> open_fds();    // of this process

}  // namespace pv
#endif
