// C22: number and time helpers.
#include "engine.h"
#include "cppev/utils.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <numeric>
#include <sys/syscall.h>
#include <unistd.h>
using namespace pv;

namespace
{
typedef __int128 big;
const int64_t MAX = INT64_MAX;

big bgcd(big a, big b) { while (b) { big t = a % b; a = b; b = t; } return a; }
std::string shows(const std::vector<int64_t> &v)
{
    std::string o = "{";
    for (auto x : v) o += std::to_string(x) + ",";
    return o + "}";
}

void numbers(const Case &c)
{
    Src h(c.hdr);
    static const int64_t primes[] = {2, 2, 2, 3, 3, 5, 7, 11, 13, 101, 65537, 1000000007, 2147483647};
    std::vector<int64_t> v;
    size_t n = h.range(2, 7);
    bool shared = h.chance(1, 2);
    int64_t common = 1;
    if (shared)
        for (int i = 0; i < 3; ++i) { int64_t p = primes[h.word() % 9]; common *= p; }
    for (size_t i = 0; i < n; ++i)
    {
        Words dummy;
        Src r(i < c.ops.size() ? c.ops[i] : dummy);
        size_t k = r.weighted({4, 3, 2, 1});
        int64_t x = common;
        if (k == 0) { for (int q = 0; q < 5; ++q) { int64_t p = primes[r.word() % 13]; if (x <= MAX / p / 4) x *= p; } }
        else if (k == 1) x *= r.range(1, 40);
        else if (k == 2) { x = (int64_t)(((uint64_t)r.word() << 31) ^ r.word()); if (x <= 0) x = 1; }
        else x = MAX - r.range(0, 5);
        v.push_back(x);
    }
    big g = v[0], l = v[0];
    bool fits = true;
    for (auto x : v)
    {
        g = bgcd(g, x);
        if (fits) { l = l / bgcd(l, x) * x; if (l > MAX) fits = false; }
    }
    cx().log("%s gcd=%lld%s", shows(v).c_str(), (long long)g, fits ? "" : " (lcm too large)");
    int64_t gg = cppev::greatest_common_divisor(v);
    PV_CHECK(gg == (int64_t)g, "greatest_common_divisor(%s) gave %lld, expected %lld", shows(v).c_str(), (long long)gg, (long long)g);
    PV_CHECK(cppev::greatest_common_divisor(v[0], v[1]) == (int64_t)bgcd(v[0], v[1]), "greatest_common_divisor(%lld, %lld) gave %lld", (long long)v[0], (long long)v[1], (long long)cppev::greatest_common_divisor(v[0], v[1]));
    big l2 = (big)v[0] / bgcd(v[0], v[1]) * v[1];
    if (l2 <= MAX)
        PV_CHECK(cppev::least_common_multiple(v[0], v[1]) == (int64_t)l2, "least_common_multiple(%lld, %lld) gave %lld", (long long)v[0], (long long)v[1], (long long)cppev::least_common_multiple(v[0], v[1]));
    if (fits)
    {
        int64_t ll = cppev::least_common_multiple(v);
        PV_CHECK(ll == (int64_t)l, "least_common_multiple(%s) gave %lld, expected %lld", shows(v).c_str(), (long long)ll, (long long)l);
    }
    std::vector<int64_t> w = v;
    uint64_t s = h.word();
    for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[splitmix(s) % i]);
    PV_CHECK(cppev::greatest_common_divisor(w) == gg, "the gcd depends on the order: %s", shows(w).c_str());
    if (fits) PV_CHECK(cppev::least_common_multiple(w) == (int64_t)l, "the lcm depends on the order: %s", shows(w).c_str());
    if (fits) cx().label("lcm representable");
    if (g > 1) cx().label("common divisor");
    if (v.size() > 2) cx().label("more than two");
    cx().nontrivial(g > 1 && fits && v.size() > 2 && l != *std::max_element(v.begin(), v.end()));
}
Reg r1({"gcd-lcm", "lists of 2-7 positive numbers with shared prime factors up to 2^63-1 against 128-bit arithmetic and a permutation; non-trivial: more than two numbers, a common divisor above 1, lcm representable and none of the numbers",
        8, 7, 0, 7, 600000, 20000000, INPROC, 20, numbers});

// ----------------------------------------------------------- ceil_time_point

template <typename D> struct FakeClock
{
    typedef D duration;
    typedef typename D::rep rep;
    typedef typename D::period period;
    typedef std::chrono::time_point<FakeClock, D> time_point;
    static constexpr bool is_steady = false;
    static int64_t now_ns;
    static time_point now() { return time_point(std::chrono::duration_cast<D>(std::chrono::nanoseconds(now_ns))); }
};
template <typename D> int64_t FakeClock<D>::now_ns = 0;

template <typename Clock> void ceil_one(int64_t ns, const char *name)
{
    typedef typename Clock::duration D;
    typename Clock::time_point p(std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns)));
    big pn = (big)std::chrono::nanoseconds(p.time_since_epoch()).count();
    auto q = cppev::ceil_time_point<Clock>(p);
    big qn = (big)q.time_since_epoch().count() * D::period::num * 1000000000 / D::period::den;
    PV_CHECK(qn > pn && qn % 1000000000 == 0 && qn - pn <= 1000000000,
             "ceil_time_point<%s> of %lld ns gave %lld ns", name, (long long)pn, (long long)qn);
}

void ceils(const Case &c)
{
    Src h(c.hdr);
    size_t k = h.weighted({3, 3, 2, 1});
    int64_t sec = k == 0 ? h.skew(0, 9223372034ll) : k == 1 ? h.range(1500000000, 2000000000) : k == 2 ? h.range(0, 5) : 9223372034ll - h.range(0, 3);
    static const int64_t spots[] = {0, 1, 999999999, 500000000, 999, 1000, 999999, 1000000, 999999000, 999000000};
    int64_t ns = h.chance(1, 2) ? spots[h.word() % 10] : h.range(0, 999999999);
    int64_t t = sec * 1000000000 + ns;
    cx().log("%lld.%09lld", (long long)sec, (long long)ns);
    using namespace std::chrono;
    ceil_one<system_clock>(t, "system_clock");
    ceil_one<steady_clock>(t, "steady_clock");
    ceil_one<high_resolution_clock>(t, "high_resolution_clock");
    ceil_one<FakeClock<microseconds>>(t, "us clock");
    ceil_one<FakeClock<milliseconds>>(t, "ms clock");
    ceil_one<FakeClock<seconds>>(t, "s clock");
    ceil_one<FakeClock<duration<int64_t, std::ratio<1, 10000000>>>>(t, "100ns clock");
    PV_CHECK(cppev::ceil_time_point(system_clock::time_point(nanoseconds(t))) == system_clock::time_point(seconds(sec + 1)), "ceil_time_point with the default clock");
    cx().nontrivial(ns != 0);
    if (ns == 0) cx().label("whole second");
    if (sec > 4000000000ll) cx().label("far future");
    if (sec < 10) cx().label("near the epoch");
}
Reg r2({"ceil", "time points from the epoch to the end of 64-bit nanoseconds on 7 clocks of resolutions from 1 ns to 1 s; result must be a whole second, above the point, at most one second above; non-trivial: not itself a whole second",
        6, 1, 0, 0, 800000, 20000000, INPROC, 20, ceils});

// ------------------------------------------------------------- sleep_until

typedef FakeClock<std::chrono::nanoseconds> NsClock;
typedef FakeClock<std::chrono::microseconds> UsClock;
typedef FakeClock<std::chrono::milliseconds> MsClock;
bool virt = false;
uint64_t vrng = 0;
int64_t *vnow = nullptr;
int vsleeps = 0;
int early = 0;

int64_t advance(const timespec *d, bool abs)
{
    int64_t want = d->tv_sec * 1000000000ll + d->tv_nsec;
    (void)abs;
    ++vsleeps;
    uint64_t r = splitmix(vrng);
    // the system may return early (signal, coarse clock) or late
    if (r % 3 == 0 && want > 1 && vsleeps < 200) { ++early; return want / 2 + (int64_t)(r >> 8) % (want / 2 + 1) ; }
    if (r % 3 == 1) return want + (int64_t)(r >> 8) % 1000000;
    return want;
}

void sleeps(const Case &c)
{
    Src h(c.hdr);
    int64_t now0 = h.range(0, 2000000000) * 1000000000ll + h.range(0, 999999999);
    int64_t ahead = h.chance(1, 6) ? -(int64_t)h.skew(0, 5000000000ll) : (int64_t)h.skew(0, 5000000000ll);
    int64_t until = now0 + ahead;
    if (until < 0) until = 0;
    size_t k = h.range(0, 2);
    vrng = h.word();
    vsleeps = early = 0;
    cx().log("clock %zu now %lld until %+lld ns", k, (long long)now0, (long long)ahead);
    int64_t *n = k == 0 ? &NsClock::now_ns : k == 1 ? &UsClock::now_ns : &MsClock::now_ns;
    *n = now0;
    vnow = n;
    virt = true;
    if (k == 0) cppev::sleep_until<NsClock>(std::chrono::nanoseconds(until));
    else if (k == 1) cppev::sleep_until<UsClock>(std::chrono::nanoseconds(until));
    else cppev::sleep_until<MsClock>(std::chrono::nanoseconds(until));
    virt = false;
    PV_CHECK(*n >= until, "sleep_until returned %lld ns before the instant (clock resolution %s)", (long long)(until - *n), k == 0 ? "1 ns" : k == 1 ? "1 us" : "1 ms");
    PV_CHECK(*n <= std::max(until, now0) + 3000000, "sleep_until returned %lld ns after the instant", (long long)(*n - until));
    if (ahead <= 0) { PV_CHECK(vsleeps == 0 || *n - now0 < 3000000, "sleep_until slept for a past instant"); cx().label("already past"); }
    if (early) cx().label("system returned early");
    cx().nontrivial(ahead > 0);
}
Reg r3({"sleep-until", "sleep_until on a virtual clock of 1 ns, 1 us or 1 ms resolution, the sleeps returning early, exactly or late; non-trivial: the instant lies ahead",
        8, 1, 0, 0, 100000, 2000000, INPROC, 20, sleeps});

void realsleep(const Case &c)
{
    Src h(c.hdr);
    int64_t ahead = h.skew(0, 2000000);
    bool sys = h.chance(1, 2);
    cx().log("%s +%lld ns", sys ? "system" : "steady", (long long)ahead);
    using namespace std::chrono;
    if (sys)
    {
        auto t = system_clock::now() + nanoseconds(ahead);
        cppev::sleep_until(t.time_since_epoch());
        // the wall clock may be set back; nothing here does it
        PV_CHECK(system_clock::now() >= t, "sleep_until returned before the instant");
    }
    else
    {
        auto t = steady_clock::now() + nanoseconds(ahead);
        cppev::sleep_until<steady_clock>(t.time_since_epoch());
        PV_CHECK(steady_clock::now() >= t, "sleep_until<steady_clock> returned before the instant");
    }
    cx().nontrivial(ahead > 0);
}
Reg r4({"sleep-until-real", "real sleeps of up to 2 ms on the system and the steady clock; non-trivial: the instant lies ahead",
        3, 1, 0, 0, 1500, 20000, INPROC, 20, realsleep});

// -------------------------------------------------------------- timestamp

// a day of change: the n-th (5: last) Sunday of a month, and the hour of the clock then in use
struct Change { int m, n, hour; };
struct Zone { const char *tz, *abbr; int off; const char *dst = nullptr; int dstoff = 0; Change on{0, 0, 0}, back{0, 0, 0}; };
const Zone zones[] = {{"EST5EDT,M3.2.0,M11.1.0", "EST", -18000, "EDT", -14400, {3, 2, 2}, {11, 1, 2}},
    {"AEST-10AEDT,M10.1.0,M4.1.0/3", "AEST", 36000, "AEDT", 39600, {10, 1, 2}, {4, 1, 3}},
    {"CET-1CEST,M3.5.0/2,M10.5.0/3", "CET", 3600, "CEST", 7200, {3, 5, 2}, {10, 5, 3}}, {"UTC0", "UTC", 0}, {"XYZ-5:30", "XYZ", 19800}, {"ABCD8", "ABCD", -28800}, {"QQQ-14", "QQQ", 50400}, {"WWW12", "WWW", -43200}, {"NPT-5:45", "NPT", 20700}};

struct Civil { long long Y; int m, d, H, M, S, wday, yday; };
Civil civil(int64_t t)
{
    int64_t days = t / 86400, rem = t % 86400;
    if (rem < 0) { rem += 86400; --days; }
    Civil c;
    c.H = (int)(rem / 3600); c.M = (int)(rem / 60 % 60); c.S = (int)(rem % 60);
    c.wday = (int)(((days % 7) + 11) % 7);
    // count the years off one by one: obviously right
    int64_t y = 1970, d = days;
    auto leap = [](int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    int64_t cycles = d / 146097;
    y += cycles * 400; d -= cycles * 146097;
    while (d < 0) { --y; d += leap(y) ? 366 : 365; }
    while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; ++y; }
    c.Y = y; c.yday = (int)d;
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int mo = 0;
    for (;; ++mo)
    {
        int len = ml[mo] + (mo == 1 && leap(y));
        if (d < len) break;
        d -= len;
    }
    c.m = mo + 1; c.d = (int)d + 1;
    return c;
}
// the zone as it is at one instant
int64_t change(const Change &x, int64_t t, int off, int clock)
{
    Civil c = civil(t + off);
    int64_t day = (t + off - (((t + off) % 86400) + 86400) % 86400) / 86400 - c.yday;      // the first of January
    bool leap = (c.Y % 4 == 0 && c.Y % 100 != 0) || c.Y % 400 == 0;
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (int i = 1; i < x.m; ++i) day += ml[i - 1] + (i == 2 && leap);
    int len = ml[x.m - 1] + (x.m == 2 && leap), seen = 0, pick = 0;
    for (int d = 0; d < len; ++d)
        if ((((day + d) % 7) + 11) % 7 == 0 && (++seen == x.n || x.n == 5)) pick = d;
    return (day + pick) * 86400 + x.hour * 3600 - clock;
}
Zone then(const Zone &z, int64_t t)
{
    if (!z.dst) return z;
    int64_t a = change(z.on, t, z.off, z.off), b = change(z.back, t, z.off, z.dstoff);
    bool summer = a < b ? t >= a && t < b : t >= a || t < b;
    Zone r{z.tz, summer ? z.dst : z.abbr, summer ? z.dstoff : z.off};
    return r;
}
std::string two(long long v, int w = 2) { char b[40]; snprintf(b, sizeof b, "%0*lld", w, v); return b; }

std::string field(char f, const Civil &c, const Zone &z, int64_t t)
{
    static const char *wd[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
    static const char *mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    char b[64];
    switch (f)
    {
    case 'Y': return std::to_string(c.Y);
    case 'm': return two(c.m);
    case 'd': return two(c.d);
    case 'H': return two(c.H);
    case 'M': return two(c.M);
    case 'S': return two(c.S);
    case 'j': return two(c.yday + 1, 3);
    case 'u': return std::to_string(c.wday ? c.wday : 7);
    case 'w': return std::to_string(c.wday);
    case 'A': return wd[c.wday];
    case 'a': return std::string(wd[c.wday]).substr(0, 3);
    case 'B': return mn[c.m - 1];
    case 'b': return std::string(mn[c.m - 1]).substr(0, 3);
    case 'p': return c.H < 12 ? "AM" : "PM";
    case 'I': return two(c.H % 12 ? c.H % 12 : 12);
    case 'y': return two(c.Y % 100);
    case 'C': return two(c.Y / 100);
    case 'e': snprintf(b, sizeof b, "%2d", c.d); return b;
    case 'F': return std::to_string(c.Y) + "-" + two(c.m) + "-" + two(c.d);
    case 'T': return two(c.H) + ":" + two(c.M) + ":" + two(c.S);
    case 'R': return two(c.H) + ":" + two(c.M);
    case 'D': return two(c.m) + "/" + two(c.d) + "/" + two(c.Y % 100);
    case 'Z': return z.abbr;
    case 'z': { int o = z.off < 0 ? -z.off : z.off; return std::string(z.off < 0 ? "-" : "+") + two(o / 3600) + two(o / 60 % 60); }
    case 's': return std::to_string(t);
    case 'n': return "\n";
    case 't': return "\t";
    case '%': return "%";
    }
    return "";
}

int zone_set = -1;

void stamps(const Case &c)
{
    Src h(c.hdr);
    // one zone per process: the C library reads TZ once
    if (zone_set < 0)
    {
        zone_set = worker_id() % 9;
        setenv("TZ", zones[zone_set].tz, 1);
        tzset();
    }
    const Zone &base = zones[zone_set];
    size_t k = h.weighted({3, 3, 2, 1, 1, base.dst ? 3u : 0u});
    int64_t t = k == 0 ? h.range(0, 4102444800ll) : k == 1 ? h.skew(0, 4102444800ll * 60) : k == 2 ? h.range(0, 400000) * 86400ll - base.off + h.range(-1, 1) : k == 3 ? h.range(0, 3) : h.range(0, 100) * 31557600ll;
    if (k == 5)
    {
        // about the instant the clock is changed
        t = h.range(0, 4102444800ll);
        t = h.chance(1, 2) ? change(base.on, t, base.off, base.off) : change(base.back, t, base.off, base.dstoff);
        t += h.chance(1, 2) ? h.range(-2, 2) : h.range(-7300, 7300);
        cx().label("near a change of the clock");
    }
    if (t < 0) t = 0;
    const Zone z = then(base, t);
    static const char fs[] = "YmdHMSjuwAaBbpIyCeFTRDZzsnt%";
    std::string fmt, exp;
    Civil cv = civil(t + z.off);
    for (auto &w : c.ops)
    {
        Src r(w);
        if (r.chance(1, 3)) { std::string lit = bytes(r.word(), r.range(0, 6), Alpha::text); fmt += lit; exp += lit; }
        if (r.chance(1, 40)) { std::string lit(r.range(200, 2600), 'x'); fmt += lit; exp += lit; }
        if (r.chance(1, 20)) { fmt += " "; exp += " "; }
        char f = fs[r.word() % (sizeof fs - 1)];
        fmt += '%'; fmt += f;
        exp += field(f, cv, z, t);
    }
    cx().log("%s t=%lld fmt=%s", z.tz, (long long)t, show(fmt, 200).c_str());
    std::string got = cppev::timestamp(t, fmt.c_str());
    PV_CHECK(got == exp, "timestamp(%lld, %s) in zone %s gave %s, expected %s", (long long)t, show(fmt).c_str(), z.tz, show(got, 200).c_str(), show(exp, 200).c_str());
    std::string dflt = field('F', cv, z, t) + " " + field('T', cv, z, t) + " " + z.abbr;
    got = cppev::timestamp(t);
    PV_CHECK(got == dflt, "timestamp(%lld) gave %s, expected %s", (long long)t, show(got).c_str(), show(dflt).c_str());
    if (h.chance(1, 8))
    {
        // no time means now
        time_t t0 = ::time(nullptr), tc;
        bool f = h.chance(1, 2);
        tc = cppev::time();
        got = f ? cppev::timestamp(-1, "%s") : cppev::timestamp();
        // time() and the current second may differ by the coarse clock's tick
        timespec precise;
        clock_gettime(CLOCK_REALTIME, &precise);
        time_t t1 = precise.tv_sec;
        bool ok = false;
        for (time_t x = t0; x <= t1; ++x)
        {
            Zone zx = then(base, x);
            Civil cc = civil(x + zx.off);
            ok = ok || got == (f ? std::to_string(x) : field('F', cc, zx, x) + " " + field('T', cc, zx, x) + " " + zx.abbr);
        }
        PV_CHECK(ok, "timestamp of now gave %s at %lld", show(got).c_str(), (long long)t1);
        PV_CHECK(tc >= t0 && tc <= t1, "time() gave %lld between %lld and %lld", (long long)tc, (long long)t0, (long long)t1);
        cx().label("now");
    }
    if (exp.empty()) cx().label("empty rendering");
    if (exp.size() > 1000) cx().label("rendering above 1000 bytes");
    cx().nontrivial(c.ops.size() > 1);
}
Reg r5({"timestamp", "random format strings of up to 12 conversions and literals (up to several kB), times from 1970 to 2200 and far beyond, one of nine zones per worker, three of them with summer time, near its changes too, against an independent calendar; non-trivial: more than one conversion",
        9, 8, 0, 12, 150000, 4000000, INPROC, 20, stamps});
}

extern "C" int nanosleep(const timespec *d, timespec *rem)
{
    if (virt)
    {
        *vnow += advance(d, false);
        if (rem) rem->tv_sec = rem->tv_nsec = 0;
        return 0;
    }
    long r = syscall(SYS_nanosleep, d, rem);
    return (int)r;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const timespec *d, timespec *rem)
{
    if (virt)
    {
        *vnow += (flags & TIMER_ABSTIME) ? std::max<int64_t>(0, d->tv_sec * 1000000000ll + d->tv_nsec - *vnow) : advance(d, false);
        return 0;
    }
    return syscall(SYS_clock_nanosleep, id, flags, d, rem) ? errno : 0;
}
