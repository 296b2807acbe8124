// C01: buffers against a byte-string model.
#include "engine.h"
#include "cppev/buffer.h"
#include <sanitizer/asan_interface.h>
#include <memory>
#include <optional>
using namespace pv;
using cppev::buffer;

namespace
{
const int N = 4;
struct Slot
{
    std::unique_ptr<buffer> b;
    std::string m;
    int floor = 0;   // capacity it must still have been given
    bool moved = false;
};

void check(Slot &s, int k, const char *after)
{
    if (!s.b) return;
    const buffer &cb = *s.b;
    buffer &b = *s.b;
    PV_CHECK(b.size() == (int)s.m.size(), "buffer %d size() is %d after %s, expected %zu", k, b.size(), after, s.m.size());
    PV_CHECK(b.capacity() >= b.size(), "buffer %d capacity %d below its size %d after %s", k, b.capacity(), b.size(), after);
    PV_CHECK(b.capacity() >= s.floor, "buffer %d capacity %d below the %d asked for, after %s", k, b.capacity(), s.floor, after);
    std::string got = b.get_string(-1, false);
    PV_CHECK(got == s.m, "buffer %d holds %s after %s, expected %s", k, show(got).c_str(), after, show(s.m).c_str());
    PV_CHECK(b.size() == (int)s.m.size(), "buffer %d: a peek changed the size", k);
    if (!s.m.empty())
    {
        PV_CHECK(memcmp(b.rawbuf(), s.m.data(), s.m.size()) == 0, "buffer %d rawbuf() differs after %s", k, after);
        PV_CHECK(memcmp(cb.rawbuf(), s.m.data(), s.m.size()) == 0, "buffer %d const rawbuf() differs after %s", k, after);
        for (size_t i = 0; i < s.m.size(); i += 1 + i / 16)
            PV_CHECK(cb[i] == s.m[i] && b[i] == s.m[i], "buffer %d [%zu] differs after %s", k, i, after);
        PV_CHECK(cb[s.m.size() - 1] == s.m.back(), "buffer %d last byte differs after %s", k, after);
    }
    const char *end = cb.rawbuf() ? cb.rawbuf() + cb.size() : nullptr;
    if (end && cb.size() < cb.capacity() && !__asan_address_is_poisoned(end))
        PV_CHECK(*end == 0, "buffer %d: the byte after the content is %d, not NUL, after %s", k, *end, after);
}

void body(const Case &c)
{
    Slot s[N];
    Src h(c.hdr);
    // three size regimes
    static const int lim[] = {12, 300, 5000, 70000};
    int big = lim[h.weighted({5, 4, 2, 1})];
    s[0].b = std::make_unique<buffer>();
    int consumed = 0, grown = 0, moves = 0;
    for (auto &w : c.ops)
    {
        Src r(w);
        size_t op = r.weighted({2, 9, 5, 5, 5, 4, 3, 1, 4, 2, 2, 2, 2, 1});
        int i = (int)r.weighted({5, 2, 1, 1}), j = (int)r.range(0, N - 1);
        Slot &a = s[i], &b = s[j];
        std::string what;
        if (op == 0 || !a.b)
        {
            int cap = (int)r.skew(1, big);
            int dflt = r.chance(1, 4);
            if (r.chance(1, 16))
            {
                // less than a byte is refused
                int none = -(int)r.skew(0, big);
                bool thrown = false;
                try { buffer x(none); }
                catch (const std::exception &) { thrown = true; }
                PV_CHECK(thrown, "a buffer of capacity %d was made", none);
            }
            a.b = dflt ? std::make_unique<buffer>() : std::make_unique<buffer>(cap);
            a.m.clear();
            a.floor = dflt ? 0 : cap;
            a.moved = false;
            what = "construct(" + std::to_string(cap) + ")";
        }
        else if (op == 1 || op == 2)
        {
            int n = (int)r.skew(0, big);
            // land exactly on the capacity now and then
            if (r.chance(1, 6) && a.b->capacity() - a.b->size() > 0 && a.b->capacity() < 100000) n = a.b->capacity() - a.b->size();
            std::string d = bytes(r.word(), n, r.chance(1, 3) ? Alpha::nul : Alpha::any);
            int cap0 = a.b->capacity();
            if (op == 1) { std::string exact(d); exact.shrink_to_fit(); a.b->produce(exact.data(), n); }
            else a.b->put_string(d);
            a.m += d;
            if (a.b->capacity() > cap0) ++grown;
            what = (op == 1 ? "produce(" : "put_string(") + std::to_string(n) + ")";
        }
        else if (op == 3)
        {
            int n = (int)r.range(0, a.m.size());
            if (r.chance(1, 5)) n = (int)a.m.size();
            bool all = r.chance(1, 5), rm = r.chance(3, 4), dfl = r.chance(1, 6);
            if (all || dfl) n = -1;
            if (dfl) rm = true;
            std::string got = dfl ? a.b->get_string() : a.b->get_string(n, rm);
            std::string exp = n == -1 ? a.m : a.m.substr(0, n);
            what = "get_string(" + std::to_string(n) + "," + (rm ? "true" : "false") + ")";
            PV_CHECK(got == exp, "%s returned %s, expected %s", what.c_str(), show(got).c_str(), show(exp).c_str());
            if (rm) { a.m.erase(0, exp.size()); if (!a.m.empty()) ++consumed; }
        }
        else if (op == 4)
        {
            int n = (int)r.range(0, a.m.size());
            if (r.chance(1, 5)) n = -1;
            a.b->consume(n);
            a.m.erase(0, n == -1 ? std::string::npos : n);
            if (!a.m.empty() && n) ++consumed;
            what = "consume(" + std::to_string(n) + ")";
        }
        else if (op == 5) { a.b->tiny(); what = "tiny"; }
        else if (op == 6)
        {
            int n = (int)r.skew(0, big * 2);
            a.b->resize(n);
            a.floor = std::max(a.floor, n);
            what = "resize(" + std::to_string(n) + ")";
        }
        else if (op == 7) { a.b->clear(); a.m.clear(); what = "clear"; }
        else if (op == 8)
        {
            if (a.m.empty()) continue;
            int k = (int)r.range(0, a.m.size() - 1);
            char ch = (char)r.word();
            (*a.b)[k] = ch;
            a.m[k] = ch;
            what = "write";
        }
        else if (op == 9)
        {
            auto nb = std::make_unique<buffer>(*a.b);
            b.m = a.m;
            b.floor = 0;
            b.b = std::move(nb);
            what = "copy-construct " + std::to_string(i) + "->" + std::to_string(j);
        }
        else if (op == 10)
        {
            if (!b.b) continue;
            *b.b = *a.b;   // self too
            if (i != j) { b.m = a.m; b.floor = 0; }
            what = "copy-assign " + std::to_string(i) + "->" + std::to_string(j);
        }
        else if (op == 11)
        {
            if (i == j) continue;
            b.b = std::make_unique<buffer>(std::move(*a.b));
            b.m = a.m; a.m.clear(); b.floor = a.floor; a.floor = 0;
            ++moves;
            what = "move-construct " + std::to_string(i) + "->" + std::to_string(j);
        }
        else if (op == 12)
        {
            if (i == j || !b.b) continue;
            *b.b = std::move(*a.b);
            b.m = a.m; a.m.clear(); b.floor = a.floor; a.floor = 0;
            ++moves;
            what = "move-assign " + std::to_string(i) + "->" + std::to_string(j);
        }
        else
        {
            if (i == j || !b.b) continue;
            std::swap(*a.b, *b.b);
            std::swap(a.m, b.m);
            std::swap(a.floor, b.floor);
            ++moves;
            what = "swap " + std::to_string(i) + "," + std::to_string(j);
        }
        cx().log("%d:%s ", i, what.c_str());
        for (int k = 0; k < N; ++k) check(s[k], k, what.c_str());
    }
    cx().label(big == 12 ? "tiny sizes" : big == 300 ? "small sizes" : big == 5000 ? "medium sizes" : "large sizes");
    if (consumed) cx().label("partial consume");
    if (grown) cx().label("grown while filled");
    if (moves) cx().label("moved");
    cx().nontrivial(consumed && grown);
}
Reg r1({"buffer-model", "1-50 random operations on 4 buffers compared after every step with byte strings, ASan+UBSan; non-trivial: some operation partly consumed a buffer and some append made one grow",
        1, 11, 1, 50, 500000, 8000000, INPROC, 20, body});
}
