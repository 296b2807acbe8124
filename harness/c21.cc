// C21: string helpers against reference implementations and their algebra.
#include "engine.h"
#include "cppev/utils.h"
#include <algorithm>
using namespace pv;

namespace
{
std::vector<std::string> ref_split(const std::string &s, const std::string &sep)
{
    std::vector<std::string> v;
    size_t p = 0;
    for (;;)
    {
        size_t q = s.find(sep, p);
        if (q == std::string::npos) { v.push_back(s.substr(p)); return v; }
        v.push_back(s.substr(p, q - p));
        p = q + sep.size();
    }
}
std::string ref_join(const std::vector<std::string> &v, const std::string &sep)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += sep; s += v[i]; }
    return s;
}
std::string ref_l(std::string s, const std::string &c)
{
    size_t p = 0;
    while (s.size() - p >= c.size() && s.compare(p, c.size(), c) == 0) p += c.size();
    return s.substr(p);
}
std::string ref_r(std::string s, const std::string &c)
{
    while (s.size() >= c.size() && s.compare(s.size() - c.size(), c.size(), c) == 0) s.resize(s.size() - c.size());
    return s;
}
std::string showv(const std::vector<std::string> &v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size() && i < 12; ++i) o += (i ? "," : "") + show(v[i], 40);
    if (v.size() > 12) o += ",...(" + std::to_string(v.size()) + ")";
    return o + "]";
}

template <typename F> bool throws(F f)
{
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}

// a text made of whole pieces, broken pieces and filler
std::string text(const Case &c, const std::string &piece, size_t from, size_t n, Alpha a)
{
    std::string s;
    for (size_t i = from; i < from + n && i < c.ops.size(); ++i)
    {
        Src r(c.ops[i]);
        size_t k = r.weighted({4, 3, 3, 1, 1});
        uint32_t x = r.word();
        int rep = (int)r.range(1, 3);
        if (k == 0) for (int q = 0; q < rep; ++q) s += piece;
        else if (k == 1) s += bytes(x, x % 4, a);
        else if (k == 2 && !piece.empty()) s += piece.substr(0, x % piece.size());
        else if (k == 3 && !piece.empty()) s += piece.substr(x % piece.size());
        else if (k == 4) s += bytes(x, r.skew(0, 600), a);
    }
    return s;
}

void body(const Case &c)
{
    Src h(c.hdr);
    static const Alpha al[] = {Alpha::small, Alpha::nul, Alpha::any};
    Alpha a = al[h.weighted({4, 2, 1})];
    size_t plen = h.weighted({0, 5, 4, 3, 1, 1});
    if (h.chance(1, 30)) plen = (size_t)h.range(6, 200);
    std::string piece = bytes(h.word(), plen, a);
    if (h.chance(1, 5) && plen) piece.assign(plen, piece[0]);   // aa, aaa: overlaps with itself
    std::string s = text(c, piece, 0, c.ops.size(), a);
    if (s.size() > 60000) s.resize(60000);
    cx().log("piece=%s s=%s", show(piece).c_str(), show(s, 200).c_str());

    auto parts = cppev::split(s, piece), rp = ref_split(s, piece);
    PV_CHECK(parts == rp, "split(%s, %s) gave %s, expected %s", show(s).c_str(), show(piece).c_str(), showv(parts).c_str(), showv(rp).c_str());
    std::string back = cppev::join(parts, piece);
    PV_CHECK(back == s, "join(split(s, sep), sep) gave %s for s = %s", show(back).c_str(), show(s).c_str());

    // joining an arbitrary list
    std::vector<std::string> list;
    for (size_t i = 0; i < c.ops.size(); i += 2) list.push_back(text(c, piece, i, 1 + i % 3, a));
    if (h.chance(1, 6)) list.assign(h.range(0, 3), "");
    std::string glue = h.chance(1, 6) ? "" : piece;
    std::string j = cppev::join(list, glue), rj = ref_join(list, glue);
    PV_CHECK(j == rj, "join(%s, %s) gave %s, expected %s", showv(list).c_str(), show(glue).c_str(), show(j).c_str(), show(rj).c_str());

    std::string l = cppev::lstrip(s, piece), rl = ref_l(s, piece);
    PV_CHECK(l == rl, "lstrip(%s, %s) gave %s, expected %s", show(s).c_str(), show(piece).c_str(), show(l).c_str(), show(rl).c_str());
    std::string rr = cppev::rstrip(s, piece), rrr = ref_r(s, piece);
    PV_CHECK(rr == rrr, "rstrip(%s, %s) gave %s, expected %s", show(s).c_str(), show(piece).c_str(), show(rr).c_str(), show(rrr).c_str());
    std::string st = cppev::strip(s, piece);
    // where the two runs overlap either end may come first
    std::string s1 = ref_r(ref_l(s, piece), piece), s2 = ref_l(ref_r(s, piece), piece);
    PV_CHECK(st == s1 || st == s2, "strip(%s, %s) gave %s, expected %s", show(s).c_str(), show(piece).c_str(), show(st).c_str(), show(s1).c_str());
    PV_CHECK(cppev::strip(st, piece) == ref_r(ref_l(st, piece), piece) , "strip of a stripped text");

    PV_CHECK(throws([&] { cppev::split(s, ""); }), "split with an empty separator was accepted");
    PV_CHECK(throws([&] { cppev::strip(s, ""); }), "strip with an empty piece was accepted");
    PV_CHECK(throws([&] { cppev::lstrip(s, ""); }), "lstrip with an empty piece was accepted");
    PV_CHECK(throws([&] { cppev::rstrip(s, ""); }), "rstrip with an empty piece was accepted");
    if (rp.size() > 1) cx().label("separator occurs");
    if (rl.size() < s.size()) cx().label("left run");
    if (rrr.size() < s.size()) cx().label("right run");
    if (s1 != s2) cx().label("runs overlap");
    if (s.size() < piece.size()) cx().label("text shorter than piece");
    if (s == piece) cx().label("text is the piece");
    if (list.empty()) cx().label("empty list");
    cx().nontrivial(rp.size() > 1 || rl.size() < s.size());
}
Reg r1({"strings", "random texts built from whole, broken and repeated copies of a random piece over small, NUL-holding and full alphabets; split, join and the strips compared with reference implementations; non-trivial: the piece occurs in the text",
        12, 5, 0, 14, 800000, 20000000, INPROC, 20, body});

// every text up to a length over two letters with every piece up to three
void tiny(const Case &c)
{
    Src h(c.hdr);
    size_t n = h.range(0, 9), m = h.range(1, 3);
    uint32_t x = h.word(), y = h.word();
    std::string s, p;
    for (size_t i = 0; i < n; ++i) s += "ab"[(x >> i) & 1];
    for (size_t i = 0; i < m; ++i) p += "ab"[(y >> i) & 1];
    cx().log("s=%s p=%s", s.c_str(), p.c_str());
    auto v = cppev::split(s, p);
    PV_CHECK(v == ref_split(s, p), "split(%s, %s) gave %s", s.c_str(), p.c_str(), showv(v).c_str());
    PV_CHECK(cppev::join(v, p) == s, "join(split(%s, %s))", s.c_str(), p.c_str());
    PV_CHECK(cppev::lstrip(s, p) == ref_l(s, p), "lstrip(%s, %s) gave %s", s.c_str(), p.c_str(), cppev::lstrip(s, p).c_str());
    PV_CHECK(cppev::rstrip(s, p) == ref_r(s, p), "rstrip(%s, %s) gave %s", s.c_str(), p.c_str(), cppev::rstrip(s, p).c_str());
    std::string st = cppev::strip(s, p);
    PV_CHECK(st == ref_r(ref_l(s, p), p) || st == ref_l(ref_r(s, p), p), "strip(%s, %s) gave %s", s.c_str(), p.c_str(), st.c_str());
    cx().nontrivial(v.size() > 1);
}
Reg r2({"strings-tiny", "texts up to 9 letters and pieces up to 3 over {a,b}, drawn often enough to cover nearly all of the 14322 pairs; non-trivial: the piece occurs",
        4, 1, 0, 0, 400000, 4000000, INPROC, 20, tiny});
}
