// C01: buffers of more than a gigabyte.
#include "engine.h"
#include "cppev/buffer.h"
#include <memory>
using namespace pv;
using cppev::buffer;

namespace
{
std::string chunk(uint32_t seed, size_t n)
{
    std::string s(n, 0);
    uint64_t x = seed;
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t r = splitmix(x);
        memcpy(&s[i], &r, std::min<size_t>(8, n - i));
    }
    return s;
}
void body(const Case &c)
{
    Src h(c.hdr);
    uint32_t seed = h.word();
    size_t head = h.skew(0, 5000), gone = head ? h.word() % head : 0;
    bool fill = h.chance(1, 3), tidy = h.chance(1, 2);
    // beyond the last power of two an int can hold
    int cap = (int)((1u << 30) + 1 + (h.chance(1, 2) ? h.range(0, 1000) : h.word() % ((1u << 30) - 100000)));
    int start = h.chance(1, 3) ? (int)h.range(1, 1 << 20) : 1;
    cx().log("buffer(%d) %zu bytes, %zu consumed,%s %s %d", start, head, gone, tidy ? " tiny," : "", fill ? "filled beyond a gigabyte" : "resize", cap);
    buffer b(start);
    std::string a = chunk(seed, head);
    b.put_string(a);
    b.consume((int)gone);
    if (tidy) b.tiny();
    a.erase(0, gone);
    if (fill)
    {
        std::string block = chunk(seed + 1, 32 << 20);
        size_t put = 0;
        while (put <= (1u << 30)) { b.produce(block.data(), (int)block.size()); put += block.size(); }
        PV_CHECK(b.size() == (int)(a.size() + put), "the buffer holds %d bytes instead of %zu", b.size(), a.size() + put);
        PV_CHECK(b.capacity() >= b.size(), "the capacity %d is below the size %d", b.capacity(), b.size());
        PV_CHECK(b.get_string((int)a.size()) == a, "the first %zu bytes differ", a.size());
        for (size_t k = 0; k < put; k += block.size())
        {
            PV_CHECK(memcmp(b.rawbuf(), block.data(), block.size()) == 0, "bytes beyond %zu differ", k);
            b.consume((int)block.size());
        }
        PV_CHECK(b.size() == 0, "%d bytes are left", b.size());
        b.put_string("once more");
        PV_CHECK(b.get_string() == "once more", "the buffer is not usable again");
    }
    else
    {
        b.resize(cap);
        PV_CHECK(b.capacity() >= cap, "the capacity is %d although %d was asked for", b.capacity(), cap);
        PV_CHECK(b.size() == (int)a.size(), "the buffer holds %d bytes instead of %zu", b.size(), a.size());
        b.rawbuf()[a.size()] = 'x';
        b.rawbuf()[cap - 1 - (tidy ? 0 : gone)] = 'y';
        b.rawbuf()[a.size()] = 0;
        PV_CHECK(b.get_string() == a, "the content differs");
    }
    cx().nontrivial(true);
}
Reg r({"gigabytes", "a buffer with a short content is made to grow beyond the last power of two an int can hold, by request or by appending; every case is non-trivial",
       10, 0, 0, 0, 8, 60, FORKED, 30, body});
}
