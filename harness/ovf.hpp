// Writes into a resizable buffer that claims to be nearly as long as a machine
// word can count; only the bytes around the position exist.
#pragma once
#include "fn.hpp"
#include <cstring>

namespace ovf
{
using word = std::size_t;
inline unsigned char arena[512];
inline word origin;          // the position that arena + 128 is
inline std::vector<word> resizes;

struct buffer
{
    using value_type = std::byte;
    word m_size{};
    std::byte * data()
    {
        return reinterpret_cast<std::byte *>(reinterpret_cast<std::uintptr_t>(arena) + 128 - origin);
    }
    const std::byte * data() const { return const_cast<buffer *>(this)->data(); }
    word size() const { return m_size; }
    void resize(word n)
    {
        resizes.push_back(n);
        m_size = n;
    }
    std::byte & operator[](word i) { return data()[i]; }
    std::byte * begin() { return data(); }
    std::byte * end() { return data() + m_size; }
};

template <std::size_t N>
using item = std::array<std::byte, N>;

struct config
{
    int M, D, fit;
    word lim;
};

template <typename Make, typename... Items>
void one(config c, Make make, word size, word position, const Items &... items)
{
    std::memset(arena, 0, sizeof(arena));
    resizes.clear();
    origin = position;
    buffer b{size};
    auto out = make(b);
    out.position() = position;
    auto result = out(items...);
    bool ok = zpp::bits::success(result);
    fn::begin("grow");
    fn::num("M", c.M);
    fn::num("D", c.D);
    fn::num("fit", c.fit);
    fn::bytes("lim", fn::bytes_of(c.lim));
    fn::bytes("s", fn::bytes_of(size));
    fn::bytes("p", fn::bytes_of(position));
    fn::raw(",\"ns\":[");
    std::size_t k = 0, total = 0;
    ((fn::raw(k++ ? "," : ""), std::fprintf(fn::file, "%zu", sizeof(items)), total += sizeof(items)), ...);
    fn::raw("]");
    fn::num("ok", ok);
    fn::num("ec", static_cast<std::errc>(result) == std::errc::no_buffer_space);
    word p2 = out.position();
    fn::bytes("p2", fn::bytes_of(p2));
    fn::bytes("s2", fn::bytes_of(b.m_size));
    fn::raw(",\"rs\":[");
    k = 0;
    for (auto r : resizes) {
        fn::raw(k++ ? "," : "");
        fn::raw("[");
        for (std::size_t i = 0; i < 8; ++i) {
            std::fprintf(fn::file, i ? ",%u" : "%u", unsigned((r >> (8 * i)) & 255));
        }
        fn::raw("]");
    }
    fn::raw("]");
    // what was written is where it belongs, and nothing else is touched
    unsigned char expect[sizeof(arena)] = {};
    std::size_t at = 128, left = std::size_t(p2 - position);
    auto place = [&](const auto & x) {
        if (left >= sizeof(x)) {
            std::memcpy(expect + at, &x, sizeof(x));
            at += sizeof(x);
            left -= sizeof(x);
        }
    };
    (place(items), ...);
    fn::num("out", std::memcmp(expect, arena, sizeof(arena)) != 0);
    fn::end();
}

template <std::size_t N>
item<N> filled(unsigned char from)
{
    item<N> x;
    for (auto & b : x) {
        b = std::byte(from++);
    }
    return x;
}

template <typename Make>
void all(config c, Make make, std::ifstream & in)
{
    word size, position;
    unsigned how;
    while (in >> size >> position >> how) {
        switch (how % 9) {
        case 0: one(c, make, size, position, filled<1>(7)); break;
        case 1: one(c, make, size, position, filled<3>(9)); break;
        case 2: one(c, make, size, position, filled<32>(1)); break;
        case 3: one(c, make, size, position, std::uint32_t(0x12345678)); break;
        case 4: one(c, make, size, position, std::uint64_t(0x123456789abcdef1)); break;
        case 5: one(c, make, size, position, std::uint8_t(3), filled<16>(5)); break;
        case 6: one(c, make, size, position, filled<5>(5), std::uint16_t(5)); break;
        case 7: one(c, make, size, position, 'a', std::uint64_t(77), filled<2>(5)); break;
        case 8: one(c, make, size, position, std::array<std::uint16_t, 5>{1, 2, 3, 4, 5}); break;
        }
    }
}
} // namespace ovf
