// Prints results of pure functions of zpp_bits, one JSON line each, for Funcs.tla.
#pragma once
#include "zpp_bits.h"
#include <array>
#include <bit>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <string>
#include <type_traits>
#include <vector>

namespace fn
{
inline FILE * file;

template <typename T>
constexpr auto bytes_of(const T & x)
{
    return std::bit_cast<std::array<unsigned char, sizeof(T)>>(x);
}

inline void bytes(const char * key, const auto & range)
{
    std::fprintf(file, ",\"%s\":[", key);
    bool first = true;
    for (auto b : range) {
        std::fprintf(file, first ? "%u" : ",%u", unsigned((unsigned char)b));
        first = false;
    }
    std::fputc(']', file);
}
inline void num(const char * key, long long n) { std::fprintf(file, ",\"%s\":%lld", key, n); }
inline void begin(const char * f) { std::fprintf(file, "{\"f\":\"%s\"", f); }
inline void end() { std::fputs("}\n", file); }
inline void raw(const char * text) { std::fputs(text, file); }

// an id or a digest: the bytes of an integer or of an array
template <typename T>
void id_value(const T & x)
{
    if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
        bytes("r", bytes_of(x));
        num("int", 1);
    } else {
        bytes("r", x);
        num("int", 0);
    }
}

template <typename T>
using be = zpp::bits::numbers::big_endian<T>;

template <typename T>
void big_endian_lines(std::ifstream & in)
{
    unsigned long long a64, b64;
    unsigned k;
    while (in >> a64 >> b64 >> k) {
        T a = T(a64), b = T(b64);
        auto line = [&](const char * op, auto r, bool shift) {
            static_assert(std::same_as<decltype(r), be<T>>);
            begin("be");
            std::fprintf(file, ",\"op\":\"%s\"", op);
            bytes("a", bytes_of(a));
            if (shift) {
                num("b", k);
            } else {
                bytes("b", bytes_of(b));
            }
            bytes("mem", bytes_of(r));
            end();
        };
        be<T> x{a}, y{b};
        k %= sizeof(T) * 8;
        line("add", x + y, false);
        auto z = x;
        z += y;
        line("add", z, false);
        line("and", x & y, false);
        line("or", x | y, false);
        line("xor", x ^ y, false);
        line("not", ~x, false);
        line("shl", x << k, true);
        line("shr", x >> k, true);
        line("shl", x << int(k), true);
        line("shr", x >> int(k), true);
        line("shl", x << std::size_t(k), true);
        line("shr", x >> std::size_t(k), true);
        if (k) {
            line("rotl", (x << k) | (x >> (sizeof(T) * 8 - k)), true);
        }

        begin("becmp");
        bytes("a", bytes_of(a));
        bytes("b", bytes_of(b));
        num("r", x < y ? -1 : x > y ? 1 : 0);
        num("eq", x == y);
        end();

        begin("bemake");
        bytes("a", bytes_of(a));
        bytes("mem", bytes_of(x));
        std::vector<std::byte> data;
        zpp::bits::out{data}(x).or_throw();
        bytes("ser", data);
        be<T> back{};
        zpp::bits::in{data}(back).or_throw();
        bytes("back", bytes_of(back));
        end();
    }
}

template <typename T>
void varint_lines(std::ifstream & in)
{
    begin("vmax");
    num("n", sizeof(T));
    num("r", zpp::bits::varint_max_size<T>);
    end();
    unsigned long long x;
    while (in >> x) {
        T v = T(x);
        begin("vsize");
        num("z", 0);
        bytes("a", bytes_of(v));
        num("r", zpp::bits::varint_size(v));
        end();
        if constexpr (std::is_signed_v<T>) {
            begin("vsize");
            num("z", 1);
            bytes("a", bytes_of(v));
            num("r", zpp::bits::varint_size<zpp::bits::varint_encoding::zig_zag>(v));
            end();
        }
    }
}
} // namespace fn
