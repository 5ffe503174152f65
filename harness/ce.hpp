// Sessions that can run in a constant expression: scripts and logs are arrays of numbers.
#ifndef VF_CE_HPP
#define VF_CE_HPP
#include "zpp_bits.h"
#include <array>
#include <bit>
#include <bitset>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#if defined(_LIBCPP_VERSION)
#define VF_SIZE(n, ...) static_assert(sizeof(__VA_ARGS__) == n)
#else
#define VF_SIZE(n, ...) static_assert(sizeof(__VA_ARGS__) > 0)
#endif
namespace vf
{
struct tag
{
};
} // namespace vf
namespace ce
{
template <typename Byte>
struct store // what stands behind written views
{
    std::array<Byte, 400> d{};
    std::size_t n{};
};
struct input
{
    const int * p;
    store<std::byte> * b;
    store<char> * c;
    store<unsigned char> * u;
    constexpr int next() { return *p++; }
    template <typename Byte>
    constexpr store<Byte> & where()
    {
        if constexpr (std::same_as<Byte, std::byte>) {
            return *b;
        } else if constexpr (std::same_as<Byte, char>) {
            return *c;
        } else {
            return *u;
        }
    }
};
template <typename Byte>
struct output
{
    int * d;
    int n, cap;
    const Byte * base;
    std::size_t blen;
    constexpr void put(int x)
    {
        if (n < cap) {
            d[n] = x;
        }
        ++n;
    }
};

template <typename T>
concept tied = requires(T & t) { t.vf_tie(); };
template <typename T>
concept stateless = requires { requires T::vf_empty; } || std::same_as<T, zpp::bits::pb_reserved> || std::same_as<T, std::monostate>;
template <typename T>
concept field = requires { typename T::pb_field_type; };
template <typename T>
concept sizedwrap = requires { typename T::vf_never; };
template <typename T>
struct is_varint : std::false_type
{
};
template <typename T, zpp::bits::varint_encoding E>
struct is_varint<zpp::bits::varint<T, E>> : std::true_type
{
};
template <typename T>
struct is_optional : std::false_type
{
};
template <typename T>
struct is_optional<std::optional<T>> : std::true_type
{
};
template <typename T>
struct is_variant : std::false_type
{
};
template <typename... T>
struct is_variant<std::variant<T...>> : std::true_type
{
};
template <typename T>
struct is_tuple : std::false_type
{
};
template <typename... T>
struct is_tuple<std::tuple<T...>> : std::true_type
{
};
template <typename A, typename B>
struct is_tuple<std::pair<A, B>> : std::true_type
{
};
template <typename T>
struct is_fixed : std::is_bounded_array<T>
{
};
template <typename T, std::size_t N>
struct is_fixed<std::array<T, N>> : std::true_type
{
};
template <std::size_t N>
struct uint_of;
template <>
struct uint_of<1>
{
    using type = std::uint8_t;
};
template <>
struct uint_of<2>
{
    using type = std::uint16_t;
};
template <>
struct uint_of<4>
{
    using type = std::uint32_t;
};
template <>
struct uint_of<8>
{
    using type = std::uint64_t;
};

template <typename T>
constexpr void get(input & in, T & x);
template <typename B, typename T>
constexpr void put(output<B> & out, const T & x);

template <std::size_t I, typename V>
constexpr void get_alternative(input & in, int i, V & x)
{
    if constexpr (I < std::variant_size_v<V>) {
        if (std::size_t(i) == I) {
            if (x.index() != I) {
                x.template emplace<I>();
            }
            get(in, *std::get_if<I>(&x));
        } else {
            get_alternative<I + 1>(in, i, x);
        }
    }
}
template <std::size_t I, typename B, typename V>
constexpr void put_alternative(output<B> & out, const V & x)
{
    if constexpr (I < std::variant_size_v<V>) {
        if (x.index() == I) {
            put(out, *std::get_if<I>(&x));
        } else {
            put_alternative<I + 1>(out, x);
        }
    }
}

template <typename T>
constexpr void get(input & in, T & x)
{
    if constexpr (stateless<T>) {
    } else if constexpr (std::same_as<T, bool>) {
        x = in.next() != 0;
    } else if constexpr (std::is_enum_v<T> || std::is_arithmetic_v<T>) {
        typename uint_of<sizeof(T)>::type v{};
        for (std::size_t i = 0; i < sizeof(T); ++i) {
            v = decltype(v)(v | (decltype(v)(in.next()) << (8 * i)));
        }
        x = std::bit_cast<T>(v);
    } else if constexpr (is_varint<T>::value) {
        get(in, x.value);
    } else if constexpr (field<T>) {
        get(in, static_cast<typename T::pb_field_type &>(x));
    } else if constexpr (tied<T>) {
        std::apply([&](auto &... y) { (get(in, y), ...); }, x.vf_tie());
    } else if constexpr (is_fixed<T>::value) {
        for (auto & y : x) {
            get(in, y);
        }
    } else if constexpr (is_tuple<T>::value) {
        std::apply([&](auto &... y) { (get(in, y), ...); }, x);
    } else if constexpr (is_optional<T>::value) {
        if (in.next()) {
            x.emplace();
            get(in, *x);
        } else {
            x.reset();
        }
    } else if constexpr (is_variant<T>::value) {
        get_alternative<0>(in, in.next(), x);
    } else if constexpr (requires { x.clear(); x.emplace_back(); } || requires { x.clear(); x.push_back({}); }) {
        x.clear();
        auto n = in.next();
        for (int i = 0; i < n; ++i) {
            typename T::value_type y{};
            get(in, y);
            x.push_back(std::move(y));
        }
    } else { // a view of constant bytes
        in.next();
        auto n = in.next();
        auto & s = in.template where<std::remove_cvref_t<decltype(*x.data())>>();
        auto at = s.n;
        for (int i = 0; i < n; ++i) {
            get(in, s.d[s.n++]);
        }
        if constexpr (requires { T(s.d.data(), std::size_t(n)); }) {
            if (n) {
                x = T(s.d.data() + at, std::size_t(n));
            }
        }
    }
}

template <typename B, typename T>
constexpr void put(output<B> & out, const T & x)
{
    if constexpr (stateless<T>) {
    } else if constexpr (std::same_as<T, bool>) {
        out.put(x);
    } else if constexpr (std::is_enum_v<T> || std::is_arithmetic_v<T>) {
        auto v = std::bit_cast<typename uint_of<sizeof(T)>::type>(x);
        for (std::size_t i = 0; i < sizeof(T); ++i) {
            out.put(int((v >> (8 * i)) & 255));
        }
    } else if constexpr (is_varint<T>::value) {
        put(out, x.value);
    } else if constexpr (field<T>) {
        using value = typename T::pb_field_type;
        if constexpr (std::is_base_of_v<value, T>) {
            put(out, static_cast<const value &>(x));
        } else {
            put(out, static_cast<const value &>(const_cast<T &>(x).operator value &()));
        }
    } else if constexpr (tied<T>) {
        std::apply([&](auto &... y) { (put(out, y), ...); }, const_cast<T &>(x).vf_tie());
    } else if constexpr (is_fixed<T>::value) {
        for (auto & y : x) {
            put(out, y);
        }
    } else if constexpr (is_tuple<T>::value) {
        std::apply([&](auto &... y) { (put(out, y), ...); }, x);
    } else if constexpr (is_optional<T>::value) {
        out.put(x.has_value());
        if (x) {
            put(out, *x);
        }
    } else if constexpr (is_variant<T>::value) {
        out.put(int(x.index()));
        put_alternative<0>(out, x);
    } else if constexpr (requires { x.emplace_back(); } || requires(T & y) { y.clear(); }) {
        out.put(int(x.size()));
        for (auto & y : x) {
            put(out, y);
        }
    } else {
        int at = -1;
        if (x.size() && x.size() <= out.blen) {
            for (std::size_t i = 0; i + x.size() <= out.blen && at < 0; ++i) {
                if (x.data() == out.base + i) {
                    at = int(i);
                }
            }
        }
        out.put(at);
        out.put(int(x.size()));
        for (auto & y : x) {
            put(out, y);
        }
    }
}

constexpr int code(std::errc c)
{
    switch (c) {
    case std::errc{}: return 0;
    case std::errc::result_out_of_range: return 1;
    case std::errc::no_buffer_space: return 2;
    case std::errc::value_too_large: return 3;
    case std::errc::message_size: return 4;
    case std::errc::not_supported: return 5;
    case std::errc::bad_message: return 6;
    case std::errc::invalid_argument: return 7;
    case std::errc::protocol_error: return 8;
    default: return 9;
    }
}

template <typename Buf>
constexpr const int * load(Buf & b, const int * p)
{
    auto n = std::size_t(*p++);
    if constexpr (requires { b.resize(n); }) {
        b.resize(n);
    }
    for (std::size_t i = 0; i < n; ++i) {
        b.data()[i] = std::remove_cvref_t<decltype(*b.data())>((unsigned char)*p++);
    }
    return p;
}
template <typename T, std::size_t N>
struct carray
{
    T a[N]{};
    constexpr T * data() { return a; }
    constexpr std::size_t size() const { return N; }
};

struct nothing
{
    constexpr std::size_t position() const { return 0; }
};

// script: 1 call value.. (write) | 2 call value.. (read) | 3 archive how number | 4 index byte (poke) | 0 (end)
// log: per event  code  op ip  size bytes..  [value before, value after]
template <typename Calls, typename Out, typename In, typename Buf>
constexpr int drive(const int * p, Out & out, In & in, Buf & buf, int * log, int cap)
{
    using Byte = std::remove_cvref_t<decltype(*buf.data())>;
    output<Byte> l{log, 0, cap, nullptr, 0};
    auto after = [&](int c) {
        l.put(c);
        l.put(int(std::as_const(out).position()));
        l.put(int(std::as_const(in).position()));
        l.put(int(buf.size()));
        for (std::size_t i = 0; i < buf.size(); ++i) {
            l.put(int((unsigned char)buf.data()[i]));
        }
    };
    after(0);
    while (auto o = *p++) {
        if (o == 1 || o == 2) {
            store<std::byte> b;
            store<char> c;
            store<unsigned char> u;
            input i{p + 1, &b, &c, &u};
            auto one = [&]<typename Call>(Call) {
                Call x{};
                x.load(i);
                int r = 0;
                if (o == 1) {
                    if constexpr (!std::same_as<Out, nothing> && Call::writable) {
                        r = code(x.w(out));
                    }
                } else {
                    if constexpr (!std::same_as<In, nothing> && Call::readable) {
                        l.base = buf.data();
                        l.blen = buf.size();
                        r = code(x.r(in));
                    }
                }
                after(r);
                if (o == 2) {
                    x.save(l);
                }
            };
            auto t = *p;
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                ((t == int(I) ? one(std::tuple_element_t<I, Calls>{}) : void()), ...);
            }(std::make_index_sequence<std::tuple_size_v<Calls>>{});
            p = i.p;
        } else if (o == 3) {
            auto who = *p++, how = *p++, n = *p++;
            auto seek = [&](auto & a) {
                if constexpr (!std::same_as<std::remove_cvref_t<decltype(a)>, nothing>) {
                    if (how == 0) {
                        a.reset();
                    } else if (how == 1) {
                        a.reset(std::size_t(n));
                    } else if (how == 2) {
                        a.position() = std::size_t(n);
                    } else if (how == 3) {
                        a.position() += std::size_t(n);
                    } else {
                        a.position() -= std::size_t(n);
                    }
                }
            };
            if (who) {
                seek(out);
            } else {
                seek(in);
            }
            after(0);
        } else {
            auto at = *p++, v = *p++;
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*buf.data())>>) {
                buf.data()[at] = Byte((unsigned char)v);
            }
            after(0);
        }
    }
    return l.n;
}

template <std::size_t N>
struct log
{
    std::array<int, N> d{};
    int n{};
};

inline void show(std::FILE * f, int id, const char * how, const int * d, int n, int cap)
{
    std::fprintf(f, "{\"id\":%d,\"how\":\"%s\",\"n\":%d,\"log\":[", id, how, n);
    for (int i = 0; i < n && i < cap; ++i) {
        std::fprintf(f, i ? ",%d" : "%d", d[i]);
    }
    std::fprintf(f, "]}\n");
}
} // namespace ce
#endif
