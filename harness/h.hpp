// Conformance executor: drives the real zpp::bits with scripted sessions and
// records what it does as traces for the TLA+ specification to judge.
#pragma once
#ifndef VF_REPO_HEADER
#define VF_REPO_HEADER "zpp_bits.h"
#endif
#include VF_REPO_HEADER
#include <algorithm>
#include <array>
#include <bitset>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <new>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

// ---------------------------------------------------------------- counting
namespace vf
{
inline long live_allocs = 0;
inline std::size_t max_alloc = 0;
inline bool counting = false;
inline void * vf_new(std::size_t n)
{
    if (counting && n > max_alloc) {
        max_alloc = n;
    }
    if (counting && n > (std::size_t(1) << 26)) {
        throw std::bad_alloc{};
    }
    void * p = std::malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc{};
    }
    ++live_allocs;
    return p;
}
inline void vf_delete(void * p)
{
    if (p) {
        --live_allocs;
        std::free(p);
    }
}
} // namespace vf
void * operator new(std::size_t n) { return vf::vf_new(n); }
void * operator new[](std::size_t n) { return vf::vf_new(n); }
void operator delete(void * p) noexcept { vf::vf_delete(p); }
void operator delete[](void * p) noexcept { vf::vf_delete(p); }
void operator delete(void * p, std::size_t) noexcept { vf::vf_delete(p); }
void operator delete[](void * p, std::size_t) noexcept { vf::vf_delete(p); }

namespace vf
{
// -------------------------------------------------------------------- JSON
struct J
{
    enum kind_t { NUM, STR, ARR, OBJ } k = NUM;
    long long n = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J * find(const char * key) const
    {
        for (auto & p : o) {
            if (p.first == key) {
                return &p.second;
            }
        }
        return nullptr;
    }
    const J & operator[](const char * key) const
    {
        static const J none{};
        auto p = find(key);
        return p ? *p : none;
    }
    const J & operator[](std::integral auto i) const { return a.at(std::size_t(i)); }
    std::size_t size() const { return a.size(); }
};

inline void ws(const char *& p)
{
    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') {
        ++p;
    }
}
inline J parse(const char *& p)
{
    J r;
    ws(p);
    if (*p == '{') {
        r.k = J::OBJ;
        ++p;
        ws(p);
        while (*p != '}') {
            J key = parse(p);
            ws(p);
            ++p; // :
            r.o.emplace_back(key.s, parse(p));
            ws(p);
            if (*p == ',') {
                ++p;
            }
            ws(p);
        }
        ++p;
    } else if (*p == '[') {
        r.k = J::ARR;
        ++p;
        ws(p);
        while (*p != ']') {
            r.a.push_back(parse(p));
            ws(p);
            if (*p == ',') {
                ++p;
            }
            ws(p);
        }
        ++p;
    } else if (*p == '"') {
        r.k = J::STR;
        ++p;
        while (*p != '"') {
            r.s += *p++;
        }
        ++p;
    } else {
        char * e = nullptr;
        r.n = std::strtoll(p, &e, 10);
        if (e == p) {
            std::fprintf(stderr, "bad json at %.40s\n", p);
            std::exit(3);
        }
        p = e;
    }
    return r;
}

// Output goes to a shared memory area, so that it survives a crash.
inline char * g_out = nullptr;
inline std::size_t g_cap = 0;
inline constexpr std::size_t most_of_one = 3 << 20;
struct shared_t
{
    std::size_t len;     // bytes of output
    std::size_t session; // next session to run
    std::size_t pending; // length of output before the running operation
};
inline shared_t * g_sh = nullptr;

inline void put(std::string_view s)
{
    // an operation that reports this much made an object it never should have
    if ((g_sh->pending && g_sh->len + s.size() - g_sh->pending > most_of_one) ||
        g_sh->len + s.size() + 64 > g_cap) {
        std::_Exit(g_sh->pending ? 5 : 3);
    }
    std::memcpy(g_out + g_sh->len, s.data(), s.size());
    g_sh->len += s.size();
}
inline void put(char c) { put(std::string_view(&c, 1)); }
inline void num(long long n)
{
    char b[32];
    auto c = std::snprintf(b, sizeof b, "%lld", n);
    put(std::string_view(b, std::size_t(c)));
}
// counts above what TLC can hold are reported as "huge"
inline void cnt(std::size_t n) { num(n > 2000000000u ? 2000000000ll : (long long)n); }
inline void key(const char * k)
{
    put(",\"");
    put(std::string_view(k));
    put("\":");
}
inline void str(std::string_view s)
{
    put('"');
    put(s);
    put('"');
}
inline void bytes_out(const unsigned char * p, std::size_t n)
{
    put('[');
    for (std::size_t i = 0; i < n; ++i) {
        if (i) {
            put(',');
        }
        num(p[i]);
    }
    put(']');
}

// ------------------------------------------------------------------ codecs
inline const unsigned char * g_base = nullptr; // buffer under the input archive
inline std::size_t g_blen = 0;

template <typename T>
struct codec;

// types whose default constructor is private are built from a tag
struct tag
{
};
template <typename T>
T make()
{
    if constexpr (std::is_default_constructible_v<T>) {
        return T{};
    } else {
        return T(tag{});
    }
}

template <typename T>
constexpr bool is_byte_like = sizeof(T) == 1 && (std::is_arithmetic_v<T> || std::is_enum_v<T>);

using u128 = unsigned __int128;
using i128 = __int128;

template <typename T>
    requires(std::is_arithmetic_v<T> || std::is_enum_v<T> || std::same_as<T, u128> || std::same_as<T, i128>)
struct codec<T>
{
    static void get(const J & j, T & x)
    {
        if constexpr (std::same_as<T, bool>) {
            x = j.n != 0;
        } else if constexpr (sizeof(T) == 1) {
            unsigned char c = (unsigned char)j.n;
            std::memcpy(&x, &c, 1);
        } else {
            unsigned char b[sizeof(T)]{};
            for (std::size_t i = 0; i < sizeof(T); ++i) {
                b[i] = (unsigned char)j[i].n;
            }
            std::memcpy(&x, b, sizeof(T));
        }
    }
    static void put(const T & x)
    {
        unsigned char b[sizeof(T)];
        std::memcpy(b, &x, sizeof(T));
        if constexpr (sizeof(T) == 1) {
            num(b[0]);
        } else {
            bytes_out(b, sizeof(T));
        }
    }
};

template <typename T>
void get(const J & j, T & x)
{
    codec<std::remove_const_t<T>>::get(j, const_cast<std::remove_const_t<T> &>(x));
}
template <typename T>
void putv(const T & x)
{
    codec<std::remove_cvref_t<T>>::put(x);
}

template <typename T, zpp::bits::varint_encoding E>
struct codec<zpp::bits::varint<T, E>>
{
    static void get(const J & j, zpp::bits::varint<T, E> & x) { vf::get(j, x.value); }
    static void put(const zpp::bits::varint<T, E> & x) { putv(x.value); }
};

// a big endian number is judged by its memory
template <typename T>
struct codec<zpp::bits::numbers::big_endian<T>>
{
    static void get(const J & j, zpp::bits::numbers::big_endian<T> & x) { vf::get(j, x.value); }
    static void put(const zpp::bits::numbers::big_endian<T> & x) { putv(x.value); }
};

template <typename T>
void put_range(const T & x)
{
    vf::put('[');
    bool first = true;
    for (auto & e : x) {
        if (!first) {
            vf::put(',');
        }
        first = false;
        putv(e);
    }
    vf::put(']');
}

template <typename T, std::size_t N>
struct codec<T[N]>
{
    static void get(const J & j, T (&x)[N])
    {
        for (std::size_t i = 0; i < N; ++i) {
            vf::get(j[i], x[i]);
        }
    }
    static void put(const T (&x)[N]) { put_range(x); }
};
template <typename T, std::size_t N>
struct codec<std::array<T, N>>
{
    static void get(const J & j, std::array<T, N> & x)
    {
        for (std::size_t i = 0; i < N; ++i) {
            vf::get(j[i], x[i]);
        }
    }
    static void put(const std::array<T, N> & x) { put_range(x); }
};

template <typename T>
constexpr bool is_sized_item = false;
template <typename T, typename S>
constexpr bool is_sized_item<zpp::bits::sized_item<T, S>> = true;
// wrappers that derive from what they wrap
template <typename T>
concept wrapper = requires { typename T::pb_field_type; } || is_sized_item<T>;

template <typename T>
concept sequence = !wrapper<T> && (requires(T t) {
    t.clear();
    t.emplace_back();
    typename T::value_type;
} || std::same_as<T, std::string> || std::same_as<T, std::u16string> || std::same_as<T, std::wstring> ||
    std::same_as<T, std::u8string> || std::same_as<T, std::u32string>);

template <sequence T>
struct codec<T>
{
    static void get(const J & j, T & x)
    {
        x.clear();
        for (auto & e : j.a) {
            typename T::value_type v{};
            vf::get(e, v);
            x.push_back(std::move(v));
        }
    }
    static void put(const T & x) { put_range(x); }
};

template <typename T>
concept assoc = !wrapper<T> && requires(T t) {
    typename T::key_type;
    t.clear();
};
template <assoc T>
struct codec<T>
{
    static void get(const J & j, T & x)
    {
        x.clear();
        for (auto & e : j.a) {
            if constexpr (requires { typename T::mapped_type; }) {
                auto k = make<typename T::key_type>();
                auto m = make<typename T::mapped_type>();
                vf::get(e[0], k);
                vf::get(e[1], m);
                x.insert(std::pair<typename T::key_type, typename T::mapped_type>(std::move(k), std::move(m)));
            } else {
                auto v = make<typename T::key_type>();
                vf::get(e, v);
                x.insert(std::move(v));
            }
        }
    }
    static void put(const T & x) { put_range(x); }
};

template <typename A, typename B>
struct codec<std::pair<A, B>>
{
    static void get(const J & j, std::pair<A, B> & x)
    {
        vf::get(j[0], x.first);
        vf::get(j[1], x.second);
    }
    static void put(const std::pair<A, B> & x)
    {
        vf::put('[');
        putv(x.first);
        vf::put(',');
        putv(x.second);
        vf::put(']');
    }
};

template <typename Tuple>
void get_tuple(const J & j, Tuple && t)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (vf::get(j[I], std::get<I>(t)), ...);
    }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{});
}
template <typename Tuple>
void put_tuple(const Tuple & t)
{
    vf::put('[');
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I ? vf::put(',') : void(), putv(std::get<I>(t))), ...);
    }(std::make_index_sequence<std::tuple_size_v<Tuple>>{});
    vf::put(']');
}
template <typename... T>
struct codec<std::tuple<T...>>
{
    static void get(const J & j, std::tuple<T...> & x) { get_tuple(j, x); }
    static void put(const std::tuple<T...> & x) { put_tuple(x); }
};

// user types carry vf_tie(), naming their members in declaration order
template <typename T>
concept tied = !wrapper<T> && requires(T & t) { t.vf_tie(); };
template <tied T>
struct codec<T>
{
    static void get(const J & j, T & x) { get_tuple(j, x.vf_tie()); }
    static void put(const T & x) { put_tuple(const_cast<T &>(x).vf_tie()); }
};
template <typename T>
concept stateless = (!wrapper<T> && requires { requires T::vf_empty; }) || std::same_as<T, zpp::bits::pb_reserved>;
template <stateless T>
struct codec<T>
{
    static void get(const J &, T &) {}
    static void put(const T &) { vf::put("[]"); }
};
template <>
struct codec<std::monostate>
{
    static void get(const J &, std::monostate &) {}
    static void put(const std::monostate &) { vf::put("[]"); }
};

template <typename T>
struct codec<std::optional<T>>
{
    static void get(const J & j, std::optional<T> & x)
    {
        if (j.size()) {
            x.reset();
            x.emplace(make<T>());
            vf::get(j[0], *x);
        } else {
            x.reset();
        }
    }
    static void put(const std::optional<T> & x)
    {
        vf::put('[');
        if (x) {
            putv(*x);
        }
        vf::put(']');
    }
};
template <typename P, typename T>
struct ptr_codec
{
    static void get(const J & j, P & x)
    {
        if (j.size()) {
            auto p = std::make_unique<T>(make<T>());
            vf::get(j[0], *p);
            x = P(std::move(p));
        } else {
            x = P{};
        }
    }
    static void put(const P & x)
    {
        vf::put('[');
        if (x) {
            putv(*x);
        }
        vf::put(']');
    }
};
template <typename T>
struct codec<std::unique_ptr<T>> : ptr_codec<std::unique_ptr<T>, T>
{
};
template <typename T>
struct codec<std::shared_ptr<T>> : ptr_codec<std::shared_ptr<T>, T>
{
};
template <typename T>
struct codec<zpp::bits::optional_ptr<T>> : ptr_codec<zpp::bits::optional_ptr<T>, T>
{
};

// a type whose conversion throws makes a variant valueless
struct thrower
{
    operator int() const { throw 1; }
};
template <typename... T>
struct codec<std::variant<T...>>
{
    using V = std::variant<T...>;
    static void get(const J & j, V & x)
    {
        auto i = j[0].n;
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((i == (long long)I
                  ? (x.template emplace<I>(make<std::variant_alternative_t<I, V>>()),
                     vf::get(j[1], std::get<I>(x)))
                  : void()),
             ...);
        }(std::make_index_sequence<sizeof...(T)>{});
        if (i < 0) {
            make_valueless(x);
        }
    }
    static void make_valueless(V & x)
    {
        // the last alternative of such variants is constructible from thrower
        if constexpr (std::is_constructible_v<
                          std::variant_alternative_t<sizeof...(T) - 1, V>, thrower>) {
            try {
                x.template emplace<sizeof...(T) - 1>(thrower{});
            } catch (int) {
            }
        }
    }
    static void put(const V & x)
    {
        vf::put('[');
        num(x.valueless_by_exception() ? -1 : (long long)x.index());
        if (!x.valueless_by_exception()) {
            vf::put(',');
            std::visit([](auto & v) { putv(v); }, x);
        }
        vf::put(']');
    }
};
template <std::size_t N>
struct codec<std::bitset<N>>
{
    static void get(const J & j, std::bitset<N> & x)
    {
        for (std::size_t i = 0; i < N; ++i) {
            x[i] = (j[i / 8].n >> (i % 8)) & 1;
        }
    }
    static void put(const std::bitset<N> & x)
    {
        unsigned char b[(N + 7) / 8]{};
        for (std::size_t i = 0; i < N; ++i) {
            b[i / 8] = (unsigned char)(b[i / 8] | (unsigned(x[i]) << (i % 8)));
        }
        bytes_out(b, sizeof b);
    }
};

// views of constant bytes: where they point and what they show
template <typename T>
concept const_view = !wrapper<T> && requires(const T & t) {
    t.data();
    t.size();
    requires std::is_const_v<std::remove_pointer_t<decltype(t.data())>>;
    requires !requires(T u) { u.clear(); };
    requires !std::same_as<T, std::array<typename T::value_type, sizeof(T) / sizeof(typename T::value_type)>>;
};
inline std::deque<std::vector<unsigned char>> g_keep; // storage behind written views
template <const_view T>
struct codec<T>
{
    static void get(const J & j, T & x)
    {
        auto & d = j["d"];
        if (!d.size()) {
            return;
        }
        auto live = live_allocs; // this storage outlives the call: it is no leak
        auto & k = g_keep.emplace_back();
        for (auto & e : d.a) {
            k.push_back((unsigned char)e.n);
        }
        live_allocs = live;
        set(x, reinterpret_cast<decltype(x.data())>(k.data()), k.size());
    }
    template <typename P>
    static void set(T & x, P p, std::size_t n)
    {
        if constexpr (requires { T(p, n); }) {
            x = T(p, n);
        }
    }
    static void put(const T & x)
    {
        auto p = reinterpret_cast<const unsigned char *>(x.data());
        auto in = x.size() && p >= g_base && p + x.size() <= g_base + g_blen;
        vf::put("{\"a\":");
        num(in ? (long long)(p - g_base) : -1);
        vf::put(",\"d\":");
        // what a wild view shows cannot be read
        bytes_out(p, (in || written(p, x.size())) ? x.size() : 0);
        vf::put('}');
    }
    static bool written(const unsigned char * p, std::size_t n)
    {
        for (auto & k : g_keep) {
            if (n && p >= k.data() && p + n <= k.data() + k.size()) {
                return true;
            }
        }
        return false;
    }
};

// a view of mutable elements with its storage
template <typename T, typename View = std::span<T>>
struct mspan
{
    std::vector<T> store;
    View view;
};
template <typename T, typename N>
struct codec<mspan<T, N>>
{
    static void get(const J & j, mspan<T, N> & x)
    {
        x.store.clear();
        for (auto & e : j.a) {
            T v{};
            vf::get(e, v);
            x.store.push_back(v);
        }
        x.store.shrink_to_fit();
        x.view = N(x.store.begin(), x.store.end());
    }
    static void put(const mspan<T, N> & x)
    {
        auto v = x.view;
        if (v.size() > x.store.size() || (v.size() && v.data() != x.store.data())) {
            vf::put("[\"moved\"]");
            return;
        }
        put_range(v);
    }
};

template <typename T>
    requires requires { typename T::pb_field_type; }
struct codec<T>
{
    using value = typename T::pb_field_type;
    static void get(const J & j, T & x) { vf::get(j, static_cast<value &>(x)); }
    static void put(const T & x) { putv(static_cast<const value &>(const_cast<T &>(x).operator value &())); }
    static void put(const T & x)
        requires std::is_base_of_v<value, T>
    {
        putv(static_cast<const value &>(x));
    }
};
template <typename T>
    requires requires { typename T::vf_storage; }
struct codec<T>
{
    static void get(const J & j, T & x) { vf::get(j, x.storage()); }
    static void put(const T & x) { putv(const_cast<T &>(x).storage()); }
};
template <typename T, typename S>
struct codec<zpp::bits::sized_item<T, S>>
{
    static void get(const J & j, zpp::bits::sized_item<T, S> & x) { vf::get(j, static_cast<T &>(x)); }
    static void put(const zpp::bits::sized_item<T, S> & x) { putv(static_cast<const T &>(x)); }
};
template <typename T, typename S>
struct codec<zpp::bits::sized_item_ref<T, S>>
{
    static void get(const J & j, zpp::bits::sized_item_ref<T, S> & x) { vf::get(j, x.value); }
    static void put(const zpp::bits::sized_item_ref<T, S> & x) { putv(x.value); }
};

// ------------------------------------------------------------------ errors
inline const char * code_name(std::errc c)
{
    switch (c) {
    case std::errc{}: return "ok";
    case std::errc::result_out_of_range: return "range";
    case std::errc::no_buffer_space: return "nospace";
    case std::errc::value_too_large: return "toolarge";
    case std::errc::message_size: return "msgsize";
    case std::errc::not_supported: return "notsup";
    case std::errc::bad_message: return "badmsg";
    case std::errc::invalid_argument: return "inval";
    case std::errc::protocol_error: return "proto";
    default: return "other";
    }
}

// ----------------------------------------------------------------- buffers
// A growing buffer that notes what is asked of it.  New bytes are garbage:
// nothing may rely on them.
template <typename Byte>
struct tracked
{
    using value_type = Byte;
    using iterator = Byte *;
    using const_iterator = const Byte *;
    std::vector<Byte> v;
    std::size_t max_asked = 0;
    std::size_t max_reserved = 0;
    void resize(std::size_t n)
    {
        max_asked = std::max(max_asked, n);
        if (n > (std::size_t(1) << 26)) {
            throw std::bad_alloc{};
        }
        v.resize(n, Byte(0xAA));
        v.shrink_to_fit();
    }
    void reserve(std::size_t n) { max_reserved = std::max(max_reserved, n); }
    void clear() { v.clear(); }
    std::size_t size() const { return v.size(); }
    Byte * data() { return v.data(); }
    const Byte * data() const { return v.data(); }
    Byte & operator[](std::size_t i) { return v[i]; }
    const Byte & operator[](std::size_t i) const { return v[i]; }
    auto begin() { return v.data(); }
    auto end() { return v.data() + v.size(); }
    auto begin() const { return v.data(); }
    auto end() const { return v.data() + v.size(); }
};

template <typename B>
constexpr bool is_tracked = requires(B b) { b.max_asked; };

template <typename B>
void load_bytes(B & b, const J & j)
{
    using byte = std::remove_cvref_t<decltype(*b.data())>;
    if constexpr (requires { b.resize(std::size_t{}); }) {
        if constexpr (is_tracked<B>) {
            b.v.assign(j.size(), byte{});
            b.v.shrink_to_fit();
            b.max_asked = 0;
        } else {
            b.resize(j.size());
        }
    }
    for (std::size_t i = 0; i < j.size() && i < b.size(); ++i) {
        b.data()[i] = byte((unsigned char)j[i].n);
    }
}

// A fixed buffer between guard areas: touching them is an error under ASan,
// and their content is compared as well.
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" void __asan_poison_memory_region(void const volatile *, std::size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, std::size_t);
inline void poison(const void * p, std::size_t n) { __asan_poison_memory_region(p, n); }
inline void unpoison(const void * p, std::size_t n) { __asan_unpoison_memory_region(p, n); }
#else
inline void poison(const void *, std::size_t) {}
inline void unpoison(const void *, std::size_t) {}
#endif
inline constexpr std::size_t guard = 64;
template <typename Byte>
struct guarded_block
{
    Byte * block = nullptr;
    std::size_t n = 0;
    void lock()
    {
        poison(block, guard);
        poison(block + guard + n, guard);
    }
    void unlock() { unpoison(block, n + 2 * guard); }
    void allocate(std::size_t size)
    {
        release();
        n = size;
        block = static_cast<Byte *>(std::malloc(n + 2 * guard));
        std::memset(static_cast<void *>(block), 0xC5, n + 2 * guard);
        lock();
    }
    void release()
    {
        if (block) {
            unlock();
            std::free(block);
        }
        block = nullptr;
    }
    ~guarded_block() { release(); }
    bool intact()
    {
        unlock();
        bool r = true;
        for (std::size_t i = 0; i < guard; ++i) {
            r = r && block[i] == Byte(0xC5) && block[guard + n + i] == Byte(0xC5);
        }
        lock();
        return r;
    }
    Byte * data() { return block + guard; }
    std::size_t size() const { return n; }
    void load(const J & j, std::size_t size)
    {
        allocate(size);
        for (std::size_t i = 0; i < size; ++i) {
            data()[i] = i < j.size() ? Byte((unsigned char)j[i].n) : Byte(0);
        }
    }
};
template <typename Byte>
struct arena : guarded_block<Byte>
{
    void load(const J & j) { guarded_block<Byte>::load(j, j.size()); }
};
template <typename Byte, std::size_t N>
struct array_arena : guarded_block<Byte>
{
    void load(const J & j) { guarded_block<Byte>::load(j, N); }
    std::array<Byte, N> & array() { return *reinterpret_cast<std::array<Byte, N> *>(this->data()); }
    Byte (&carray())[N] { return *reinterpret_cast<Byte (*)[N]>(this->data()); }
};

// ---------------------------------------------------------------- executor
struct ctx_t
{
    std::vector<unsigned char> last; // buffer as last reported
    bool reported = false;
};

struct nothing
{
};

template <typename F>
const char * guarded(F && f, bool throwing, bool & threw)
{
    try {
        std::errc c{};
        zpp::bits::errc r = f();
        if (throwing) {
            try {
                r.or_throw();
            } catch (const std::exception & e) {
                threw = true;
                if (auto s = dynamic_cast<const std::system_error *>(&e)) {
                    c = std::errc(s->code().value());
                    if (s->code().category() != std::generic_category()) {
                        return "badcategory";
                    }
                    if (c != r.code) {
                        return "differs";
                    }
                }
            }
        }
        c = r.code;
        if (zpp::bits::success(r) == zpp::bits::failure(r) ||
            zpp::bits::success(r) != (c == std::errc{}) || zpp::bits::success(r.code) != zpp::bits::success(r)) {
            return "inconsistent";
        }
        return code_name(c);
    } catch (const std::bad_alloc &) {
        return "exc:alloc";
    } catch (const std::exception &) {
        return "exc";
    } catch (...) {
        return "exc";
    }
}

// Calls are generated types with load(J), save(), w(out), cw(out), r(in).
template <typename Call, typename Out>
void do_write(const J & e, Out & out, const char *& er, bool & threw)
{
    Call c{};
    c.load(e["v"]);
    key("v"); // in the order in which the containers iterate
    auto from = g_sh->len;
    c.save();
    auto to = g_sh->len;
    bool th = e["th"].n != 0;
    if constexpr (requires { Call::constable; }) {
        if (e["c"].n == 1) {
            er = guarded([&] { return std::as_const(c).w(out); }, th, threw);
            return;
        }
    }
    if constexpr (requires { Call::temporary; }) {
        if (e["c"].n == 2) {
            er = guarded([&] { return std::move(c).rw(out); }, th, threw);
            return;
        }
    }
    er = guarded([&] { return c.w(out); }, th, threw);
    // writing leaves the object as it was
    auto end = g_sh->len;
    c.save();
    bool same = g_sh->len - end == to - from && !std::memcmp(g_out + from, g_out + end, to - from);
    g_sh->len = end;
    if (!same) {
        key("ch");
        num(1);
    }
}

template <typename Call, typename In>
void do_read(const J & e, In & in, const char *& er, bool & threw)
{
    auto live = live_allocs;
    {
        Call c{};
        c.load(e["v"]);
        key("v");
        c.save();
        max_alloc = 0;
        counting = true;
        er = guarded([&] { return c.r(in); }, e["th"].n != 0, threw);
        counting = false;
        key("nv");
        c.save();
        if constexpr (requires { c.after(); }) {
            c.after();
        }
    }
    live = threw ? 0 : live_allocs - live; // an exception keeps its message
    key("al");
    cnt(max_alloc);
    key("lk");
    num(live);
}

#ifndef VF_BASE
#define VF_BASE 0
#endif
#define VF_SIZE(n, ...) static_assert(sizeof(__VA_ARGS__) == n)
template <typename Out>
using writer = void (*)(const J &, Out &, const char *&, bool &);
template <typename In>
using reader = void (*)(const J &, In &, const char *&, bool &);

template <typename Arch>
void report_positions(const char * k, Arch & a)
{
    if constexpr (!std::same_as<Arch, nothing>) {
        key(k);
        cnt(std::as_const(a).position());
    }
}

template <typename Arch>
void seek(const J & e, Arch & a)
{
    if constexpr (!std::same_as<Arch, nothing>) {
        auto & m = e["m"].s;
        auto n = std::size_t(e["n"].n);
        if (m == "reset0") {
            a.reset();
        } else if (m == "reset") {
            a.reset(n);
        } else if (m == "set") {
            a.position() = n;
        } else if (m == "add") {
            a.position() += n;
        } else if (m == "sub") {
            a.position() -= n;
        } else if (m == "move") {
            // an archive that is moved goes on where it was
            if constexpr (std::is_move_constructible_v<Arch>) {
                Arch t(std::move(a));
                std::destroy_at(std::addressof(a));
                std::construct_at(std::addressof(a), std::move(t));
            }
        }
    }
}

template <typename Arch, typename Buf>
void query(const char * who, Arch & a, Buf & b)
{
    if constexpr (!std::same_as<Arch, nothing>) {
        auto off = [&](auto s) {
            auto p = reinterpret_cast<const unsigned char *>(s.data());
            put('[');
            num(s.size() || p ? (long long)(p - reinterpret_cast<const unsigned char *>(b.data())) : 0);
            put(',');
            cnt(s.size());
            put(']');
        };
        key(who);
        put("{\"pos\":");
        cnt(a.position());
        put(",\"done\":");
        off(a.processed_data());
        put(",\"rest\":");
        off(a.remaining_data());
        put(",\"data\":[");
        auto && d = a.data();
        num(d.size() ? (long long)(reinterpret_cast<const unsigned char *>(d.data()) -
                                   reinterpret_cast<const unsigned char *>(b.data()))
                     : 0);
        put(',');
        cnt(d.size());
        put("],\"kind\":");
        str(Arch::kind() == zpp::bits::kind::in ? "in" : "out");
        put('}');
    }
}

template <typename Buf>
void report_buffer(ctx_t & cx, Buf & b)
{
    auto p = reinterpret_cast<const unsigned char *>(b.data());
    auto n = b.size();
    if (!cx.reported || cx.last.size() != n || !std::equal(cx.last.begin(), cx.last.end(), p)) {
        cx.last.assign(p, p + n);
        cx.reported = true;
        key("b");
        bytes_out(p, n);
    }
}

template <typename Calls>
struct table;
template <typename... C>
struct table<std::tuple<C...>>
{
    template <typename Out>
    static writer<Out> w(std::size_t i)
    {
        static constexpr writer<Out> t[] = {[] {
            if constexpr (requires { C::writable; }) {
                return writer<Out>(&do_write<C, Out>);
            } else {
                return writer<Out>(nullptr);
            }
        }()...};
        return t[i];
    }
    template <typename In>
    static reader<In> r(std::size_t i)
    {
        static constexpr reader<In> t[] = {[] {
            if constexpr (requires { C::readable; }) {
                return reader<In>(&do_read<C, In>);
            } else {
                return reader<In>(nullptr);
            }
        }()...};
        return t[i];
    }
};

inline void begin_event(const J & e, bool & first)
{
    if (!first) {
        put(',');
    }
    first = false;
    g_sh->pending = g_sh->len;
    put("{\"o\":");
    str(e["o"].s);
    for (auto k : {"t", "n", "c", "th"}) {
        if (auto p = e.find(k)) {
            key(k);
            num(p->n);
        }
    }
    for (auto k : {"m", "a"}) {
        if (auto p = e.find(k)) {
            key(k);
            str(p->s);
        }
    }
}
inline void put_json(const J & j)
{
    if (j.k == J::NUM) {
        num(j.n);
    } else if (j.k == J::STR) {
        str(j.s);
    } else if (j.k == J::ARR) {
        put('[');
        for (std::size_t i = 0; i < j.size(); ++i) {
            if (i) {
                put(',');
            }
            put_json(j[i]);
        }
        put(']');
    } else {
        put('{');
        for (std::size_t i = 0; i < j.o.size(); ++i) {
            if (i) {
                put(',');
            }
            str(j.o[i].first);
            put(':');
            put_json(j.o[i].second);
        }
        put('}');
    }
}

// Runs the events of one session against the archives of one configuration.
template <typename Calls, typename Out, typename In, typename Buf, typename Intact>
void drive(const J & s, ctx_t & cx, Out & out, In & in, Buf & buf, Intact intact, bool & first)
{
    {
        J e;
        e.o.emplace_back("o", J{J::STR, 0, "new", {}, {}});
        begin_event(e, first);
        report_positions("op", out);
        report_positions("ip", in);
        if constexpr (is_tracked<Buf>) {
            key("rs");
            cnt(buf.max_reserved);
        }
        report_buffer(cx, buf);
        put('}');
    }
    for (auto & e : s["ev"].a) {
        begin_event(e, first);
        auto & o = e["o"].s;
        const char * er = "";
        bool threw = false;
        if (o == "w") {
            if constexpr (!std::same_as<Out, nothing>) {
                if constexpr (is_tracked<Buf>) {
                    buf.max_asked = 0;
                }
                if (auto f = table<Calls>::template w<Out>(std::size_t(e["t"].n) - VF_BASE)) {
                    f(e, out, er, threw);
                }
                if constexpr (is_tracked<Buf>) {
                    key("mx");
                    cnt(buf.max_asked);
                }
            }
        } else if (o == "r") {
            g_base = reinterpret_cast<const unsigned char *>(buf.data());
            g_blen = buf.size();
            if constexpr (!std::same_as<In, nothing>) {
                if (auto f = table<Calls>::template r<In>(std::size_t(e["t"].n) - VF_BASE)) {
                    f(e, in, er, threw);
                }
            }
        } else if (o == "s") {
            if (e["a"].s == "out") {
                seek(e, out);
            } else {
                seek(e, in);
            }
        } else if (o == "poke") {
            auto & d = e["d"];
            auto n = std::size_t(e["n"].n);
            key("d");
            put_json(d);
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*buf.data())>>) {
            for (std::size_t i = 0; i < d.size() && n + i < buf.size(); ++i) {
                buf.data()[n + i] =
                    std::remove_cvref_t<decltype(*buf.data())>((unsigned char)d[i].n);
            }
            }
        } else if (o == "q") {
            query("qo", out, buf);
            query("qi", in, buf);
        }
        if (*er) {
            key("er");
            str(er);
            if (e["th"].n) {
                key("threw");
                num(threw);
            }
        }
        report_positions("op", out);
        report_positions("ip", in);
        report_buffer(cx, buf);
        if (!intact()) {
            key("cn");
            num(0);
        }
        put('}');
        g_keep.clear();
    }
}

using runner = void (*)(const J &, ctx_t &, bool &);
struct runner_entry
{
    int cfg;
    runner run;
};

inline std::string slurp(const char * f)
{
    std::string r;
    auto fp = std::fopen(f, "rb");
    if (!fp) {
        std::perror(f);
        std::exit(3);
    }
    char b[65536];
    while (auto n = std::fread(b, 1, sizeof b, fp)) {
        r.append(b, n);
    }
    std::fclose(fp);
    return r;
}

// argv: script output.  One session per line in both.
inline int run_main(int argc, char ** argv, runner_entry const * runners)
{
    if (argc < 3) {
        return 3;
    }
    auto text = slurp(argv[1]);
    std::vector<const char *> lines;
    for (std::size_t i = 0; i < text.size();) {
        lines.push_back(text.data() + i);
        auto e = text.find('\n', i);
        if (e == std::string::npos) {
            break;
        }
        text[e] = 0;
        i = e + 1;
    }
    g_cap = text.size() * 24 + (std::size_t(64) << 20);
    g_out = static_cast<char *>(
        mmap(nullptr, g_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_sh = static_cast<shared_t *>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (g_out == MAP_FAILED || g_sh == MAP_FAILED) {
        return 3;
    }
    int crashes = 0;
    while (g_sh->session < lines.size()) {
        auto pid = fork();
        if (pid < 0) {
            return 3;
        }
        if (!pid) {
            auto null = open("/dev/null", O_WRONLY);
            if (!std::getenv("VF_DEBUG")) {
                dup2(null, 2);
            }
            while (g_sh->session < lines.size()) {
                alarm(8);
                auto p = lines[g_sh->session];
                J s = parse(p);
                put("{\"id\":");
                num(s["id"].n);
                key("cfg");
                num(s["cfg"].n);
                key("b0");
                put_json(s["buf"]);
                key("ev");
                put('[');
                g_sh->pending = 0;
                ctx_t cx;
                bool first = true;
                auto r = runners;
                while (r->run && r->cfg != s["cfg"].n) {
                    ++r;
                }
                if (!r->run) {
                    std::_Exit(3);
                }
                r->run(s, cx, first);
                put("]}\n");
                g_sh->pending = 0;
                ++g_sh->session;
            }
            std::_Exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
            return 3;
        }
        if (g_sh->session < lines.size()) {
            // the running operation never returned
            const bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
            if (g_sh->pending) {
                g_sh->len = g_sh->pending;
            }
            put(hang ? "{\"o\":\"hang\"}]}\n" : "{\"o\":\"crash\"}]}\n");
            g_sh->pending = 0;
            ++g_sh->session;
            crashes += hang ? 6 : 1;
            if (crashes > 36) {
                break;
            }
        }
    }
    auto fp = std::fopen(argv[2], "wb");
    if (!fp) {
        return 3;
    }
    std::fwrite(g_out, 1, g_sh->len, fp);
    std::fclose(fp);
    return 0;
}
} // namespace vf
