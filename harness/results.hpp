// Drives zpp::bits::value_or_errc and errc and records what they hold.
#pragma once
#include "h.hpp"
#include <set>

namespace vf
{
inline std::set<const void *> alive;
inline int twice = 0;
struct object
{
    explicit object(int v) : v(v) { born(); }
    object(object && o) noexcept : v(o.v)
    {
        o.v = -1;
        born();
    }
    object(const object & o) : v(o.v) { born(); }
    ~object()
    {
        v = -2;
        twice += alive.erase(this) != 1;
    }
    void born() { twice += !alive.insert(this).second; }
    int v;
};
inline int store[64];

inline constexpr std::errc codes[] = {std::errc{}, std::errc::bad_message, std::errc::result_out_of_range, std::errc::no_buffer_space, std::errc::message_size};
inline int code_number(std::error_code c)
{
    for (int i = 0; i < 5; ++i) {
        if (c == std::make_error_code(codes[i]) && c.category() == std::generic_category()) {
            return i;
        }
    }
    return -1;
}

template <typename T>
struct item;
template <>
struct item<int>
{
    static auto make(int n) { return zpp::bits::value_or_errc<int>{std::move(n)}; }
    static int number(int n) { return n; }
};
template <>
struct item<object>
{
    static auto make(int n) { return zpp::bits::value_or_errc<object>{object{n}}; }
    static int number(const object & o) { return o.v; }
};
template <>
struct item<std::unique_ptr<object>>
{
    static auto make(int n) { return zpp::bits::value_or_errc<std::unique_ptr<object>>{std::make_unique<object>(n)}; }
    static int number(const std::unique_ptr<object> & o) { return o ? o->v : -3; }
};
template <>
struct item<std::string>
{
    static auto make(int n) { return zpp::bits::value_or_errc<std::string>{std::string(std::size_t(n) * 20, 'x')}; }
    static int number(const std::string & s) { return int(s.size() / 20); }
};
template <>
struct item<int &>
{
    static auto make(int n) { store[n] = n; return zpp::bits::value_or_errc<int &>{store[n]}; }
    static int number(int & n) { return &n == store + n ? n : -4; }
};
template <>
struct item<const std::string &>
{
    static const std::string & at(int n)
    {
        static const std::string s[5] = {"", "a", "bb", "ccc", "dddd"};
        return s[n];
    }
    static auto make(int n) { return zpp::bits::value_or_errc<const std::string &>{at(n)}; }
    static int number(const std::string & s) { return &s == &at(int(s.size())) ? int(s.size()) : -4; }
};
template <typename T, typename F>
int read_out(F && f)
{
    if constexpr (std::is_void_v<T>) {
        return 1;
    } else {
        return item<T>::number(f());
    }
}

template <typename T>
void results_drive(const J & s, bool & first)
{
    using R = zpp::bits::value_or_errc<T>;
    alive.clear();
    twice = 0;
    {
        std::optional<R> slot[3];
        for (auto & e : s["ev"].a) {
            if (!first) {
                put(',');
            }
            first = false;
            g_sh->pending = g_sh->len;
            auto & o = e["o"].s;
            put("{\"o\":");
            str(o);
            for (auto k : {"s", "v", "c", "how"}) {
                if (auto q = e.find(k)) {
                    key(k);
                    put_json(*q);
                }
            }
            auto n = std::size_t(e["s"].n);
            auto & x = slot[n % 3];
            auto how = e["how"].n;
            if (o == "val") {
                x.emplace(item<T>::make(int(e["v"].n)));
            } else if (o == "err") {
                x.emplace(zpp::bits::errc{codes[e["c"].n]});
            } else if (o == "mov") {
                slot[3 - n].emplace(std::move(*x));
            } else if (o == "ask") {
                key("ok");
                num(x->success());
                key("fl");
                num(x->failure());
                key("fok");
                num(success(*x));
                key("ffl");
                num(failure(*x));
                key("er");
                num(x->failure() ? code_number(std::make_error_code(std::errc(x->error()))) : 0);
            } else if (o == "get") {
                key("got");
                num(how == 0 ? read_out<T>([&]() -> decltype(auto) { return x->value(); })
                             : read_out<T>([&]() -> decltype(auto) { return std::as_const(*x).value(); }));
            } else if (o == "take") {
                int got = 1;
                if constexpr (!std::is_void_v<T>) {
                    T y = std::move(*x).value();
                    got = item<T>::number(y);
                }
                key("got");
                num(got);
            } else if (o == "thr") {
                int got = -5, threw = 0;
                try {
                    if constexpr (std::is_void_v<T>) {
                    } else if (how == 0) {
                        decltype(auto) y = x->or_throw();
                        got = item<T>::number(y);
                    } else if (how == 1) {
                        decltype(auto) y = std::as_const(*x).or_throw();
                        got = item<T>::number(y);
                    } else {
                        T y = std::move(*x).or_throw();
                        got = item<T>::number(y);
                    }
                } catch (const std::system_error & ex) {
                    threw = code_number(ex.code());
                }
                key("got");
                num(got);
                key("threw");
                num(threw);
            } else if (o == "del") {
                x.reset();
            } else if (o == "code") {
                auto c = codes[e["c"].n];
                zpp::bits::errc z{c};
                int threw = 0;
                key("ok");
                num(zpp::bits::success(c));
                key("fl");
                num(zpp::bits::failure(c));
                key("eok");
                num(success(z));
                key("efl");
                num(failure(z));
                key("same");
                num(std::errc(z) == c && z.code == c && z == c);
                try {
                    z.or_throw();
                } catch (const std::system_error & ex) {
                    threw = code_number(ex.code());
                }
                key("threw");
                num(threw);
            }
            key("alive");
            num((long long)alive.size());
            key("twice");
            num(twice);
            put('}');
        }
    }
    if (!first) {
        put(',');
    }
    first = false;
    put("{\"o\":\"end\",\"alive\":");
    num((long long)alive.size());
    key("twice");
    num(twice);
    put('}');
}
} // namespace vf
