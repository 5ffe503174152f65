// Visits the members of objects and records what the visitor sees.
#pragma once
#include "h.hpp"

namespace vf
{
template <typename T>
inline constexpr int code_of = -1;
template <typename... T>
struct type_codes
{
    static void put()
    {
        bool first = true;
        ((first ? void() : vf::put(','), first = false, num(code_of<T>)), ...);
    }
};

template <std::size_t... I, typename... A>
bool at_places(auto && tie, std::index_sequence<I...>, const A &... a)
{
    return ((static_cast<const void *>(std::addressof(std::get<I>(tie))) == static_cast<const void *>(std::addressof(a))) && ...);
}
template <typename T>
auto tie_of(T & x)
{
    if constexpr (requires { x.vf_tie(); }) {
        return x.vf_tie();
    } else {
        return std::tuple<>{};
    }
}
template <typename T>
void log_members(const char * k, T & x)
{
    key(k);
    put_tuple(tie_of(x));
}

template <typename T>
void reflect_drive(const J & s, bool & first)
{
    T x{};
    for (auto & e : s["ev"].a) {
        if (!first) {
            put(',');
        }
        first = false;
        g_sh->pending = g_sh->len;
        auto & o = e["o"].s;
        put("{\"o\":");
        str(o);
        if (auto v = e.find("v")) {
            key("v");
            put_json(*v);
        }
        auto how = e["how"].n;
        if (o == "new") {
            get_tuple(e["v"], tie_of(x));
            log_members("x", x);
        } else if (o == "count") {
            key("n");
            put('[');
            num(zpp::bits::number_of_members<T>());
            put(',');
            num(zpp::bits::number_of_members<T &>());
            put(',');
            num(zpp::bits::number_of_members<const T &>());
            put(']');
        } else if (o == "types") {
            key("codes");
            put('[');
            auto visitor = []<typename... A>() { return [] { return std::type_identity<type_codes<A...>>{}; }; };
            using codes = typename decltype(zpp::bits::visit_members_types<T>(visitor)())::type;
            codes::put();
            put(']');
        } else if (o == "visit") {
            int calls = 0;
            bool place = true;
            key("seen");
            auto see = [&](const auto &... m) {
                ++calls;
                put('[');
                bool f = true;
                ((f ? void() : put(','), f = false, putv(m)), ...);
                put(']');
                return std::integral_constant<int, 7>{};
            };
            auto look = [&](const auto &... m) {
                if constexpr (sizeof...(m) != 0) {
                    place = at_places(tie_of(x), std::index_sequence_for<decltype(m)...>{}, m...);
                }
                return see(m...);
            };
            int ret = 0;
            if (how == 0) {
                ret = zpp::bits::visit_members(x, look);
            } else if (how == 1) {
                ret = zpp::bits::visit_members(std::as_const(x), look);
            } else if (how == 2) {
                ret = zpp::bits::visit_members(std::move(x), look);
            } else {
                int r = 5;
                // results by reference stay references
                auto & q = zpp::bits::visit_members(x, [&](auto &&... m) -> int & {
                    see(m...);
                    return r;
                });
                ret = &q == &r ? 7 : 0;
            }
            key("ret");
            num(ret == 7);
            key("calls");
            num(calls);
            key("place");
            num(place);
            log_members("x", x);
        } else if (o == "assign") {
            int calls = 0;
            zpp::bits::visit_members(x, [&](auto &... m) {
                ++calls;
                get_tuple(e["v"], std::tie(m...));
            });
            key("calls");
            num(calls);
            log_members("x", x);
        }
        put('}');
    }
}
} // namespace vf
