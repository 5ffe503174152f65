// Drives zpp::bits::rpc and zpp::bits::apply with scripted sessions and records
// what the client, the server and the called functions see.
#pragma once
#include "h.hpp"

namespace vf
{
inline const J * g_ev = nullptr;      // the running event
inline int g_calls = 0;               // functions called in it
inline bool g_open = false;           // the list of calls is being written
inline void close_calls()
{
    if (g_open) {
        put(']');
    }
    g_open = false;
}
inline void open_calls()
{
    key("calls");
    put('[');
    g_open = true;
}
// What is logged inside the list of calls about other things is kept for later.
inline char g_side[1 << 20];
inline std::size_t g_side_len = 0;
template <typename F>
void aside(F && f)
{
    auto at = g_sh->len;
    f();
    auto n = g_sh->len - at;
    if (g_side_len + n > sizeof g_side) {
        std::_Exit(3);
    }
    std::memcpy(g_side + g_side_len, g_out + at, n);
    g_side_len += n;
    g_sh->len = at;
}
inline void put_asides()
{
    put(std::string_view(g_side, g_side_len));
    g_side_len = 0;
}
inline const void * g_self = nullptr; // the context object
inline const void * g_ref = nullptr;  // where a returned reference points

inline std::errc to_code(long long n)
{
    return n == 0 ? std::errc{} : n == 1 ? std::errc::bad_message : n == 2 ? std::errc::message_size : std::errc::protocol_error;
}

// a bound function starts
template <typename... A>
void called(int i, const void * self, long count, const A &... a)
{
    if (g_calls++) {
        put(',');
    }
    put('[');
    num(i);
    put(',');
    num(!self ? 0 : self == g_self ? 1 : 2);
    put(',');
    num(count);
    put(",[");
    std::size_t k = 0;
    auto one = [&](const auto & x) {
        if (k++) {
            put(',');
        }
        putv(x);
    };
    (one(a), ...);
    put("]]");
}

template <typename R>
decltype(auto) ret()
{
    if constexpr (std::is_void_v<R>) {
        return;
    } else if constexpr (std::same_as<R, zpp::bits::errc>) {
        return zpp::bits::errc{to_code((*g_ev)["re"].n)};
    } else if constexpr (std::is_reference_v<R>) {
        static std::remove_cvref_t<R> r{};
        get((*g_ev)["rv"], r);
        aside([&] { key("rv"); putv(r); });
        g_ref = std::addressof(r);
        return static_cast<R>(r);
    } else {
        auto r = make<std::remove_cv_t<R>>();
        get((*g_ev)["rv"], r);
        aside([&] { key("rv"); putv(r); });
        return r;
    }
}

// what an opaque function does with the archives it is given: false if reading failed
template <typename In, typename... T>
zpp::bits::errc opaque_read(In & in, T &... t)
{
    return in(t...);
}
template <std::size_t I, typename Out, typename... T>
zpp::bits::errc opaque_write(Out & out, T &... t)
{
    std::size_t i = 0;
    (get((*g_ev)["wv"][i++], t), ...);
    i = 0;
    aside([&] {
        key("wv");
        put('[');
        ((i++ ? put(',') : void(), putv(t)), ...);
        put(']');
    });
    return out(t...);
}

// the view handed to a function is an argument, then reduced as scripted
template <typename Span>
void shrink(Span & s)
{
    auto n = std::size_t((*g_ev)["tk"].n);
    if (n < s.size()) {
        s = s.first(n);
    }
}
struct raw_bytes
{
    const unsigned char * p;
    std::size_t n;
};
template <>
struct codec<raw_bytes>
{
    static void put(const raw_bytes & r) { bytes_out(r.p, r.n); }
};
template <typename Span>
raw_bytes raw(const Span & s)
{
    return {reinterpret_cast<const unsigned char *>(s.data()), s.size()};
}

// ------------------------------------------------------------- results
// how: 0 value(), 1 const value(), 2 value() of a temporary, 3 or_throw() of a temporary,
// 4 or_throw(), 5 moved to another result first, 6 or_throw() const
template <typename R>
const char * result(R && make_result, long long how, bool & threw)
{
    using V = std::remove_cvref_t<decltype(make_result())>;
    const char * er = "";
    auto show = [](auto && x) {
        key("nv");
        putv(x);
        if (g_ref) {
            key("same");
            num(std::addressof(x) == g_ref);
        }
    };
    try {
        if constexpr (std::same_as<V, zpp::bits::errc>) {
            auto r = make_result();
            close_calls();
            if (how >= 3) {
                try {
                    r.or_throw();
                } catch (const std::system_error & e) {
                    threw = true;
                    return std::errc(e.code().value()) == r.code ? code_name(r.code) : "differs";
                }
            }
            return code_name(r.code);
        } else if constexpr (requires(V v) { v.error(); }) {
            auto r = make_result();
            close_calls();
            er = code_name(r.success() ? std::errc{} : r.error().code);
            if (r.success() == r.failure() || zpp::bits::success(r) != r.success() ||
                zpp::bits::failure(r) != r.failure()) {
                return "inconsistent";
            }
            if (how == 5) {
                auto q = std::move(r);
                if (q.success() != !std::string_view(er).compare("ok")) {
                    return "inconsistent";
                }
                if (q.failure()) {
                    return code_name(q.error().code);
                }
                show(q.value());
                return er;
            }
            try {
                if (how == 3) {
                    show(std::move(r).or_throw());
                } else if (how == 4) {
                    show(r.or_throw());
                } else if (how == 6) {
                    show(std::as_const(r).or_throw());
                } else if (r.failure()) {
                    return er;
                } else if (how == 0) {
                    show(r.value());
                } else if (how == 1) {
                    show(std::as_const(r).value());
                } else {
                    show(std::move(r).value());
                }
            } catch (const std::system_error & e) {
                threw = true;
                if (r.success() || std::errc(e.code().value()) != r.error().code ||
                    e.code().category() != std::generic_category()) {
                    return "differs";
                }
            }
            return er;
        } else {
            decltype(auto) r = make_result();
            close_calls();
            show(r);
            return "ok";
        }
    } catch (const std::bad_alloc &) {
        return "exc:alloc";
    } catch (...) {
        return "exc";
    }
}

template <typename F>
void run_result(F && f, const J & e, const char *& er, bool & threw)
{
    auto live = live_allocs;
    g_ref = nullptr;
    if constexpr (std::is_void_v<decltype(f())>) {
        f();
        close_calls();
        er = "ok";
    } else {
        er = result(f, e["how"].n, threw);
        close_calls();
    }
    key("lk");
    num(threw || g_ref ? 0 : live_allocs - live);
}

// ------------------------------------------------------------- channels
template <typename Buf, typename Out, typename In>
struct channel
{
    Buf & buf;
    Out & out;
    In & in;
    void report(const char * k)
    {
        key(k);
        put("{\"b\":");
        bytes_out(reinterpret_cast<const unsigned char *>(buf.data()), buf.size());
        key("op");
        cnt(out.position());
        key("ip");
        cnt(in.position());
        put('}');
    }
};

template <typename P, typename A, typename Z, typename Client, typename Server>
void rpc_drive(const J & s, A && a, Z && z, Client && client, Server && server, const void * self,
               const long & count, bool & first)
{
    constexpr bool one = std::same_as<std::remove_cvref_t<Z>, nothing>;
    g_self = self;
    auto report = [&] {
        a.report("A");
        if constexpr (!one) {
            z.report("Z");
        }
        key("cnt");
        num(count);
    };
    {
        J e;
        e.o.emplace_back("o", J{J::STR, 0, "new", {}, {}});
        begin_event(e, first);
        report();
        put('}');
    }
    for (auto & e : s["ev"].a) {
        begin_event(e, first);
        for (auto k : {"i", "v", "re", "tk", "id", "how", "d", "ch", "body", "cv"}) {
            if (auto p = e.find(k)) {
                key(k);
                put_json(*p);
            }
        }
        g_ev = &e;
        g_calls = 0;
        g_side_len = 0;
        auto & o = e["o"].s;
        const char * er = "";
        bool threw = false;
        if (o == "req") {
            P::request(client, e, er, threw);
        } else if (o == "resp") {
            P::response(client, e, er, threw);
        } else if (o == "serve") {
            open_calls();
            auto live = live_allocs;
            if (e.find("id")) {
                typename P::rpc::id id{};
                get(e["id"], id);
                live = live_allocs;
                er = guarded([&] { return server.serve(id); }, e["th"].n != 0, threw);
            } else {
                er = guarded([&] { return server.serve(); }, e["th"].n != 0, threw);
            }
            close_calls();
            key("lk");
            num(threw ? 0 : live_allocs - live);
        } else if (o == "raw") {
            std::vector<std::byte> d(e["d"].size());
            for (std::size_t i = 0; i < d.size(); ++i) {
                d[i] = std::byte(e["d"][i].n);
            }
            auto w = [&](auto & c) { er = guarded([&] { return c.out(zpp::bits::unsized(d)); }, false, threw); };
            if constexpr (one) {
                w(a);
            } else if (e["ch"].n == 1) {
                w(a);
            } else {
                w(z);
            }
        } else if (o == "s") {
            auto go = [&](auto & c) {
                if (e["a"].s == "out") {
                    seek(e, c.out);
                } else {
                    seek(e, c.in);
                }
            };
            if constexpr (one) {
                go(a);
            } else if (e["ch"].n == 1) {
                go(a);
            } else {
                go(z);
            }
        }
        put_asides();
        if (*er) {
            key("er");
            str(er);
            if (e["th"].n || e["how"].n == 3 || e["how"].n == 4 || e["how"].n == 6) {
                key("threw");
                num(threw);
            }
        }
        report();
        put('}');
    }
}

template <typename P, typename A>
void apply_drive(const J & s, A && a, P & p, bool & first)
{
    g_self = &p;
    {
        J e;
        e.o.emplace_back("o", J{J::STR, 0, "new", {}, {}});
        begin_event(e, first);
        a.report("A");
        key("cnt");
        num(0);
        put('}');
    }
    for (auto & e : s["ev"].a) {
        begin_event(e, first);
        for (auto k : {"i", "v", "re", "how", "d", "ch"}) {
            if (auto q = e.find(k)) {
                key(k);
                put_json(*q);
            }
        }
        g_ev = &e;
        g_calls = 0;
        g_side_len = 0;
        auto & o = e["o"].s;
        const char * er = "";
        bool threw = false;
        if (o == "apply") {
            open_calls();
            p.apply(a.in, e, er, threw);
        } else if (o == "s") {
            if (e["a"].s == "out") {
                seek(e, a.out);
            } else {
                seek(e, a.in);
            }
        } else if (o == "raw") {
            std::vector<std::byte> d(e["d"].size());
            for (std::size_t i = 0; i < d.size(); ++i) {
                d[i] = std::byte(e["d"][i].n);
            }
            er = guarded([&] { return a.out(zpp::bits::unsized(d)); }, false, threw);
        }
        put_asides();
        if (*er) {
            key("er");
            str(er);
            if (e["how"].n == 3 || e["how"].n == 4 || e["how"].n == 6) {
                key("threw");
                num(threw);
            }
        }
        a.report("A");
        key("cnt");
        num(p.count);
        put('}');
    }
}
} // namespace vf
