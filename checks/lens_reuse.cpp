// C17: a lens is a value: making others of it, by copy or by reference, and
// using it, in any order and as often as one likes, does not use it up.  The
// lenses, keys and defaults here hold values that show that they were moved.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/variant.hpp>

#include <immer/map.hpp>

#include <map>
#include <optional>
#include <tuple>
#include <vector>

namespace std {
template <>
struct hash<mc::num>
{
    std::size_t operator()(const mc::num& n) const { return std::size_t(n.v); }
};
} // namespace std

namespace {

namespace lns = lager::lenses;
using mc::num;

struct S
{
    num a, b;
    friend bool operator==(const S& x, const S& y) { return x.a == y.a && x.b == y.b; }
};
using Opt  = std::optional<num>;
using OptS = std::optional<S>;

std::string show(const num& n) { return mc::str(n); }
std::string show(const S& s) { return "{" + show(s.a) + " " + show(s.b) + "}"; }
template <typename T>
std::string show(const std::optional<T>& o)
{
    return o ? show(*o) : "none";
}
template <typename A, typename B>
std::string show(const std::tuple<A, B>& t)
{
    return "(" + show(std::get<0>(t)) + " " + show(std::get<1>(t)) + ")";
}
template <typename T>
std::string show(const std::vector<T>& v)
{
    std::string s = "[";
    for (auto& x : v)
        s += show(x) + " ";
    return s + "]";
}
template <typename K, typename T>
std::string show(const std::map<K, T>& v)
{
    std::string s = "{";
    for (auto& x : v)
        s += show(x.first) + ":" + show(x.second) + " ";
    return s + "}";
}
template <typename K, typename T>
std::string show(const immer::map<K, T>& v)
{
    std::map<K, T> m(v.begin(), v.end());
    return show(m);
}

// Lens<S, num>: the member plus something that the lens holds
auto shifted(num S::*member, int by)
{
    return zug::comp([member, tag = num{by}](auto&& f) {
        return [member, &tag, f = LAGER_FWD(f)](auto&& w) {
            return f(num{(w.*member).v + tag.v})([&](auto&& x) {
                auto r      = S{LAGER_FWD(w)};
                r.*member = num{x.v - tag.v};
                return r;
            });
        };
    });
}
// Lens<S, [num]>: none if the member is negative
auto positive(num S::*member, int by)
{
    return zug::comp([member, tag = num{by}](auto&& f) {
        return [member, &tag, f = LAGER_FWD(f)](auto&& w) {
            auto v = (w.*member).v;
            return f(v < 0 ? Opt{} : Opt{num{v + tag.v}})([&](Opt x) {
                auto r = S{LAGER_FWD(w)};
                if (x)
                    r.*member = num{x->v - tag.v};
                return r;
            });
        };
    });
}
// Lens<num, num>
auto minus(int by)
{
    return zug::comp([tag = num{by}](auto&& f) {
        return [&tag, f = LAGER_FWD(f)](auto&& w) {
            return f(num{w.v - tag.v})([&](auto&& x) { return num{x.v + tag.v}; });
        };
    });
}

template <typename W, typename P>
struct Oracle
{
    std::function<P(const W&)> get;
    std::function<W(const W&, const P&)> set;
    std::vector<W> wholes;
    std::vector<P> parts;
};

Oracle<S, num> shifted_oracle(num S::*member, int by)
{
    return {[=](const S& s) { return num{(s.*member).v + by}; },
            [=](S s, const num& n) {
                s.*member = num{n.v - by};
                return s;
            },
            {{1, 2}, {30, -4}},
            {11, 12}};
}
Oracle<S, Opt> positive_oracle(num S::*member, int by)
{
    return {[=](const S& s) { return (s.*member).v < 0 ? Opt{} : Opt{num{(s.*member).v + by}}; },
            [=](S s, const Opt& n) {
                if (n)
                    s.*member = num{n->v - by};
                return s;
            },
            {{1, 2}, {-30, 4}},
            {Opt{11}, Opt{}}};
}
template <typename W, typename P>
Oracle<std::optional<W>, std::optional<P>> lifted(Oracle<W, P> o)
{
    std::vector<std::optional<W>> ws{std::nullopt};
    std::vector<std::optional<P>> ps{std::nullopt};
    ws.insert(ws.end(), o.wholes.begin(), o.wholes.end());
    ps.insert(ps.end(), o.parts.begin(), o.parts.end());
    return {[o](const std::optional<W>& w) { return w ? std::optional<P>{o.get(*w)} : std::nullopt; },
            [o](const std::optional<W>& w, const std::optional<P>& p) {
                return w && p ? std::optional<W>{o.set(*w, *p)} : w;
            },
            ws,
            ps};
}
template <typename W, typename P>
Oracle<std::optional<W>, std::optional<P>> bound(Oracle<W, std::optional<P>> o)
{
    std::vector<std::optional<W>> ws{std::nullopt};
    ws.insert(ws.end(), o.wholes.begin(), o.wholes.end());
    return {[o](const std::optional<W>& w) { return w ? o.get(*w) : std::nullopt; },
            [o](const std::optional<W>& w, const std::optional<P>& p) {
                return w && p ? std::optional<W>{o.set(*w, p)} : w;
            },
            ws,
            o.parts};
}

// one use of a lens
template <typename L, typename W, typename P>
void use(mc::Run& run, L& l, const Oracle<W, P>& o, const char* what)
{
    auto& w = o.wholes[std::size_t(run.choose(int(o.wholes.size())))];
    int c   = run.choose(6);
    run.step();
    auto expect_part = [&](const P& got) {
        MC_CHECK(run, got == o.get(w),
                 what << ": viewed " << show(w) << " as " << show(got) << " instead of " << show(o.get(w)));
    };
    auto expect_whole = [&](const W& got, const P& p) {
        MC_CHECK(run, got == o.set(w, p),
                 what << ": setting " << show(w) << " to " << show(p) << " gave " << show(got)
                      << " instead of " << show(o.set(w, p)));
    };
    MC_LOG(run, what << ": use " << c << " with " << show(w));
    switch (c) {
    case 0: expect_part(P(lager::view(l, w))); break;
    case 1: expect_part(P(lager::view(std::as_const(l), W{w}))); break;
    case 2:
    case 3: {
        auto& p = o.parts[std::size_t(run.choose(int(o.parts.size())))];
        auto v  = p;
        if (c == 2)
            expect_whole(W(lager::set(l, w, v)), p);
        else
            expect_whole(W(lager::set(std::as_const(l), W{w}, P{v})), p);
        MC_CHECK(run, v == p, what << ": the part that was set is now " << show(v));
        break;
    }
    case 4: {
        auto& p = o.parts[std::size_t(run.choose(int(o.parts.size())))];
        P seen  = o.parts[0];
        auto r  = W(lager::over(l, w, [&](const P& x) {
            seen = x;
            return p;
        }));
        expect_part(seen);
        expect_whole(r, p);
        break;
    }
    case 5: { // the copy is as good
        auto copy = l;
        auto last = std::move(copy);
        expect_part(P(lager::view(last, w)));
        expect_whole(W(lager::set(last, w, o.parts.back())), o.parts.back());
        break;
    }
    }
    run.state(mc::mix(mc::hash_str(what), c));
}

// what `make` makes of a lens and the lens itself are used in any order, and so
// is another one that is made later
template <typename L, typename Derive, typename W1, typename P1, typename W, typename P>
void history(mc::Run& run, L& l, Derive derive, const Oracle<W1, P1>& lo, const Oracle<W, P>& o, int depth)
{
    auto first  = derive();
    auto second = std::optional<decltype(first)>{};
    for (int i = 0; i < depth; ++i) {
        int c = run.choose(3);
        if (c == 0)
            use(run, l, lo, "the lens");
        else if (c == 1)
            use(run, first, o, "the first");
        else if (second)
            use(run, *second, o, "the second");
        else
            second.emplace(derive());
    }
    use(run, l, lo, "the lens");
    use(run, first, o, "the first");
    if (second)
        use(run, *second, o, "the second");
    run.outcome(bool(second));
}
template <typename L, typename W1, typename P1, typename Make, typename W, typename P>
void reuse(mc::Run& run, L l, const Oracle<W1, P1>& lo, Make make, const Oracle<W, P>& o, int depth)
{
    int form = run.choose(3);
    MC_LOG(run, "made of " << (form == 0 ? "the lens" : form == 1 ? "the constant lens" : "a copy"));
    if (form == 0)
        history(run, l, [&] { return make(l); }, lo, o, depth);
    else if (form == 1)
        history(run, l, [&] { return make(std::as_const(l)); }, lo, o, depth);
    else
        history(run, l, [&] { return make(L{l}); }, lo, o, depth);
}

} // namespace

MC_SCENARIO(reuse, 2)
{
    int n     = run.bound(1, 2);
    auto a    = shifted(&S::a, 5);
    auto b    = shifted(&S::b, 7);
    auto p    = positive(&S::a, 5);
    auto ao   = shifted_oracle(&S::a, 5);
    auto bo   = shifted_oracle(&S::b, 7);
    auto po   = positive_oracle(&S::a, 5);
    auto less = minus(3);
    auto chained = Oracle<S, num>{[ao](const S& s) { return num{ao.get(s).v - 3}; },
                                  [ao](const S& s, const num& x) { return ao.set(s, num{x.v + 3}); },
                                  ao.wholes,
                                  ao.parts};
    auto pair    = Oracle<S, std::tuple<num, num>>{
        [=](const S& s) { return std::tuple<num, num>{ao.get(s), bo.get(s)}; },
        [=](const S& s, const std::tuple<num, num>& x) {
            return bo.set(ao.set(s, std::get<0>(x)), std::get<1>(x));
        },
        ao.wholes,
        {{11, 12}, {13, 14}}};
    int c = run.choose(12);
    MC_LOG(run, "combinator " << c);
#define FN(...) [&](auto&& l) { return __VA_ARGS__; }
#define L std::forward<decltype(l)>(l)
    switch (c) {
    case 0: reuse(run, a, ao, FN(lns::map_opt(L)), lifted(ao), n); break;
    case 1: reuse(run, a, ao, FN(lns::with_opt(L)), lifted(ao), n); break;
    case 2: reuse(run, p, po, FN(lns::bind_opt(L)), bound(po), n); break;
    case 3: reuse(run, p, po, FN(lns::with_opt(L)), bound(po), n); break;
    case 4: reuse(run, a, ao, FN(lns::fan(L, b)), pair, n); break;
    case 5: reuse(run, b, bo, FN(lns::fan(a, L)), pair, n); break;
    case 6: reuse(run, a, ao, FN(L | less), chained, n); break;
    case 7: reuse(run, a, ao, FN(zug::comp(L, less)), chained, n); break;
    case 8: reuse(run, a, ao, FN(lager::lens<S, num>{L}), ao, n); break;
    case 9: reuse(run, lager::lens<S, num>{a}, ao, FN(L | less), chained, n); break;
    case 10: reuse(run, lager::lens<S, num>{a}, ao, FN(lns::map_opt(L)), lifted(ao), n); break;
    case 11: reuse(run, a, ao, FN(lns::map_opt(lns::map_opt(L))), lifted(lifted(ao)), n); break;
    }
}

// keys and defaults
MC_SCENARIO(keys, 2)
{
    int n        = run.bound(2, 3);
    using M      = std::map<num, num>;
    using IM     = immer::map<num, num>;
    using V      = std::vector<num>;
    auto key     = num{3};
    auto def     = num{9};
    auto maps    = std::vector<M>{{}, {{3, 1}, {4, 2}}, {{5, 6}}};
    auto vectors = std::vector<V>{{}, {1, 2, 3, 4}};
    auto imaps   = std::vector<IM>{IM{}, IM{}.set(3, 1).set(4, 2)};
    auto opts    = std::vector<Opt>{Opt{}, Opt{5}};
    auto find    = [](const auto& m, int k) {
        using W = std::decay_t<decltype(m)>;
        if constexpr (std::is_same_v<W, V>)
            return k < int(m.size()) ? Opt{m[std::size_t(k)]} : Opt{};
        else if constexpr (std::is_same_v<W, IM>)
            return m.find(num{k}) ? Opt{*m.find(num{k})} : Opt{};
        else
            return m.count(num{k}) ? Opt{m.at(num{k})} : Opt{};
    };
    auto put = [](auto m, int k, const num& x) {
        using W = std::decay_t<decltype(m)>;
        if constexpr (std::is_same_v<W, V>)
            m[std::size_t(k)] = x;
        else if constexpr (std::is_same_v<W, IM>)
            m = m.set(num{k}, x);
        else
            m.at(num{k}) = x;
        return m;
    };
    auto at = [&](auto w, auto ws) {
        using W = decltype(w);
        return Oracle<W, Opt>{[=](const W& m) { return find(m, 3); },
                              [=](const W& m, const Opt& x) { return x && find(m, 3) ? put(m, 3, *x) : m; },
                              ws,
                              {Opt{}, Opt{7}, Opt{8}}};
    };
    auto at_or = [&](auto w, auto ws, int d) {
        using W = decltype(w);
        return Oracle<W, num>{[=](const W& m) { return find(m, 3).value_or(num{d}); },
                              [=](const W& m, const num& x) { return find(m, 3) ? put(m, 3, x) : m; },
                              ws,
                              {7, 8}};
    };
    auto go = [&](auto l, auto o) {
        for (int i = 0; i <= n; ++i)
            use(run, l, o, "the lens");
        MC_CHECK(run, key.v == 3 && def.v == 9, "the key is " << key << " and the default " << def);
        run.outcome(0);
    };
    int c = run.choose(9);
    MC_LOG(run, "lens " << c);
    switch (c) {
    case 0: go(lns::at(key), at(M{}, maps)); break;
    case 1: go(lns::at(3), at(V{}, vectors)); break;
    case 2: go(lns::at(key), at(IM{}, imaps)); break;
    case 3: go(lns::at_or(key), at_or(M{}, maps, 0)); break;
    case 4: go(lns::at_or(key, def), at_or(M{}, maps, 9)); break;
    case 5: go(lns::at_or(3, std::as_const(def)), at_or(V{}, vectors, 9)); break;
    case 6: go(lns::at_or(key, def), at_or(IM{}, imaps, 9)); break;
    case 7:
        go(lns::value_or(def),
           Oracle<Opt, num>{[](const Opt& o) { return o.value_or(num{9}); },
                            [](const Opt&, const num& x) { return x; },
                            opts,
                            {7, 8}});
        break;
    case 8:
        go(lns::at(key) | lns::value_or(def),
           Oracle<M, num>{[=](const M& m) { return find(m, 3).value_or(num{9}); },
                          [=](const M& m, const num& x) { return find(m, 3) ? put(m, 3, x) : m; },
                          maps,
                          {7, 8}});
        break;
    }
}
