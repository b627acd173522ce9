// C17: lenses.  Every chain of lenses up to a length is applied to every value
// of a small domain, as a constant, an lvalue and an rvalue, through view, set
// and over, through its type-erased form and through cursors, and compared
// with an independently written getter and setter.
// PART selects the first link of the chains.
#include "../engine/mc.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>

#include <immer/box.hpp>
#include <immer/map.hpp>
#include <immer/vector.hpp>

#include <array>
#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

#ifndef PART
#define PART 0
#endif

namespace {

namespace L = lager::lenses;

using Str = std::string;
// long enough for the heap, so that a moved-from string is seen
Str str(char c) { return Str(40, c); }

struct Leaf
{
    Str s;
    int n = 0;
};
bool operator==(const Leaf& a, const Leaf& b) { return a.s == b.s && a.n == b.n; }

using Var = std::variant<Str, Leaf>;
using Tup = std::tuple<Str, Leaf>;
using Box = immer::box<Leaf>;
using IVec = immer::vector<Leaf>;
using IMap = immer::map<int, Leaf>;
using SMap = std::map<int, Leaf>;
using Opt  = std::optional<Leaf>;

struct Node
{
    Leaf leaf;
    Opt opt;
    std::vector<Leaf> vec;
    Var var;
    Tup tup;
    Str tag;
};
bool operator==(const Node& a, const Node& b)
{
    return a.leaf == b.leaf && a.opt == b.opt && a.vec == b.vec && a.var == b.var && a.tup == b.tup &&
           a.tag == b.tag;
}
struct Node2
{
    Box box;
    IVec ivec;
    IMap imap;
    SMap smap;
    std::optional<Node> opt;
    Str tag;
};
bool operator==(const Node2& a, const Node2& b)
{
    return a.box == b.box && a.ivec == b.ivec && a.imap == b.imap && a.smap == b.smap && a.opt == b.opt &&
           a.tag == b.tag;
}

// ---- domains

template <typename T>
struct dom;
template <typename T>
std::vector<T> domain()
{
    return dom<T>::get();
}
template <>
struct dom<Str>
{
    static std::vector<Str> get() { return {str('a'), "", str('b')}; }
};
template <>
struct dom<int>
{
    static std::vector<int> get() { return {1, 0}; }
};
template <>
struct dom<Leaf>
{
    static std::vector<Leaf> get() { return {{str('l'), 1}, {}, {str('m'), 2}}; }
};
template <typename T>
struct dom<std::optional<T>>
{
    static std::vector<std::optional<T>> get()
    {
        auto v = domain<T>();
        return {v[0], std::nullopt, v.back()};
    }
};
template <>
struct dom<std::vector<Leaf>>
{
    static std::vector<std::vector<Leaf>> get()
    {
        return {{}, {{str('p'), 1}}, {{str('q'), 1}, {str('r'), 2}}};
    }
};
template <>
struct dom<IVec>
{
    static std::vector<IVec> get() { return {{}, {{str('p'), 1}}, {{str('q'), 1}, {str('r'), 2}}}; }
};
template <>
struct dom<IMap>
{
    static std::vector<IMap> get()
    {
        return {{}, IMap{}.set(1, {str('p'), 1}), IMap{}.set(1, {str('q'), 1}).set(2, {str('r'), 2})};
    }
};
template <>
struct dom<SMap>
{
    static std::vector<SMap> get()
    {
        return {{}, {{1, {str('p'), 1}}}, {{1, {str('q'), 1}}, {2, {str('r'), 2}}}};
    }
};
template <>
struct dom<Var>
{
    static std::vector<Var> get() { return {str('v'), Leaf{str('w'), 3}, Leaf{}}; }
};
template <>
struct dom<Box>
{
    static std::vector<Box> get() { return {Box{Leaf{str('x'), 3}}, Box{Leaf{}}}; }
};
template <typename... Ts>
struct dom<std::tuple<Ts...>>
{
    static std::vector<std::tuple<Ts...>> get()
    {
        return {{domain<Ts>()[0]...}, {domain<Ts>()[1]...}, {domain<Ts>().back()...}};
    }
};
template <>
struct dom<Node>
{
    static std::vector<Node> get()
    {
        std::vector<Node> r;
        for (int i = 0; i < 3; ++i)
            r.push_back({domain<Leaf>()[i], domain<Opt>()[i], domain<std::vector<Leaf>>()[i],
                         domain<Var>()[i], domain<Tup>()[i], str('t')});
        return r;
    }
};
template <>
struct dom<Node2>
{
    static std::vector<Node2> get()
    {
        std::vector<Node2> r;
        for (int i = 0; i < 3; ++i)
            r.push_back({domain<Box>()[i % 2], domain<IVec>()[i], domain<IMap>()[i], domain<SMap>()[i],
                         domain<std::optional<Node>>()[i], str('u')});
        return r;
    }
};

// ---- specifications

template <typename Lens, typename View, typename Set>
struct Spec
{
    Str name;
    Lens lens;
    View view; // (const W&) -> P
    Set set;   // (W, P) -> W
};
template <typename Lens, typename View, typename Set>
auto spec(Str name, Lens l, View v, Set s)
{
    return Spec<Lens, View, Set>{name, l, v, s};
}
template <typename S, typename W>
using part_t = std::decay_t<decltype(std::declval<S>().view(std::declval<const W&>()))>;

template <typename A, typename B>
auto compose(const A& a, const B& b)
{
    return spec(
        a.name + " | " + b.name, zug::comp(a.lens, b.lens),
        [a, b](const auto& w) { return b.view(a.view(w)); },
        [a, b](auto w, auto p) { return a.set(w, b.set(a.view(w), p)); });
}

#define ATTR(T, m)                                                                                 \
    spec(                                                                                          \
        "attr(" #m ")", L::attr(&T::m), [](const T& w) { return w.m; },                            \
        [](T w, auto p) {                                                                          \
            w.m = p;                                                                               \
            return w;                                                                              \
        })

template <typename T>
auto at_spec(T, Str name, int key)
{
    return spec(
        name, L::at(key),
        [key](const auto& w) {
            using P = std::decay_t<decltype(w.at(key))>;
            std::optional<P> r;
            try {
                r = w.at(key);
            } catch (const std::out_of_range&) {
            }
            return r;
        },
        [key](auto w, auto p) {
            if (p) {
                try {
                    (void) w.at(key);
                    return T::set(w, key, *p);
                } catch (const std::out_of_range&) {
                }
            }
            return w;
        });
}
template <typename T, typename Lens>
auto at_or_spec(T, Str name, Lens lens, int key, Leaf def)
{
    return spec(
        name, lens,
        [key, def](const auto& w) {
            try {
                return Leaf(w.at(key));
            } catch (const std::out_of_range&) {
            }
            return def;
        },
        [key](auto w, auto p) {
            try {
                (void) w.at(key);
                return T::set(w, key, p);
            } catch (const std::out_of_range&) {
            }
            return w;
        });
}
struct Mutable
{
    template <typename W, typename P>
    static W set(W w, int k, const P& p)
    {
        w.at(k) = p;
        return w;
    }
};
struct Immutable
{
    template <typename W, typename P>
    static W set(W w, int k, const P& p)
    {
        return w.set(k, p);
    }
};
template <typename T>
auto containers(T t, int in, int out)
{
    return std::make_tuple(at_spec(t, "at(in)", in), at_spec(t, "at(out)", out),
                           at_or_spec(t, "at_or(in)", L::at_or(in), in, {}),
                           at_or_spec(t, "at_or(out)", L::at_or(out), out, {}),
                           at_or_spec(t, "at_or(out,default)", L::at_or(out, Leaf{str('d'), 9}), out,
                                      {str('d'), 9}));
}

// lifts a specification to optionals
enum class Lift { Map, Bind, With };
template <typename B, typename Lens>
auto lifted(Str kind, const B& b, Lens lens)
{
    return spec(
        kind + "(" + b.name + ")", lens,
        [b](const auto& w) {
            using P = std::decay_t<decltype(b.view(*w))>;
            using R = typename std::conditional_t<L::detail::is_optional<P>::value, L::detail::remove_opt<std::optional<P>>,
                                                  L::detail::add_opt<P>>::type;
            return w ? R{b.view(*w)} : R{};
        },
        [b](auto w, auto p) {
            using P = std::decay_t<decltype(b.view(*w))>;
            if (w && p) {
                if constexpr (L::detail::is_optional<P>::value)
                    w = b.set(*w, p);
                else
                    w = b.set(*w, *p);
            }
            return w;
        });
}

template <typename V>
auto value_or_spec(Str name, auto lens, V def)
{
    return spec(
        name, lens, [def](const std::optional<V>& w) { return w ? *w : def; },
        [](std::optional<V>, V p) { return std::optional<V>{p}; });
}

auto leaf_s() { return ATTR(Leaf, s); }
auto leaf_getset()
{
    // getter and setter by value, as in the documentation
    return spec(
        "getset(s)",
        L::getset([](Leaf l) { return l.s; },
                  [](Leaf l, Str s) {
                      l.s = s;
                      return l;
                  }),
        [](const Leaf& w) { return w.s; },
        [](Leaf w, Str p) {
            w.s = p;
            return w;
        });
}
auto leaf_getset_ref()
{
    return spec(
        "getset(&s)",
        L::getset([](auto&& l) -> decltype(auto) { return (LAGER_FWD(l).s); },
                  [](auto l, auto&& s) {
                      l.s = LAGER_FWD(s);
                      return l;
                  }),
        [](const Leaf& w) { return w.s; },
        [](Leaf w, Str p) {
            w.s = p;
            return w;
        });
}
auto leaf_both()
{
    return spec(
        "attr(s,n)", L::attr(&Leaf::s, &Leaf::n),
        [](const Leaf& w) { return std::make_tuple(w.s, w.n); },
        [](Leaf, std::tuple<Str, int> p) { return Leaf{std::get<0>(p), std::get<1>(p)}; });
}
template <typename T>
auto force()
{
    return spec(
        "force_opt", L::force_opt, [](const T& w) { return std::optional<T>{w}; },
        [](T w, std::optional<T> p) { return p ? *p : w; });
}
template <typename T>
auto identity()
{
    return spec(
        "identity", zug::identity, [](const T& w) { return w; }, [](T, T p) { return p; });
}

template <typename T>
struct specs;
template <typename T>
auto specs_of()
{
    return specs<T>::get();
}
template <>
struct specs<Leaf>
{
    static auto get()
    {
        return std::make_tuple(leaf_s(), leaf_getset(), leaf_getset_ref(), leaf_both(), force<Leaf>());
    }
};
template <>
struct specs<Str>
{
    static auto get() { return std::make_tuple(force<Str>(), identity<Str>()); }
};
template <>
struct specs<int>
{
    static auto get() { return std::make_tuple(force<int>()); }
};
template <>
struct specs<Opt>
{
    static auto get()
    {
        auto some = compose(leaf_s(), force<Str>()); // Lens<Leaf, [Str]>
        return std::make_tuple(lifted("map_opt", leaf_s(), L::map_opt(leaf_s().lens)),
                               lifted("with_opt", leaf_s(), L::with_opt(leaf_s().lens)),
                               lifted("with_opt", leaf_getset(), L::with_opt(leaf_getset().lens)),
                               lifted("bind_opt", some, L::bind_opt(some.lens)),
                               lifted("with_opt", some, L::with_opt(some.lens)),
                               value_or_spec("value_or(l)", L::value_or(Leaf{str('z'), 7}), Leaf{str('z'), 7}),
                               value_or_spec("value_or()", L::value_or(), Leaf{}),
                               value_or_spec("or_default", L::or_default, Leaf{}));
    }
};
template <>
struct specs<std::optional<Str>>
{
    static auto get()
    {
        return std::make_tuple(value_or_spec("value_or(s)", L::value_or(str('z')), str('z')),
                               value_or_spec("or_default", L::or_default, Str{}),
                               identity<std::optional<Str>>());
    }
};
template <>
struct specs<std::optional<int>>
{
    static auto get() { return std::make_tuple(value_or_spec("or_default", L::or_default, 0)); }
};
template <>
struct specs<std::optional<Node>>
{
    static auto get()
    {
        auto leaf = ATTR(Node, leaf);
        auto opt  = ATTR(Node, opt);
        return std::make_tuple(lifted("map_opt", leaf, L::map_opt(leaf.lens)),
                               lifted("with_opt", leaf, L::with_opt(leaf.lens)),
                               lifted("with_opt", opt, L::with_opt(opt.lens)),
                               lifted("bind_opt", opt, L::bind_opt(opt.lens)),
                               value_or_spec("or_default", L::or_default, Node{}));
    }
};
template <>
struct specs<std::vector<Leaf>>
{
    static auto get() { return containers(Mutable{}, 0, 1); }
};
template <>
struct specs<SMap>
{
    static auto get() { return containers(Mutable{}, 1, 3); }
};
template <>
struct specs<IVec>
{
    static auto get() { return containers(Immutable{}, 0, 1); }
};
template <>
struct specs<IMap>
{
    static auto get() { return containers(Immutable{}, 1, 3); }
};
template <typename T>
auto alternative()
{
    return spec(
        "alternative", L::alternative<T>,
        [](const Var& w) { return std::holds_alternative<T>(w) ? std::optional<T>{std::get<T>(w)} : std::nullopt; },
        [](Var w, std::optional<T> p) { return p && std::holds_alternative<T>(w) ? Var{*p} : w; });
}
template <>
struct specs<Var>
{
    static auto get() { return std::make_tuple(alternative<Str>(), alternative<Leaf>()); }
};
template <>
struct specs<Box>
{
    static auto get()
    {
        return std::make_tuple(spec(
            "unbox", L::unbox, [](const Box& w) { return w.get(); }, [](Box, Leaf p) { return Box{p}; }));
    }
};
template <int I, typename T>
auto element_spec(Str name, auto lens)
{
    return spec(
        name, lens, [](const T& w) { return std::get<I>(w); },
        [](T w, auto p) {
            std::get<I>(w) = p;
            return w;
        });
}
template <typename A, typename B>
auto zip_spec(const A& a, const B& b)
{
    return spec(
        "zip(" + a.name + ", " + b.name + ")", L::zip(a.lens, b.lens),
        [a, b](const auto& w) { return std::make_tuple(a.view(std::get<0>(w)), b.view(std::get<1>(w))); },
        [a, b](auto w, auto p) {
            return std::make_tuple(a.set(std::get<0>(w), std::get<0>(p)), b.set(std::get<1>(w), std::get<1>(p)));
        });
}
template <typename A, typename B>
auto fan_spec(const A& a, const B& b)
{
    return spec(
        "fan(" + a.name + ", " + b.name + ")", L::fan(a.lens, b.lens),
        [a, b](const auto& w) { return std::make_tuple(a.view(w), b.view(w)); },
        [a, b](auto w, auto p) { return a.set(b.set(w, std::get<1>(p)), std::get<0>(p)); });
}
template <>
struct specs<Tup>
{
    static auto get()
    {
        return std::make_tuple(element_spec<0, Tup>("first", L::first), element_spec<1, Tup>("second", L::second),
                               element_spec<1, Tup>("element<1>", L::element<1>),
                               zip_spec(identity<Str>(), leaf_s()), zip_spec(force<Str>(), leaf_getset()),
                               zip_spec(force<Str>(), force<Leaf>()));
    }
};
template <typename A, typename B>
struct specs<std::tuple<A, B>>
{
    static auto get()
    {
        using T = std::tuple<A, B>;
        return std::make_tuple(element_spec<0, T>("first", L::first), element_spec<1, T>("second", L::second));
    }
};
template <>
struct specs<Node>
{
    static auto get()
    {
        auto in0 = compose(ATTR(Node, vec), at_spec(Mutable{}, "at(0)", 0));
        return std::make_tuple(ATTR(Node, leaf), ATTR(Node, opt), ATTR(Node, vec), ATTR(Node, var),
                               ATTR(Node, tup),
                               spec(
                                   "getset(leaf)",
                                   L::getset([](Node n) { return n.leaf; },
                                             [](Node n, Leaf l) {
                                                 n.leaf = l;
                                                 return n;
                                             }),
                                   [](const Node& w) { return w.leaf; },
                                   [](Node w, Leaf p) {
                                       w.leaf = p;
                                       return w;
                                   }),
                               fan_spec(in0, ATTR(Node, leaf)),
                               fan_spec(compose(ATTR(Node, var), alternative<Str>()),
                                        compose(ATTR(Node, leaf), leaf_getset())));
    }
};
template <>
struct specs<Node2>
{
    static auto get()
    {
        return std::make_tuple(ATTR(Node2, box), ATTR(Node2, ivec), ATTR(Node2, imap), ATTR(Node2, smap),
                               ATTR(Node2, opt));
    }
};

// ---- the checks of one chain

template <typename T>
void log_value(std::ostream&, const T&)
{}

struct Sink
{
    int n = 0;
};

// B: the last link, A: the chain before it
template <typename W, typename S, typename A, typename B>
void check_cursor(mc::Run& run, const S& s, const A* a, const B* b, const W& w, const part_t<S, W>& p, int how)
{
    using P = part_t<S, W>;
    lager::state<W> st{w};
    // how: composed, type-erased, link by link
    lager::cursor<P> c = [&]() -> lager::cursor<P> {
        if (how == 1)
            return st.zoom(lager::lens<W, P>{s.lens});
        if constexpr (!std::is_same_v<A, void>)
            if (how == 2)
                return st.zoom(a->lens).make().zoom(b->lens);
        return st.zoom(s.lens);
    }();
    MC_CHECK(run, c.get() == s.view(w), "the cursor shows another part than its lens");
    int calls = 0, root = 0;
    P got = s.view(w);
    c.watch([&](const P& x) {
        ++calls;
        got = x;
    });
    st.watch([&](const W&) { ++root; });
    auto w2 = s.set(w, p);
    if (run.flip())
        c.set(p);
    else
        c.set(P(p));
    lager::commit(st);
    MC_CHECK(run, st.get() == w2, "writing through the cursor changes the state in another way than its setter");
    MC_CHECK(run, c.get() == s.view(w2), "the cursor shows a stale or wrong part after the write");
    MC_CHECK(run, root == !(w == w2), "the state's watcher was called " << root << " times");
    MC_CHECK(run, calls == !(s.view(w) == s.view(w2)) && got == s.view(w2),
             "the cursor's watcher was called " << calls << " times");
    // and back
    c.update([&](P x) {
        MC_CHECK(run, x == s.view(w2), "update() receives another value");
        return s.view(w);
    });
    lager::commit(st);
    MC_CHECK(run, st.get() == s.set(w2, s.view(w)), "the second write through the cursor is wrong");
}

template <bool Cursors, typename W, typename S, typename A, typename B>
void check(mc::Run& run, const S& s, const A* a, const B* b)
{
    using P = part_t<S, W>;
    auto ws = domain<W>();
    auto ps = domain<P>();
    W w     = ws[run.choose(int(ws.size()))];
    int ip  = run.choose(int(ps.size()) + 1);
    // the last one: the part itself
    P p         = ip < int(ps.size()) ? ps[ip] : s.view(w);
    const W w0  = w;
    const P p0  = p;
    const W set = s.set(w, p);
    const P got = s.view(w);
    int op      = run.choose(Cursors ? 8 : 5);
    MC_LOG(run, s.name << ", operation " << op);
    auto intact = [&] {
        MC_CHECK(run, w == w0, "the whole was changed in place");
        MC_CHECK(run, p == p0, "the part was changed in place");
    };
    switch (op) {
    case 0:
        MC_CHECK(run, P(lager::view(s.lens, w0)) == got, "view of a constant is wrong");
        MC_CHECK(run, P(lager::view(s.lens, w)) == got, "view of an lvalue is wrong");
        intact();
        MC_CHECK(run, P(lager::view(s.lens, W(w))) == got, "view of a temporary is wrong");
        break;
    case 1:
        MC_CHECK(run, W(lager::set(s.lens, w0, p0)) == set, "set(const, const) is wrong");
        MC_CHECK(run, W(lager::set(s.lens, w, p)) == set, "set(lvalue, lvalue) is wrong");
        intact();
        MC_CHECK(run, W(lager::set(s.lens, w, P(p))) == set, "set(lvalue, temporary) is wrong");
        intact();
        break;
    case 2:
        MC_CHECK(run, W(lager::set(s.lens, W(w), p)) == set, "set(temporary, lvalue) is wrong");
        intact();
        MC_CHECK(run, W(lager::set(s.lens, W(w), P(p))) == set, "set(temporary, temporary) is wrong");
        // the part stays as it was set
        MC_CHECK(run, P(lager::view(s.lens, lager::set(s.lens, W(w), P(p)))) == s.view(set),
                 "view after set is wrong");
        break;
    case 3: {
        auto fn = [&](auto&& x) {
            P y = LAGER_FWD(x); // consumes temporaries
            MC_CHECK(run, y == got, "over passes another part");
            return P(p);
        };
        MC_CHECK(run, W(lager::over(s.lens, w0, fn)) == set, "over(const) is wrong");
        MC_CHECK(run, W(lager::over(s.lens, W(w), fn)) == set, "over(temporary) is wrong");
        auto cfn = [&](const auto& x) { return P(p); };
        MC_CHECK(run, W(lager::over(s.lens, w, cfn)) == set, "over(lvalue) is wrong");
        intact();
        break;
    }
    case 4: {
        lager::lens<W, P> e{s.lens};
        auto e2 = e;
        MC_CHECK(run, P(lager::view(e2, w)) == got && P(lager::view(e, W(w))) == got,
                 "view through the type-erased lens is wrong");
        MC_CHECK(run, W(lager::set(e, w, p)) == set && W(lager::set(e2, W(w), P(p))) == set,
                 "set through the type-erased lens is wrong");
        MC_CHECK(run, W(lager::over(e, W(w), [&](auto&& x) {
                     P y = LAGER_FWD(x);
                     MC_CHECK(run, y == got, "over passes another part");
                     return P(p);
                 })) == set,
                 "over through the type-erased lens is wrong");
        intact();
        break;
    }
    default:
        if constexpr (Cursors) {
            if (op == 7 && std::is_same_v<A, void>)
                run.prune();
            check_cursor<W>(run, s, a, b, w, p, op - 5);
            intact();
        }
    }
    run.step();
    mc::u64 h = mc::hash_str(s.name);
    h         = mc::mix(h, ip * 100 + op);
    run.state(h);
    run.outcome(mc::mix(h, (set == w0) * 2 + (got == p0)));
}

template <typename Tuple, typename Fn>
void pick(mc::Run& run, const Tuple& t, Fn&& fn)
{
    int n = run.choose(int(std::tuple_size_v<Tuple>)), i = 0;
    std::apply([&](auto&... xs) { ((i++ == n ? fn(xs) : void()), ...); }, t);
}

// chains of up to N more links after s
template <int N, typename W, typename S>
void walk(mc::Run& run, const S& s)
{
    using P = part_t<S, W>;
    pick(run, specs_of<P>(), [&](const auto& b) {
        auto c = compose(s, b);
        if constexpr (N > 1)
            if (run.flip()) {
                walk<N - 1, W>(run, c);
                return;
            }
        check<(N > 1), W>(run, c, &s, &b);
    });
}

template <int N, typename W, int First, int Last>
void from(mc::Run& run)
{
    auto all = specs_of<W>();
    int n = run.choose(Last - First) + First, i = 0;
    auto one = [&](auto& s, auto k) {
        if constexpr (decltype(k)::value >= First && decltype(k)::value < Last) {
            if (run.flip())
                walk<N - 1, W>(run, s);
            else
                check<true, W, std::decay_t<decltype(s)>, void, void>(run, s, nullptr, nullptr);
        }
    };
    auto each = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        ((i++ == n ? one(std::get<Is>(all), std::integral_constant<int, Is>{}) : void()), ...);
    };
    each(std::make_index_sequence<std::tuple_size_v<decltype(all)>>{});
}

} // namespace

#if PART == 0 || PART == 1
MC_SCENARIO(node_a, 3) { from<3, Node, 0, 3>(run); }
#endif
#if PART == 0 || PART == 2
MC_SCENARIO(node_b, 3) { from<3, Node, 3, 6>(run); }
#endif
#if PART == 0 || PART == 3
MC_SCENARIO(node_c, 3) { from<3, Node, 6, 8>(run); }
MC_SCENARIO(immutable_a, 3) { from<3, Node2, 0, 2>(run); }
#endif
#if PART == 0 || PART == 4
MC_SCENARIO(immutable_b, 3) { from<3, Node2, 2, 4>(run); }
MC_SCENARIO(optional_nodes, 3) { from<3, Node2, 4, 5>(run); }
#endif
