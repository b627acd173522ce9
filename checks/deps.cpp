// C16: bags of dependencies: conversion to subsets, merging, optional, keyed,
// referenced and computed dependencies.  Every chain of operations up to a
// depth, over a set of types, against a model of the values.
#include "../engine/mc.hpp"

#include <lager/deps.hpp>

#include <array>
#include <memory>
#include <optional>
#include <string>

namespace {

namespace dep = lager::dep;

struct Obj
{
    int id;
};
struct KR
{};
struct KI
{};

enum Kind { Absent, Val, Opt, Fn, OptFn };
constexpr int nkeys = 4; // int, string, KR, KI

template <typename Spec>
struct info;
#define INFO(spec, k, kd)                                                                          \
    template <>                                                                                    \
    struct info<spec>                                                                              \
    {                                                                                              \
        static constexpr int key   = k;                                                            \
        static constexpr Kind kind = kd;                                                           \
    };
using kr_ref    = dep::key<KR, Obj&>;
using kr_fn     = dep::key<KR, dep::fn<Obj&>>;
using kr_opt    = dep::opt<kr_ref>;
using ki_int    = dep::key<KI, int>;
using ki_opt    = dep::opt<ki_int>;
using opt_fn    = dep::opt<dep::fn<int>>;
INFO(int, 0, Val)
INFO(dep::opt<int>, 0, Opt)
INFO(dep::fn<int>, 0, Fn)
INFO(opt_fn, 0, OptFn)
INFO(std::string, 1, Val)
INFO(dep::opt<std::string>, 1, Opt)
INFO(kr_ref, 2, Val)
INFO(kr_opt, 2, Opt)
INFO(kr_fn, 2, Fn)
INFO(ki_int, 3, Val)
INFO(ki_opt, 3, Opt)

template <typename... Ts>
struct types
{};
template <typename... Ts>
constexpr int count(types<Ts...>)
{
    return sizeof...(Ts);
}

using all = types<lager::deps<int, std::string, kr_ref>,
                  lager::deps<kr_ref, std::string, int>,
                  lager::deps<int>,
                  lager::deps<dep::opt<int>, std::string>,
                  lager::deps<dep::opt<int>, dep::opt<std::string>, kr_opt>,
                  lager::deps<>,
                  lager::deps<dep::fn<int>, std::string>,
                  lager::deps<opt_fn, kr_ref>,
                  lager::deps<kr_fn, dep::opt<std::string>>,
                  lager::deps<std::string, kr_opt>,
                  lager::deps<ki_int, int>,
                  lager::deps<ki_opt, kr_ref, dep::opt<std::string>>>;
const char* names[] = {"int,string,KR:ref", "KR:ref,string,int", "int", "opt int,string",
                       "opt int,opt string,opt KR:ref", "", "fn int,string", "opt fn int,KR:ref",
                       "KR:fn ref,opt string", "string,opt KR:ref", "KI:int,int",
                       "opt KI:int,KR:ref,opt string"};
// those that others are merged with
using others = types<lager::deps<int>,
                     lager::deps<dep::opt<int>, std::string>,
                     lager::deps<kr_ref, std::string, int>,
                     lager::deps<ki_int, int>,
                     lager::deps<>>;

template <typename D>
struct kinds;
template <typename... Ts>
struct kinds<lager::deps<Ts...>>
{
    static constexpr std::array<Kind, nkeys> get()
    {
        std::array<Kind, nkeys> r{};
        ((r[info<Ts>::key] = info<Ts>::kind), ...);
        return r;
    }
};

constexpr bool ok(Kind from, Kind to, bool ref)
{
    switch (to) {
    case Absent: return true;
    case Val: return from == Val || (ref && from == Fn);
    case Opt: return from == Absent || from == Val || from == Opt;
    case Fn: return from == Fn;
    case OptFn: return from == Absent || from == Fn || from == OptFn;
    }
    return false;
}
constexpr bool required(Kind k) { return k == Val || k == Fn; }

template <typename A, typename B>
constexpr bool convertible()
{
    auto a = kinds<A>::get(), b = kinds<B>::get();
    for (int i = 0; i < nkeys; ++i)
        if (!ok(a[i], b[i], i == 2))
            return false;
    return true;
}
template <typename A, typename B>
constexpr auto united()
{
    auto a = kinds<A>::get(), b = kinds<B>::get();
    for (int i = 0; i < nkeys; ++i)
        if (b[i] != Absent)
            a[i] = b[i];
    return a;
}
template <typename A, typename B, typename To>
constexpr bool united_convertible()
{
    auto a = united<A, B>();
    auto b = kinds<To>::get();
    for (int i = 0; i < nkeys; ++i)
        if (!ok(a[i], b[i], i == 2))
            return false;
    return true;
}

struct MVal
{
    bool present = false;
    int id       = 0;
    bool live    = false; // computed each time
};
using Model = std::array<MVal, nkeys>;

struct World
{
    mc::Run& run;
    std::array<Obj, 400> objs;
    int live = 0;
    int next = 0;
    World(mc::Run& r)
        : run{r}
    {
        for (int i = 0; i < 400; ++i)
            objs[i].id = i;
    }
};

std::string text(int id) { return "a string that is long enough for the heap " + std::to_string(id); }

// the argument that makes a dependency
template <typename Spec>
auto arg(World& w, Model& m)
{
    using I = info<Spec>;
    int id  = ++w.next;
    auto& v = m[I::key];
    v       = {true, id, I::kind == Fn || I::kind == OptFn};
    if (I::kind == Opt || I::kind == OptFn)
        v.present = w.run.flip();
    auto* wp = &w;
    typename dep::to_spec<Spec>::storage out = [&]() -> typename dep::to_spec<Spec>::storage {
        if constexpr (I::key == 0 || I::key == 3) {
            if constexpr (I::kind == Val)
                return id;
            else if constexpr (I::kind == Opt)
                return v.present ? std::make_optional(typename dep::to_spec<int>::storage{id}) : std::nullopt;
            else if constexpr (I::kind == Fn)
                return [wp, id] { return typename dep::to_spec<int>::storage{id + wp->live}; };
            else
                return v.present ? std::make_optional(typename dep::to_spec<dep::fn<int>>::storage{
                                       [wp, id] { return typename dep::to_spec<int>::storage{id + wp->live}; }})
                                 : std::nullopt;
        } else if constexpr (I::key == 1) {
            if constexpr (I::kind == Val)
                return text(id);
            else
                return v.present ? std::make_optional(typename dep::to_spec<std::string>::storage{text(id)})
                                 : std::nullopt;
        } else {
            if constexpr (I::kind == Val)
                return std::ref(w.objs[id]);
            else if constexpr (I::kind == Opt)
                return v.present ? std::make_optional(std::ref(w.objs[id])) : std::nullopt;
            else
                return [wp, id]() -> std::reference_wrapper<Obj> { return wp->objs[id + wp->live]; };
        }
    }();
    return out;
}

template <typename D>
struct maker;
template <typename... Ts>
struct maker<lager::deps<Ts...>>
{
    static lager::deps<Ts...> make(World& w, Model& m)
    {
        m = {};
        // (braces: in order)
        std::tuple<typename dep::to_spec<Ts>::storage...> args{arg<Ts>(w, m)...};
        return std::apply([](auto&... as) { return lager::deps<Ts...>::with(as...); }, args);
    }
};

template <int Key, typename D>
void check_key(World& w, const D& d, Kind kind, const MVal& v)
{
    using key = std::tuple_element_t<Key, std::tuple<int, std::string, KR, KI>>;
    auto& run = w.run;
    MC_CHECK(run, d.template has<key>() == v.present,
             "has() says " << !v.present << " for the dependency " << Key);
    MC_CHECK(run, lager::has<key>(d) == v.present, "has(d) differs from d.has()");
    if (!v.present) {
        bool thrown = false;
        try {
            (void) d.template get<key>();
        } catch (const lager::missing_dependency_error&) {
            thrown = true;
        }
        MC_CHECK(run, thrown, "get() of a missing dependency did not throw");
        return;
    }
    int want = v.id + (v.live ? w.live : 0);
    if constexpr (Key == 0 || Key == 3)
        MC_CHECK(run, d.template get<key>() == want && lager::get<key>(d) == want,
                 "dependency " << Key << " is " << d.template get<key>() << " instead of " << want);
    else if constexpr (Key == 1)
        MC_CHECK(run, d.template get<key>() == text(want),
                 "the string dependency is '" << d.template get<key>() << "' instead of '" << text(want) << "'");
    else
        MC_CHECK(run, &d.template get<key>() == &w.objs[want],
                 "the reference dependency refers to object " << d.template get<key>().id << " instead of " << want);
}

template <typename D>
void check(World& w, const D& d, const Model& m)
{
    constexpr auto ks = kinds<D>::get();
    for (int pass = 0; pass < 2; ++pass) {
        if constexpr (ks[0] != Absent)
            check_key<0>(w, d, ks[0], m[0]);
        if constexpr (ks[1] != Absent)
            check_key<1>(w, d, ks[1], m[1]);
        if constexpr (ks[2] != Absent)
            check_key<2>(w, d, ks[2], m[2]);
        if constexpr (ks[3] != Absent)
            check_key<3>(w, d, ks[3], m[3]);
        ++w.live; // the computed ones follow
    }
}

template <typename To>
Model narrowed(const World& w, std::array<Kind, nkeys> from, Model m)
{
    auto ks = kinds<To>::get();
    for (int i = 0; i < nkeys; ++i) {
        if (ks[i] == Absent)
            m[i] = {};
        if (m[i].live && ks[i] == Val) { // fixed at the conversion
            m[i].live = false;
            m[i].id += w.live;
        }
    }
    return m;
}

template <typename L>
struct pick;
template <typename... Ts>
struct pick<types<Ts...>>
{
    template <typename Fn>
    static void go(int n, Fn&& fn)
    {
        int i = 0;
        ((i++ == n ? fn(static_cast<Ts*>(nullptr)) : void()), ...);
    }
};

#ifndef MERGES
template <typename D>
void walk(World& w, D d, const Model& m, int depth)
{
    check(w, d, m);
    w.run.step();
    mc::u64 h = typeid(D).hash_code();
    for (auto& v : m)
        h = mc::mix(h, v.present * 1000 + v.id * 2 + v.live);
    w.run.state(h);
    if (depth == 0) {
        w.run.outcome(h);
        return;
    }
    int op = w.run.choose(5);
    if (op == 0) { // copies and moves
        MC_LOG(w.run, "copy, assign, move");
        auto p = std::make_unique<D>(d);
        D a{*p};
        Model m2;
        if constexpr (std::is_default_constructible_v<D>) {
            D b{};
            b = a;
            check(w, b, m);
        }
        D c = maker<D>::make(w, m2);
        check(w, c, m2);
        c = *p;
        p.reset();
        check(w, c, m);
        D e = std::move(c);
        a   = std::move(e);
        check(w, d, m);
        check(w, a, m);
        w.run.outcome(h);
        return;
    }
    int n = w.run.choose(count(all{}));
    pick<all>::go(n, [&](auto* p) {
        using To = std::decay_t<decltype(*p)>;
        if (op <= 2) {
            constexpr bool req = [] {
                auto a = kinds<D>::get(), b = kinds<To>::get();
                for (int i = 0; i < nkeys; ++i)
                    if (required(b[i]) && !required(a[i]))
                        return false;
                return true;
            }();
            MC_CHECK(w.run, (req == std::is_convertible_v<D, To>),
                     "dependencies must be convertible when the required ones are there");
            if constexpr (convertible<D, To>()) {
                MC_LOG(w.run, "convert to deps<" << names[n] << ">");
                if (op == 1) {
                    To to   = d;
                    auto m2 = narrowed<To>(w, kinds<D>::get(), m);
                    check(w, d, m);
                    walk(w, to, m2, depth - 1);
                } else {
                    auto m2 = narrowed<To>(w, kinds<D>::get(), m);
                    walk(w, To{std::move(d)}, m2, depth - 1);
                }
            } else
                w.run.prune();
            return;
        }
        int o = w.run.choose(count(others{}));
        pick<others>::go(o, [&](auto* q) {
            using Other = std::decay_t<decltype(*q)>;
            if constexpr (united_convertible<D, Other, To>()) {
                MC_LOG(w.run, (op == 3 ? "merge and convert" : "construct from two, ")
                                  << " to deps<" << names[n] << ">");
                Model mo;
                auto other = maker<Other>::make(w, mo);
                auto merged = m;
                auto ko     = kinds<Other>::get();
                for (int i = 0; i < nkeys; ++i)
                    if (ko[i] != Absent)
                        merged[i] = mo[i];
                if (op == 3) {
                    auto u = d.merge(other);
                    To to{u};
                    auto m2 = narrowed<To>(w, united<D, Other>(), merged);
                    check(w, d, m);
                    check(w, other, mo);
                    // whatever is in the union
                    using U = decltype(u);
                    if constexpr (kinds<D>::get()[1] != Absent || kinds<Other>::get()[1] != Absent)
                        MC_CHECK(w.run, u.template has<std::string>() == merged[1].present,
                                 "the result of merge() has another string");
                    (void) sizeof(U);
                    walk(w, to, m2, depth > 2 ? depth - 2 : 0); // (merging costs two)
                } else {
                    To to{d, other};
                    auto m2 = narrowed<To>(w, united<D, Other>(), merged);
                    check(w, d, m);
                    check(w, other, mo);
                    walk(w, to, m2, depth > 2 ? depth - 2 : 0);
                }
            } else
                w.run.prune();
        });
    });
}

} // namespace

MC_SCENARIO(chains, 3)
{
    World w{run};
    int n = run.choose(count(all{}));
    MC_LOG(run, "start with deps<" << names[n] << ">");
    pick<all>::go(n, [&](auto* p) {
        using D = std::decay_t<decltype(*p)>;
        Model m;
        auto d = maker<D>::make(w, m);
        walk(w, d, m, run.bound(3, 4));
    });
}

// make_deps(): values, std::ref(), dep::as<>()
MC_SCENARIO(factories, 1)
{
    World w{run};
    int kind = run.choose(4);
    Model m;
    m[0] = {true, 5, false};
    if (kind == 0) {
        int x  = 5;
        auto d = lager::make_deps(x, text(6));
        x      = 9;
        m[1]   = {true, 6, false};
        walk(w, lager::deps<int, std::string, kr_ref>{d, lager::deps<kr_ref>::with(w.objs[7])},
             {m[0], m[1], MVal{true, 7, false}, MVal{}}, run.bound(2, 3));
    } else if (kind == 1) {
        auto d = lager::make_deps(std::ref(w.objs[3]));
        lager::deps<Obj&> e{d};
        MC_CHECK(run, &d.get<Obj>() == &w.objs[3] && &e.get<Obj>() == &w.objs[3],
                 "a reference dependency was copied");
        run.outcome(1);
    } else if (kind == 2) {
        auto d = lager::make_deps(dep::as<ki_int>(8), 5);
        m[3]   = {true, 8, false};
        walk(w, lager::deps<ki_int, int>{d}, m, run.bound(2, 3));
    } else {
        auto* wp = &w;
        auto d   = lager::make_deps(
            dep::as<dep::fn<Obj&>>([wp]() -> Obj& { return wp->objs[2 + wp->live]; }), 5);
        MC_CHECK(run, d.get<Obj>().id == 2, "a computed reference is wrong");
        w.live = 3;
        MC_CHECK(run, d.get<Obj>().id == 5, "a computed reference is stale");
        lager::deps<Obj&, dep::opt<double>> e{d};
        w.live = 4;
        MC_CHECK(run, e.get<Obj>().id == 5 && d.get<Obj>().id == 6 && !e.has<double>(),
                 "a reference extracted from a function is wrong");
        run.outcome(2);
    }
}

#else // MERGES: bags with the same kinds of dependencies, also at the same keys

using bags = types<lager::deps<>,
                   lager::deps<int>,
                   lager::deps<std::string, kr_ref>,
                   lager::deps<ki_int, int>,
                   lager::deps<std::string, int, kr_ref, ki_int>,
                   lager::deps<kr_ref, ki_int, int, std::string>,
                   lager::deps<kr_ref>>;

} // namespace

MC_SCENARIO(merges, 1)
{
    World w{run};
    pick<bags>::go(run.choose(count(bags{})), [&](auto* p) {
        using A = std::decay_t<decltype(*p)>;
        pick<bags>::go(run.choose(count(bags{})), [&](auto* q) {
            using B = std::decay_t<decltype(*q)>;
            Model ma, mb;
            A a{maker<A>::make(w, ma)};
            B b{maker<B>::make(w, mb)};
            auto m  = ma;
            auto kb = kinds<B>::get();
            for (int i = 0; i < nkeys; ++i)
                if (kb[i] != Absent)
                    m[i] = mb[i];
            constexpr auto ks = united<A, B>();
            auto judge        = [&](const auto& u) {
                if constexpr (ks[0] != Absent)
                    check_key<0>(w, u, ks[0], m[0]);
                if constexpr (ks[1] != Absent)
                    check_key<1>(w, u, ks[1], m[1]);
                if constexpr (ks[2] != Absent)
                    check_key<2>(w, u, ks[2], m[2]);
                if constexpr (ks[3] != Absent)
                    check_key<3>(w, u, ks[3], m[3]);
                check(w, a, ma);
                check(w, b, mb);
            };
            auto u = a.merge(b);
            judge(u);
            A a2{a};
            B b2{b};
            judge(a2.merge(std::move(b2)));
            judge(A{a}.merge(b));
            // and once more
            auto v = u.merge(a);
            for (int i = 0; i < nkeys; ++i)
                if (kinds<A>::get()[i] != Absent)
                    m[i] = ma[i];
            judge(v);
            run.step();
            run.state(mc::mix(typeid(A).hash_code(), typeid(B).hash_code()));
            run.outcome(mc::mix(typeid(A).hash_code(), typeid(B).hash_code()));
        });
    });
}
#endif
