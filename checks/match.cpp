// C25: match, visitor, forward_variant and the other helpers of util.hpp, for
// all alternatives of one to three variants of all categories.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/util.hpp>

#include <memory>
#include <string>
#include <variant>

namespace {

template <int N>
struct Alt
{
    int id    = 0;
    int moves = 0, copies = 0;
    Alt() = default;
    explicit Alt(int i)
        : id{i}
    {
    }
    Alt(Alt&& o)
        : id{o.id}
        , moves{o.moves + 1}
        , copies{o.copies}
    {
        o.id = -1;
    }
    Alt(const Alt& o)
        : id{o.id}
        , moves{o.moves}
        , copies{o.copies + 1}
    {
    }
    Alt& operator=(Alt&&) = default;
    Alt& operator=(const Alt&) = default;
};
using V = std::variant<Alt<0>, Alt<1>, Alt<2>>;
struct Inherited : V
{
    using V::V;
    Inherited(V v)
        : V{std::move(v)}
    {
    }
};
struct Extra // a second base before the variant
{
    int x = 5;
    virtual ~Extra() = default;
};
struct Derived
    : Extra
    , V
{
    using V::V;
    Derived(V v)
        : V{std::move(v)}
    {
    }
};
struct Twice : Inherited
{
    using Inherited::Inherited;
};
struct Other
{};

static_assert(lager::is_variant_v<V> && lager::is_variant_v<V&> && lager::is_variant_v<const V&> &&
              lager::is_variant_v<V&&> && lager::is_variant_v<Inherited> && lager::is_variant_v<const Derived&> &&
              lager::is_variant_v<Twice&&> && !lager::is_variant_v<int> && !lager::is_variant_v<Other&> &&
              !lager::is_variant_v<Alt<0>>);
static_assert(std::is_same_v<lager::get_variant_t<V>, V> && std::is_same_v<lager::get_variant_t<const Inherited&>, V> &&
              std::is_same_v<lager::get_variant_t<Derived&&>, V> && std::is_same_v<lager::get_variant_t<Twice&>, V>);

enum Cat { LRef, ConstLRef, RRef, ConstRRef, NCats };
const char* cat_names[] = {"&", "const&", "&&", "const&&"};

template <typename T>
constexpr Cat cat_of = std::is_lvalue_reference_v<T>
                           ? (std::is_const_v<std::remove_reference_t<T>> ? ConstLRef : LRef)
                           : (std::is_const_v<std::remove_reference_t<T>> ? ConstRRef : RRef);

template <typename T>
struct alt_of;
template <int N>
struct alt_of<Alt<N>>
{
    static constexpr int value = N;
};

V make(int alt, int id)
{
    switch (alt) {
    case 0: return V{std::in_place_index<0>, id};
    case 1: return V{std::in_place_index<1>, id};
    default: return V{std::in_place_index<2>, id};
    }
}

const void* address(const V& v)
{
    return std::visit([](auto& x) -> const void* { return &x; }, v);
}

// what a visitor saw in each place
struct Seen
{
    int alt = -1, id = -1;
    Cat cat         = NCats;
    const void* at  = nullptr;
};

template <typename T>
Seen note(T&& x)
{
    return {alt_of<std::decay_t<T>>::value, x.id, cat_of<T&&>, &x};
}

template <typename W, typename F>
auto with_cat(int cat, W& w, F&& f)
{
    switch (cat) {
    case LRef: return f(w);
    case ConstLRef: return f(std::as_const(w));
    case RRef: return f(std::move(w));
    default: return f(std::move(std::as_const(w)));
    }
}
template <typename F>
auto with_type(int type, V v, F&& f)
{
    switch (type) {
    case 0: {
        V w{std::move(v)};
        return f(w);
    }
    case 1: {
        Inherited w{std::move(v)};
        return f(w);
    }
    case 2: {
        Derived w{std::move(v)};
        return f(w);
    }
    default: {
        Twice w{std::move(v)};
        return f(w);
    }
    }
}
const char* type_names[] = {"variant", "inherited", "with another base", "inherited twice"};

void compare(mc::Run& run, const Seen& s, int alt, int id, int cat, const void* at)
{
    MC_CHECK(run, s.alt == alt, "the visitor was called for alternative " << s.alt << " instead of " << alt);
    MC_CHECK(run, s.id == id, "the visitor got the value " << s.id << " instead of " << id);
    MC_CHECK(run, s.cat == cat, "the visitor got it as " << cat_names[s.cat] << " instead of " << cat_names[cat]);
    MC_CHECK(run, s.at == at, "the visitor got another object");
}

} // namespace

// one variant
MC_SCENARIO(one, 1)
{
    int type = run.choose(4), alt = run.choose(3), cat = run.choose(NCats), how = run.choose(6);
    MC_LOG(run, "match of a " << type_names[type] << " " << cat_names[cat] << " that holds alternative " << alt
                              << ", visitors " << how);
    run.step();
    with_type(type, make(alt, 42), [&](auto& w) {
        const void* at = address(w);
        with_cat(cat, w, [&](auto&& v) {
            int calls = 0;
            switch (how) {
            case 0: { // one that takes anything
                auto s = lager::match(std::forward<decltype(v)>(v))([&](auto&& x) {
                    ++calls;
                    return note(std::forward<decltype(x)>(x));
                });
                compare(run, s, alt, 42, cat, at);
                break;
            }
            case 1: { // one for each
                Seen s;
                lager::match(std::forward<decltype(v)>(v))(
                    [&](const Alt<0>& x) { ++calls; s = note(x); },
                    [&](const Alt<1>& x) { ++calls; s = note(x); },
                    [&](const Alt<2>& x) { ++calls; s = note(x); });
                compare(run, s, alt, 42, ConstLRef, at);
                break;
            }
            case 2: { // one for one and another for the others; named ones
                // (each owns something that shows when it was given away)
                int special = 0, rest = 0, spoilt = 0;
                auto f = [&, own = mc::num{5}](const Alt<1>&) { ++calls; ++special; spoilt += own.v != 5; };
                auto g = [&, own = mc::num{6}](const auto&) { ++calls; ++rest; spoilt += own.v != 6; };
                auto keep = v; // what was given may be gone
                lager::match(std::forward<decltype(v)>(v))(f, g);
                MC_CHECK(run, special == (alt == 1) && rest == (alt != 1), "the wrong visitor was called");
                lager::match(keep)(f, std::as_const(g));
                lager::match(std::as_const(keep))(f, g);
                MC_CHECK(run, special == 3 * (alt == 1) && rest == 3 * (alt != 1) && !spoilt,
                         "visitors that were used before do not work");
                calls -= 2;
                break;
            }
            case 3: { // by value: rvalues are moved, others copied
                auto s = lager::match(std::forward<decltype(v)>(v))([&](auto x) {
                    ++calls;
                    return x;
                }, [&](Alt<1> x) { ++calls; return Alt<0>{x.id + 100 * x.copies + 10000 * x.moves}; }, [&](Alt<2> x) { ++calls; return Alt<0>{x.id + 100 * x.copies + 10000 * x.moves}; });
                if (alt) {
                    int want = cat == RRef ? 42 : 142;
                    // (moves: how the variant was made, and one of the visit)
                    MC_CHECK(run, s.id % 10000 == want, "the visitor got a value with " << s.id);
                }
                break;
            }
            case 4: { // a visitor object
                auto vis = lager::visitor{[&](const Alt<0>&) { ++calls; return 0; }, [&](const Alt<1>&) { ++calls; return 1; },
                                          [&](const Alt<2>&) { ++calls; return 2; }};
                int r = std::visit(vis, static_cast<const V&>(v));
                MC_CHECK(run, r == alt, "the visitor object chose " << r);
                break;
            }
            default: { // forward_variant is the same object in the same category
                auto&& f = lager::forward_variant<decltype(v)>(v);
                static_assert(std::is_same_v<std::decay_t<decltype(f)>, V>);
                static_assert(cat_of<decltype(f)> == cat_of<decltype(v)> ||
                              !std::is_rvalue_reference_v<decltype(v)>);
                static_assert(std::is_const_v<std::remove_reference_t<decltype(f)>> ==
                              std::is_const_v<std::remove_reference_t<decltype(v)>>);
                MC_CHECK(run, address(f) == at, "forward_variant gives another object");
                calls = 1;
            }
            }
            MC_CHECK(run, calls == 1, "the visitors were called " << calls << " times");
        });
        // nobody moves what was not given as an rvalue, or not taken
        bool taken = cat == RRef && how == 3;
        int id     = std::visit([](auto& x) { return x.id; }, static_cast<V&>(w));
        if (!taken)
            MC_CHECK(run, id == 42, "the variant was changed: " << id);
    });
    run.state(((type * 3 + alt) * 4 + cat) * 6 + how);
}

// two, of different kinds and categories
MC_SCENARIO(two, 2)
{
    int t0 = run.choose(4), t1 = run.choose(4), a0 = run.choose(3), a1 = run.choose(3), c0 = run.choose(NCats),
        c1 = run.choose(NCats);
    MC_LOG(run, "match of a " << type_names[t0] << " " << cat_names[c0] << " with " << a0 << " and a " << type_names[t1]
                              << " " << cat_names[c1] << " with " << a1);
    run.step();
    with_type(t0, make(a0, 1), [&](auto& w0) {
        with_type(t1, make(a1, 2), [&](auto& w1) {
            const void *p0 = address(w0), *p1 = address(w1);
            with_cat(c0, w0, [&](auto&& v0) {
                with_cat(c1, w1, [&](auto&& v1) {
                    Seen s0, s1;
                    int calls = 0;
                    int r = lager::match(std::forward<decltype(v0)>(v0), std::forward<decltype(v1)>(v1))(
                        [&](auto&& x, auto&& y) {
                            ++calls;
                            s0 = note(std::forward<decltype(x)>(x));
                            s1 = note(std::forward<decltype(y)>(y));
                            return x.id * 10 + y.id;
                        });
                    compare(run, s0, a0, 1, c0, p0);
                    compare(run, s1, a1, 2, c1, p1);
                    MC_CHECK(run, calls == 1 && r == 12, "the result is " << r << " after " << calls << " calls");
                });
            });
        });
    });
    run.state(((((t0 * 4 + t1) * 3 + a0) * 3 + a1) * 4 + c0) * 4 + c1);
}

// three; the most specific visitor is the one called
MC_SCENARIO(three, 1)
{
    int a0 = run.choose(3), a1 = run.choose(3), a2 = run.choose(3), c = run.choose(2);
    MC_LOG(run, "match of three with " << a0 << " " << a1 << " " << a2);
    run.step();
    V x = make(a0, 1);
    Inherited y{make(a1, 2)};
    const Derived z{make(a2, 3)};
    std::string which;
    if (c) {
        lager::match(x, y, z)([&](const auto&, const auto&, const auto&) { which = "any"; },
                              [&](const Alt<0>&, const auto&, const auto&) { which = "0**"; },
                              [&](const Alt<0>&, const Alt<1>&, const Alt<2>&) { which = "012"; });
        std::string want = a0 != 0 ? "any" : a1 == 1 && a2 == 2 ? "012" : "0**";
        MC_CHECK(run, which == want, "called " << which << " instead of " << want);
    } else {
        lager::match(x, y, z)([&](auto& p, auto& q, auto& r) {
            which = std::to_string(p.id) + std::to_string(q.id) + std::to_string(r.id);
        });
        MC_CHECK(run, which == "123", "the values came as " << which);
    }
    run.state(((a0 * 3 + a1) * 3 + a2) * 2 + c);
}

// identity gives back what it got, noop takes anything
MC_SCENARIO(small_ones, 1)
{
    int cat = run.choose(NCats);
    run.step();
    Alt<0> x{3};
    with_cat(cat, x, [&](auto&& v) {
        auto&& r = lager::identity(std::forward<decltype(v)>(v));
        static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>> ==
                      std::is_const_v<std::remove_reference_t<decltype(v)>>);
        MC_CHECK(run, &r == &x && r.id == 3, "identity gives something else");
        lager::noop(std::forward<decltype(v)>(v), 1, std::make_unique<int>(2));
        lager::noop();
        MC_CHECK(run, x.id == 3 && x.copies == 0, "noop or identity took something away");
        MC_CHECK(run, &lager::unwrap(x) == &x, "unwrap gives something else");
    });
    run.state(cat);
}
