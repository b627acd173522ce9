// Things given by name stay with whoever named them: passing the same value,
// function, handle or bag of dependencies again and again, by name or as a
// temporary, always means the same.  All of them hold values that show that
// they were moved away or destroyed.
#include "../engine/mc.hpp"
#include "value.hpp"

#ifndef PART
#define PART 0
#endif
#define IN_PART(n) (PART == 0 || PART == n)

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/context.hpp>
#include <lager/cursor.hpp>
#include <lager/deps.hpp>
#include <lager/effect.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/future.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <zug/transducer/map.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <vector>

namespace {

using mc::num;
using Auto  = lager::automatic_tag;
using Trans = lager::transactional_tag;

// how a named thing is passed
constexpr int forms = 3;
template <typename T, typename F>
decltype(auto) pass(int form, T& x, F&& f)
{
    switch (form) {
    case 0: return f(x);
    case 1: return f(std::as_const(x));
    default: return f(T{x});
    }
}
const char* form_name(int form)
{
    return form == 0 ? "x" : form == 1 ? "as_const(x)" : "T{x}";
}

std::string show(const std::vector<int>& v)
{
    std::string s = "[";
    for (auto x : v)
        s += std::to_string(x) + " ";
    return s + "]";
}

// functions that own something
struct Log
{
    std::vector<int> calls;
    std::vector<int> take()
    {
        std::sort(calls.begin(), calls.end());
        return std::move(calls);
    }
};

struct Watcher
{
    Log* log;
    num tag;
    void operator()(const num& x) const { log->calls.push_back(tag.v * 1000 + x.v); }
};

struct Adder
{
    num by;
    num operator()(const num& x) const& { return num{x.v + by.v}; }
    // called as a temporary it spends what it owns
    num operator()(const num& x) && { return num{x.v + num{std::move(by)}.v}; }
};

struct Pair
{
    num a, b;
    friend bool operator==(const Pair& x, const Pair& y) { return x.a == y.a && x.b == y.b; }
};

#if IN_PART(1)

// ---- C01: the values and functions of the roots

struct Sampler
{
    int* where;
    num by;
    num operator()() const { return num{*where + by.v}; }
};

MC_SCENARIO(named_roots, 2)
{
    num value{3};
    int expected = 3; // what the value should be
    int where    = 10;
    Sampler sampler{&where, 100};
    struct Root
    {
        lager::reader<num> r;
        std::function<void()> commit;
        bool sensor;
        int want;
    };
    std::vector<Root> roots;
    auto add = [&](auto root, bool sensor, int want) {
        auto p = std::make_shared<decltype(root)>(std::move(root));
        roots.push_back({*p, [p] { lager::commit(*p); }, sensor, want});
    };
    int depth = run.bound(3, 4);
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op = run.choose(11);
        if (op < 9) {
            int form = run.choose(forms);
            MC_LOG(run, "root of kind " << op << " from " << form_name(form));
            auto from_value = [&](auto&& v) {
                using V = decltype(v);
                switch (op) {
                case 0: return add(lager::make_state(std::forward<V>(v)), false, expected);
                case 1: return add(lager::make_state(std::forward<V>(v), Auto{}), false, expected);
                case 2: return add(lager::state<num>{std::forward<V>(v)}, false, expected);
                case 3: return add(lager::state<num, Auto>{std::forward<V>(v)}, false, expected);
                case 4: return add(lager::make_constant(std::forward<V>(v)), false, expected);
                default: return add(lager::constant<num>{std::forward<V>(v)}, false, expected);
                }
            };
            auto from_fn = [&](auto&& f) {
                using F = decltype(f);
                int now = where + 100;
                if (op == 6)
                    add(lager::make_sensor(std::forward<F>(f)), true, now);
                else
                    add(lager::sensor<num>{std::forward<F>(f)}, true, now);
            };
            if (op < 6)
                pass(form, value, from_value);
            else if (op < 8)
                pass(form, sampler, from_fn);
            else { // a sensor of a function that is kept by reference
                add(lager::make_sensor(std::ref(sampler)), true, where + 100);
            }
        } else if (op == 9) {
            MC_LOG(run, "the named value and what is sensed change");
            value = num{++expected};
            ++where;
        } else {
            MC_LOG(run, "commit of everything");
            for (auto& r : roots) {
                r.commit();
                if (r.sensor)
                    r.want = where + 100;
            }
        }
        for (std::size_t k = 0; k < roots.size(); ++k)
            MC_CHECK(run,
                     roots[k].r.get().v == roots[k].want,
                     "root " << k << " shows " << roots[k].r.get().v << ", not "
                             << roots[k].want);
        MC_CHECK(run, value.v == expected, "the named value became " << value.v);
        MC_CHECK(run, sampler.by.v == 100, "the named sensor became " << sampler.by.v);
    }
}

#endif

#if IN_PART(2)

// ---- C02: callbacks

MC_SCENARIO(named_watchers, 2)
{
    Log log;
    Watcher named{&log, 7};
    lager::state<num, Auto> root{num{0}};
    lager::reader<num> kept[2] = {root, root.map([](const num& x) { return num{x.v + 10}; })};
    lager::cursor<num> cur     = root;
    int connected[3]           = {0, 0, 0};
    std::vector<lager::reader<num>> extra; // what lager::watch() returned
    int x     = 0;
    int depth = run.bound(3, 4);
    auto shown = [&](int h) { return h == 1 ? x + 10 : x; };
    auto on    = [&](int h, auto&& f) {
        if (h == 2)
            f(cur);
        else
            f(kept[h]);
    };
    for (int i = 0; i <= depth; ++i) {
        run.step();
        std::vector<int> want;
        // at last, a change
        int op = i == depth ? 3 : run.choose(6);
        switch (op) {
        case 0:
        case 1:
        case 2: {
            int h = run.choose(3), form = run.choose(forms);
            MC_LOG(run,
                   (op == 0 ? "watch" : op == 1 ? "bind" : "lager::watch")
                       << " of handle " << h << " with " << form_name(form));
            pass(form, named, [&](auto&& cb) {
                using C = decltype(cb);
                on(h, [&](auto& r) {
                    if (op == 0)
                        r.watch(std::forward<C>(cb));
                    else if (op == 1)
                        r.bind(std::forward<C>(cb));
                    else
                        lager::watch(r, std::forward<C>(cb));
                });
            });
            ++connected[h];
            if (op == 1)
                want.push_back(7000 + shown(h));
            break;
        }
        case 3: {
            ++x;
            MC_LOG(run, "set to " << x);
            root.set(num{x});
            for (int h = 0; h < 3; ++h)
                for (int k = 0; k < connected[h]; ++k)
                    want.push_back(7000 + shown(h));
            break;
        }
        case 4: {
            int h = run.choose(3);
            MC_LOG(run, "nudge of handle " << h);
            on(h, [&](auto& r) { r.nudge(); });
            for (int k = 0; k < connected[h]; ++k)
                want.push_back(7000 + shown(h));
            break;
        }
        default: {
            int h = run.choose(3);
            MC_LOG(run, "unbind of handle " << h);
            on(h, [&](auto& r) { r.unbind(); });
            connected[h] = 0;
        }
        }
        std::sort(want.begin(), want.end());
        auto got = log.take();
        MC_CHECK(run, got == want, "calls " << show(got) << ", not " << show(want));
        named(num{1}); // still good
        got = log.take();
        MC_CHECK(run, got == std::vector<int>{7001}, "the named callback became " << show(got));
    }
}

#endif

#if IN_PART(3)

// ---- C03: values and functions written

template <typename Tag>
void named_writes(mc::Run& run)
{
    num value{20};
    Adder fn{1000};
    auto root = lager::make_state(Pair{1, 2}, Tag{});
    lager::state<num, Tag> other{num{3}};
    lager::cursor<Pair> whole   = root;
    lager::cursor<num> a        = root[&Pair::a];
    lager::cursor<num> b        = whole.zoom(lager::lenses::attr(&Pair::b));
    lager::cursor<num> shifted  = a.xform(zug::map([](const num& x) { return num{x.v + 1}; }),
                                         zug::map([](const num& x) { return num{x.v - 1}; }));
    lager::cursor<num> side     = other;
    lager::cursor<std::tuple<num, num>> both = lager::with(b, side);
    lager::cursor<num> fst      = both.zoom(lager::lenses::element<1>);
    std::tuple<num, num> pair{4, 5};
    auto swap = [by = num{1}](const std::tuple<num, num>& t) {
        return std::tuple<num, num>{num{std::get<1>(t).v + by.v},
                                    num{std::get<0>(t).v + by.v}};
    };
    int va = 1, vb = 2, vo = 3;
    bool trans = std::is_same_v<Tag, Trans>;
    int depth  = run.bound(3, 4);
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op   = run.choose(13);
        int form = run.choose(forms);
        MC_LOG(run, "write " << op << " with " << form_name(form));
        auto set    = [&](auto& c) { pass(form, value, [&](auto&& v) { c.set(std::forward<decltype(v)>(v)); }); };
        auto update = [&](auto& c) { pass(form, fn, [&](auto&& f) { c.update(std::forward<decltype(f)>(f)); }); };
        switch (op) {
        case 0: set(a), va = value.v; break;
        case 1: set(b), vb = value.v; break;
        case 2: set(side), vo = value.v; break;
        case 3: set(other), vo = value.v; break;
        case 4: set(shifted), va = value.v - 1; break;
        case 5: set(fst), vo = value.v; break;
        case 6: pass(form, pair, [&](auto&& v) { both.set(std::forward<decltype(v)>(v)); }), vb = 4, vo = 5; break;
        case 7: update(a), va += 1000; break;
        case 8: update(other), vo += 1000; break;
        case 9: update(shifted), va += 1000; break;
        case 10: update(fst), vo += 1000; break;
        case 11: {
            pass(form, swap, [&](auto&& f) { both.update(std::forward<decltype(f)>(f)); });
            std::swap(vb, vo);
            ++vb, ++vo;
            break;
        }
        default: {
            Pair p{value, pair == pair ? std::get<1>(pair) : num{}};
            pass(form, p, [&](auto&& v) { whole.set(std::forward<decltype(v)>(v)); });
            MC_CHECK(run, (p == Pair{value, 5}), "the named pair became {" << p.a.v << " " << p.b.v << "}");
            va = value.v, vb = 5;
        }
        }
        if (trans)
            lager::commit(root, other);
        MC_CHECK(run, value.v == 20, "the named value became " << value.v);
        MC_CHECK(run, fn.by.v == 1000, "the named function became " << fn.by.v);
        MC_CHECK(run,
                 std::get<0>(pair).v == 4 && std::get<1>(pair).v == 5,
                 "the named pair became " << std::get<0>(pair).v << " " << std::get<1>(pair).v);
        auto is = [&](const char* what, int got, int want) {
            MC_CHECK(run, got == want, what << " is " << got << ", not " << want);
        };
        is("a", a.get().v, va);
        is("b", b.get().v, vb);
        is("the other root", side.get().v, vo);
        is("a through the pair", whole.get().a.v, va);
        is("b through the pair", whole.get().b.v, vb);
        is("the shifted one", shifted.get().v, va + 1);
        is("the first of both", std::get<0>(both.get()).v, vb);
        is("the second of both", fst.get().v, vo);
    }
}

MC_SCENARIO(named_writes_transactional, 2) { named_writes<Trans>(run); }
MC_SCENARIO(named_writes_automatic, 2) { named_writes<Auto>(run); }

#endif

#if IN_PART(4)

// ---- C04: named handles, lenses, transducers, functions and keys

struct Want
{
    int* at;
    int plus;
    int operator()() const { return *at + plus; }
};

MC_SCENARIO(named_derivations, 2)
{
    lager::state<Pair, Auto> root{Pair{1, 2}};
    lager::state<num, Auto> other{num{3}};
    lager::reader<Pair> pair  = root;
    lager::reader<num> side   = other;
    lager::cursor<Pair> wpair = root;
    lager::cursor<num> wside  = other;
    Adder fn{100};
    auto sum   = [by = num{1000}](const num& x, const Pair& p) { return num{x.v + p.a.v + by.v}; };
    auto least = [max = num{9000}](const num& x) { return x.v <= max.v; };
    auto lens  = lager::lenses::attr(&Pair::a);
    auto shift = zug::comp([tag = num{50}](auto&& f) {
        return [f = LAGER_FWD(f), &tag](auto&& p) {
            return f(num{LAGER_FWD(p).v + tag.v})([&](auto&& x) { return num{x.v - tag.v}; });
        };
    });
    auto xf     = zug::map(fn);
    auto back   = zug::map(Adder{-100});
    auto member = &Pair::b;
    int pa = 1, pb = 2, po = 3;
    struct Made
    {
        lager::reader<num> r;
        std::function<int()> want;
        std::optional<lager::cursor<num>> c = {};
        int* written                        = nullptr;
    };
    std::vector<Made> made;
    using Table = std::map<num, num>;
    lager::state<Table, Auto> tables{Table{{num{1}, num{2}}, {num{3}, num{4}}}};
    lager::reader<Table> table  = tables;
    lager::cursor<Table> wtable = tables;
    num key{3};
    int cell = 4;
    lager::state<std::optional<num>, Auto> maybe{std::optional<num>{num{60}}};
    lager::cursor<std::optional<num>> wmaybe = maybe;
    auto value_or = zug::comp([fallback = num{70}](auto&& f) {
        return [f = LAGER_FWD(f), &fallback](const std::optional<num>& p) {
            return f(p && fallback.v == 70 ? *p : fallback)(
                [&](auto&& x) { return std::optional<num>{LAGER_FWD(x)}; });
        };
    });
    auto strict = zug::comp([tag = num{50}](auto&& f) {
        return [f = LAGER_FWD(f), &tag](const num& p) {
            return f(num{p.v + tag.v})([&](auto&& x) { return num{x.v - tag.v}; });
        };
    });
    int inside = 60;
    auto add  = [&](lager::reader<num> r, auto f) { made.push_back({r, f}); };
    auto addw = [&](lager::cursor<num> c, auto f) { made.push_back({c, f, c, f.at}); };
    int depth = run.bound(3, 3);
    auto check = [&] {
        for (std::size_t k = 0; k < made.size(); ++k)
            MC_CHECK(run,
                     made[k].r.get().v == made[k].want(),
                     "derivation " << k << " shows " << made[k].r.get().v << ", not "
                                   << made[k].want());
        MC_CHECK(run, key.v == 3, "the named key became " << key.v);
    };
    for (int i = 0; i <= depth; ++i) {
        run.step();
        int op = i == depth ? 0 : run.choose(32);
        if (op == 0) {
            MC_LOG(run, "changes");
            ++pa, pb += 2, po += 3;
            root.set(Pair{pa, pb});
            other.set(num{po});
            tables.set(Table{{num{1}, num{2}}, {num{3}, num{cell += 1}}});
            check();
            for (auto& m : made) {
                if (!m.c)
                    continue;
                m.c->set(num{m.want() + 10});
                *m.written += 10;
                check();
            }
        } else {
            int how = run.choose(forms), form = run.choose(forms);
            MC_LOG(run,
                   "derivation " << op << " of " << form_name(how) << " by "
                                 << form_name(form));
            auto derive = [&](auto& handle, auto& thing, auto&& f) {
                pass(how, handle, [&](auto&& h) {
                    using H = decltype(h);
                    pass(form, thing, [&](auto&& t) {
                        f(std::forward<H>(h), std::forward<decltype(t)>(t));
                    });
                });
            };
            auto plus   = [](int& x, int n) { return Want{&x, n}; };
            auto a_plus = [&](int n) { return plus(pa, n); };
            auto b_plus = [&](int n) { return plus(pb, n); };
            auto o_plus = [&](int n) { return plus(po, n); };
#define DERIVE(handle, thing, want, ...)                                       \
    derive(handle, thing, [&](auto&& h, auto&& t) {                            \
        add(__VA_ARGS__, want);                                                \
    });                                                                        \
    break
#define DERIVEW(handle, thing, want, ...)                                      \
    derive(handle, thing, [&](auto&& h, auto&& t) {                            \
        addw(__VA_ARGS__, want);                                               \
    });                                                                        \
    break
#define HANDLE std::forward<decltype(h)>(h)
#define THING std::forward<decltype(t)>(t)
            switch (op) {
            case 1: DERIVE(side, fn, o_plus(100), HANDLE.map(THING));
            case 2: DERIVE(side, xf, o_plus(100), HANDLE.xform(THING));
            case 3: DERIVE(side, shift, o_plus(50), HANDLE.zoom(THING));
            case 4: DERIVE(pair, member, b_plus(0), HANDLE[THING]);
            case 5: DERIVE(pair, lens, a_plus(0), HANDLE.zoom(THING));
            case 6:
                DERIVE(side, sum, ([&] { return po + pa + 1000; }),
                       lager::with(HANDLE, pair).map(THING));
            case 7: DERIVE(side, shift, o_plus(50), lager::with(HANDLE).zoom(THING));
            case 8: DERIVE(side, least, o_plus(0), HANDLE.filter(THING));
            case 9: DERIVE(side, least, o_plus(0), lager::with(HANDLE).filter(THING));
            case 10: DERIVE(side, fn, o_plus(200), lager::with(HANDLE).xform(xf).map(THING));
            case 11: DERIVE(side, shift, o_plus(150), lager::with(HANDLE).xform(xf).zoom(THING));
            case 12: DERIVE(side, fn, o_plus(150), lager::with(HANDLE).zoom(shift).map(THING));
            case 13: DERIVE(side, xf, o_plus(150), lager::with(HANDLE).zoom(shift).xform(THING));
            case 14:
                DERIVE(wpair, shift, b_plus(150), lager::with(HANDLE)[member].zoom(THING).map(fn));
            case 15: DERIVE(side, shift, o_plus(50), HANDLE[THING]);
            case 16: DERIVEW(wpair, member, b_plus(0), HANDLE[THING]);
            case 17: DERIVEW(wpair, lens, a_plus(0), HANDLE.zoom(THING));
            case 18: DERIVEW(wside, xf, o_plus(100), HANDLE.xform(THING, back));
            case 19: DERIVEW(wside, back, o_plus(100), HANDLE.xform(xf, THING));
            case 20:
                DERIVEW(wside, shift, o_plus(150), lager::with(HANDLE).xform(xf, back).zoom(THING));
            case 21:
                DERIVEW(wpair, shift, a_plus(50), lager::with(HANDLE).zoom(lens).zoom(THING));
            case 22:
                DERIVEW(wside, xf, o_plus(200),
                        lager::with(HANDLE).xform(xf, back).xform(THING, back));
            case 23:
                DERIVEW(wside, back, o_plus(200),
                        lager::with(HANDLE).xform(xf, back).xform(xf, THING));
            case 24:
                DERIVEW(wside, back, o_plus(150),
                        lager::with(HANDLE).zoom(shift).xform(xf, THING));
            case 25: DERIVEW(wside, shift, o_plus(50), HANDLE[THING]);
            case 26:
                DERIVE(table, key, plus(cell, 0), HANDLE[THING].zoom(lager::lenses::or_default));
            case 27:
                DERIVEW(wtable, key, plus(cell, 0), HANDLE[THING].zoom(lager::lenses::or_default));
            case 28:
                DERIVEW(wmaybe, strict, plus(inside, 50), HANDLE[THING].zoom(lager::lenses::or_default));
            case 29: DERIVEW(wmaybe, value_or, plus(inside, 0), HANDLE[THING]);
            case 30: DERIVEW(wmaybe, value_or, plus(inside, 0), HANDLE.zoom(THING));
            default:
                DERIVEW(wtable, key, plus(cell, 0),
                        lager::with(HANDLE)[THING].zoom(lager::lenses::or_default));
            }
        }
        check();
    }
}

#endif

#if IN_PART(5)

// ---- C09: setter functions

struct Setter
{
    Log* log;
    num tag;
    lager::cursor<num>* target;
    void operator()(const num& x) const
    {
        log->calls.push_back(tag.v * 1000 + x.v);
        target->set(num{x.v});
    }
};

MC_SCENARIO(named_setters, 2)
{
    Log log;
    lager::state<num, Auto> root{num{1}};
    lager::cursor<num> target = root;
    lager::reader<num> reader = root;
    Setter fn{&log, 5, &target};
    num value{20};
    int x = 1;
    std::vector<lager::cursor<num>> made;
    auto add  = [&](lager::cursor<num> c) { made.push_back(c); };
    int depth = run.bound(4, 5);
    for (int i = 0; i < depth; ++i) {
        run.step();
        std::vector<int> want;
        int op = run.choose(made.empty() ? 7 : 9);
        if (op < 6) {
            int how = run.choose(forms), form = run.choose(forms);
            MC_LOG(run, "setter " << op << " of " << form_name(how) << " by " << form_name(form));
            pass(how, reader, [&](auto&& r) {
                using R = decltype(r);
                pass(form, fn, [&](auto&& f) {
                    using F = decltype(f);
                    switch (op) {
                    case 0: return add(lager::with_setter(std::forward<R>(r), std::forward<F>(f)));
                    case 1: return add(lager::with_setter(std::forward<R>(r), std::forward<F>(f), Auto{}));
                    case 2: return add(std::forward<R>(r).setter(std::forward<F>(f)));
                    case 3: return add(std::forward<R>(r).template setter<Auto>(std::forward<F>(f)));
                    case 4: return add(lager::with(std::forward<R>(r)).setter(std::forward<F>(f)));
                    default: return add(lager::with(std::forward<R>(r)).template setter<Auto>(std::forward<F>(f)));
                    }
                });
            });
        } else if (op == 6) {
            MC_LOG(run, "set of the root to " << ++x);
            target.set(num{x});
        } else {
            auto& c  = made[run.choose(made.size())];
            int form = run.choose(forms);
            if (op == 7) {
                MC_LOG(run, "set through a setter with " << form_name(form));
                pass(form, value, [&](auto&& v) { c.set(std::forward<decltype(v)>(v)); });
                x = value.v;
            } else {
                MC_LOG(run, "update through a setter with " << form_name(form));
                Adder by{num{100}};
                pass(form, by, [&](auto&& f) { c.update(std::forward<decltype(f)>(f)); });
                MC_CHECK(run, by.by.v == 100, "the named function became " << by.by.v);
                x += 100;
            }
            want.push_back(5000 + x);
        }
        auto got = log.take();
        MC_CHECK(run, got == want, "setter calls " << show(got) << ", not " << show(want));
        MC_CHECK(run, fn.tag.v == 5, "the named setter became " << fn.tag.v);
        MC_CHECK(run, value.v == 20, "the named value became " << value.v);
        MC_CHECK(run, reader.get().v == x, "the root is " << reader.get().v << ", not " << x);
        for (auto& c : made)
            MC_CHECK(run, c.get().v == x, "a setter cursor shows " << c.get().v << ", not " << x);
    }
}

#endif

#if IN_PART(6) || IN_PART(7)

// a loop that owns something
struct Loop
{
    lager::queue_event_loop* queue;
    num tag;
    std::vector<int>* bad;
    template <typename Fn>
    void post(Fn&& fn)
    {
        if (tag.v != 9)
            bad->push_back(tag.v);
        queue->post(std::forward<Fn>(fn));
    }
    template <typename Fn>
    void async(Fn&& fn)
    {
        queue->async(std::forward<Fn>(fn));
    }
    void finish() {}
    void pause() {}
    void resume() {}
};

#endif

#if IN_PART(6)

// ---- C10: models, reducers, loops, enhancers and actions

struct Reducer
{
    num by;
    num operator()(const num& m, const num& a) const { return num{m.v + by.v * a.v}; }
};

} // namespace
namespace mc {
inline num update(const num& m, const num& a) { return num{m.v + 10 * a.v}; }
} // namespace mc
namespace {

// doubles every action
struct Doubling
{
    num two;
    template <typename Next>
    auto operator()(Next next) const
    {
        return [two = two, next](auto action, auto&& model, auto&& reducer,
                                 auto&& loop, auto&& deps, auto&& tags) {
            return next(
                action,
                LAGER_FWD(model),
                [two, reducer](auto&& m, auto&& a) {
                    return reducer(LAGER_FWD(m), num{a.v * two.v});
                },
                LAGER_FWD(loop),
                LAGER_FWD(deps),
                LAGER_FWD(tags));
        };
    }
};

struct Convert
{
    num by;
    num operator()(const num& x) const { return num{x.v + by.v}; }
};

template <typename Tag>
void named_store(mc::Run& run)
{
    lager::queue_event_loop queue;
    std::vector<int> bad;
    Loop loop{&queue, 9, &bad};
    num model{1}, action{2};
    Reducer reducer{10};
    auto plain = lager::with_reducer(reducer);
    Doubling doubling{2};
    Convert conv{5};
    struct Made
    {
        std::shared_ptr<lager::store<num, num>> store;
        int factor, want;
    };
    std::vector<Made> made;
    int depth = run.bound(3, 4);
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op = run.choose(made.empty() ? 1 : 4);
        if (op == 0) {
            int kind = run.choose(5), fm = run.choose(forms), fl = run.choose(forms),
                fe = run.choose(forms);
            MC_LOG(run,
                   "store " << kind << " with " << form_name(fm) << ", "
                            << form_name(fl) << ", " << form_name(fe));
            pass(fm, model, [&](auto&& m) {
                pass(fl, loop, [&](auto&& l) {
                    auto make = [&](auto&&... es) {
                        made.push_back(
                            {std::make_shared<lager::store<num, num>>(
                                 lager::make_store<num, Tag>(LAGER_FWD(m),
                                                             LAGER_FWD(l),
                                                             LAGER_FWD(es)...)),
                             kind == 2 ? 20 : 10,
                             1});
                    };
                    switch (kind) {
                    case 0: return pass(fe, reducer, [&](auto&& r) { make(lager::with_reducer(LAGER_FWD(r))); });
                    case 1: return pass(fe, plain, [&](auto&& e) { make(LAGER_FWD(e)); });
                    case 2: return pass(fe, doubling, [&](auto&& e) { make(plain, LAGER_FWD(e)); });
                    case 3: return pass(fe, plain, [&](auto&& e) { make(LAGER_FWD(e), lager::with_futures); });
                    default: return make();
                    }
                });
            });
        } else {
            auto& s  = made[run.choose(made.size())];
            int form = run.choose(forms);
            MC_LOG(run, "dispatch " << op << " of " << form_name(form));
            int got = action.v;
            switch (op) {
            case 1:
                pass(form, action, [&](auto&& a) { s.store->dispatch(LAGER_FWD(a)); });
                break;
            case 2: {
                lager::context<num> ctx = *s.store;
                pass(form, action, [&](auto&& a) { ctx.dispatch(LAGER_FWD(a)); });
                break;
            }
            default: {
                lager::context<num> ctx = *s.store;
                auto conved             = pass(form, conv, [&](auto&& c) {
                    return lager::context<num>{ctx, LAGER_FWD(c)};
                });
                pass(form, action, [&](auto&& a) {
                    conved.dispatch(LAGER_FWD(a));
                    conved.dispatch(action);
                });
                got = 2 * (action.v + 5);
            }
            }
            s.want += s.factor * got;
            queue.step();
            if (std::is_same_v<Tag, Trans>)
                lager::commit(*s.store);
        }
        MC_CHECK(run, model.v == 1, "the named model became " << model.v);
        MC_CHECK(run, action.v == 2, "the named action became " << action.v);
        MC_CHECK(run, reducer.by.v == 10, "the named reducer became " << reducer.by.v);
        MC_CHECK(run, doubling.two.v == 2, "the named enhancer became " << doubling.two.v);
        MC_CHECK(run, conv.by.v == 5, "the named converter became " << conv.by.v);
        MC_CHECK(run, loop.tag.v == 9 && bad.empty(), "the named loop was moved away");
        for (std::size_t k = 0; k < made.size(); ++k)
            MC_CHECK(run,
                     made[k].store->get().v == made[k].want,
                     "store " << k << " holds " << made[k].store->get().v << ", not "
                              << made[k].want);
    }
}

MC_SCENARIO(named_store_automatic, 2) { named_store<Auto>(run); }
MC_SCENARIO(named_store_transactional, 2) { named_store<Trans>(run); }

#endif

#if IN_PART(7)

// ---- C11: effects and what they dispatch

using Ctx    = lager::context<num>;
using Effect = lager::effect<num>;

struct VoidFx
{
    std::vector<int>* log;
    num tag;
    void operator()(const Ctx&) const { log->push_back(tag.v); }
};
struct FutureFx
{
    std::vector<int>* log;
    num tag;
    lager::future operator()(const Ctx&) const
    {
        log->push_back(tag.v);
        return {};
    }
};
// dispatches its own action
struct DispatchFx
{
    std::vector<int>* log;
    num tag;
    num action;
    lager::future operator()(const Ctx& ctx) const
    {
        log->push_back(tag.v);
        return ctx.dispatch(action);
    }
};

MC_SCENARIO(named_effects, 2)
{
    lager::queue_event_loop queue;
    std::vector<int> log;
    VoidFx vfx{&log, 1};
    FutureFx ffx{&log, 2};
    DispatchFx dfx{&log, 3, num{-4}};
    Effect keffect{VoidFx{&log, 5}};
    lager::effect<num, lager::deps<>> other{FutureFx{&log, 6}};
    num model{100};
    struct Made
    {
        Effect e;
        std::vector<int> want;
        int adds;
    };
    std::vector<Made> made;
    auto reducer = [&](num m, num a) -> lager::result<num, num> {
        if (a.v < 0) // what the effects dispatch
            return {num{m.v - a.v}};
        return {num{m.v + 1}, made[a.v].e};
    };
    auto store = lager::make_store<num>(num{0}, lager::with_queue_event_loop{queue},
                                        lager::with_reducer(reducer), lager::with_futures);
    int value  = 0;
    int depth  = run.bound(3, 4);
    auto cat   = [](std::vector<int> a, const std::vector<int>& b) {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    };
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op = run.choose(made.empty() ? 8 : 11);
        if (op < 8) {
            int f1 = run.choose(forms), f2 = op == 3 || op == 4 || op >= 6 ? run.choose(forms) : 0;
            MC_LOG(run, "effect " << op << " from " << form_name(f1) << ", " << form_name(f2));
            switch (op) {
            case 0: pass(f1, vfx, [&](auto&& f) { made.push_back({Effect{LAGER_FWD(f)}, {1}, 0}); }); break;
            case 1: pass(f1, ffx, [&](auto&& f) { made.push_back({Effect{LAGER_FWD(f)}, {2}, 0}); }); break;
            case 2: pass(f1, dfx, [&](auto&& f) { made.push_back({Effect{LAGER_FWD(f)}, {3}, 4}); }); break;
            case 3:
                pass(f1, keffect, [&](auto&& a) {
                    pass(f2, other, [&](auto&& b) {
                        made.push_back({lager::sequence(LAGER_FWD(a), LAGER_FWD(b)), {5, 6}, 0});
                    });
                });
                break;
            case 7:
                pass(f1, keffect, [&](auto&& a) {
                    pass(f2, other, [&](auto&& b) {
                        made.push_back({lager::sequence(other, LAGER_FWD(a), LAGER_FWD(b), keffect),
                                        {6, 5, 6, 5},
                                        0});
                    });
                });
                break;
            case 4:
                pass(f1, model, [&](auto&& m) {
                    pass(f2, keffect, [&](auto&& e) {
                        lager::result<num, num> r{LAGER_FWD(m), LAGER_FWD(e)};
                        MC_CHECK(run, r.first.v == 100, "a result holds " << r.first.v);
                        made.push_back({r.second, {5}, 0});
                    });
                });
                break;
            case 5: pass(f1, model, [&](auto&& m) {
                lager::result<num, num> r{LAGER_FWD(m)};
                MC_CHECK(run, r.first.v == 100, "a result holds " << r.first.v);
                made.push_back({r.second, {}, 0});
            }); break;
            default:
                pass(f1, model, [&](auto&& m) {
                    pass(f2, dfx, [&](auto&& f) {
                        lager::result<num, num> r{LAGER_FWD(m), LAGER_FWD(f)};
                        MC_CHECK(run, r.first.v == 100, "a result holds " << r.first.v);
                        made.push_back({r.second, {3}, 4});
                    });
                });
            }
        } else if (op == 8) {
            auto& a = made[run.choose(made.size())];
            auto& b = made[run.choose(made.size())];
            MC_LOG(run, "a sequence of effects made before");
            auto e = lager::sequence(a.e, b.e);
            Made m{e, cat(a.want, b.want), a.adds + b.adds};
            made.push_back(m);
        } else if (op == 9) {
            auto& a = made[run.choose(made.size())];
            MC_LOG(run, "a result of a result");
            lager::result<num, num> r{num{7}, a.e};
            int form = run.choose(forms);
            pass(form, r, [&](auto&& x) {
                lager::result<num, num, lager::deps<>> r2{LAGER_FWD(x)};
                made.push_back({r2.second, a.want, a.adds});
            });
            MC_CHECK(run, r.first.v == 7, "the named result became " << r.first.v);
            if (a.want.size())
                MC_CHECK(run, bool(r.second), "the effect of the named result was moved away");
        } else {
            int k = run.choose(made.size());
            MC_LOG(run, "dispatch that has effect " << k);
            num action{k};
            store.dispatch(action);
            queue.step();
            value += 1 + made[k].adds;
            MC_CHECK(run, log == made[k].want, "calls " << show(log) << ", not " << show(made[k].want));
            log.clear();
            MC_CHECK(run, store.get().v == value, "the store holds " << store.get().v << ", not " << value);
            MC_CHECK(run, action.v == k, "the named action became " << action.v);
        }
        MC_CHECK(run, vfx.tag.v == 1 && ffx.tag.v == 2 && dfx.tag.v == 3 && dfx.action.v == -4,
                 "a named effect function was moved away");
        MC_CHECK(run, bool(keffect) && bool(other), "a named effect was moved away");
        MC_CHECK(run, model.v == 100, "the named model became " << model.v);
        MC_CHECK(run, log.empty(), "an effect ran early: " << show(log));
    }
}

#endif

#if IN_PART(8)

// ---- C13: what comes after a future

struct VoidNext
{
    std::vector<int>* log;
    num tag;
    void operator()() const { log->push_back(tag.v); }
};
struct FutureNext
{
    std::vector<int>* log;
    num tag;
    lager::future operator()() const
    {
        log->push_back(tag.v);
        return {};
    }
};
struct Post
{
    lager::queue_event_loop* queue;
    num tag;
    std::vector<int>* bad;
    void operator()(std::function<void()> fn) const
    {
        if (tag.v != 9)
            bad->push_back(tag.v);
        queue->post(std::move(fn));
    }
};

MC_SCENARIO(named_futures, 2)
{
    lager::queue_event_loop queue;
    std::vector<int> log, bad;
    VoidNext vnext{&log, 1};
    FutureNext fnext{&log, 2};
    Post post{&queue, 9, &bad};
    struct Chain
    {
        lager::promise p;
        lager::future f;
        bool real, kept = false;
        std::vector<int> waiting;
    };
    std::vector<Chain> chains;
    std::vector<int> want;
    int depth = run.bound(5, 6);
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op = run.choose(chains.empty() ? 3 : 6);
        if (op < 3) {
            MC_LOG(run, "promise " << op);
            if (op == 2) {
                auto [p, f] = lager::promise::invalid();
                chains.push_back({p, f, false});
            } else if (op == 1) {
                auto [p, f] = lager::promise::with_loop(queue);
                chains.push_back({p, f, true});
            } else {
                pass(run.choose(forms), post, [&](auto&& x) {
                    auto [p, f] = lager::promise::with_post(LAGER_FWD(x));
                    chains.push_back({p, f, true});
                });
            }
        } else {
            auto& c = chains[run.choose(chains.size())];
            if (op == 5) {
                if (!c.real || c.kept)
                    run.prune();
                MC_LOG(run, "a promise is kept");
                c.p();
                c.kept = true;
                want.insert(want.end(), c.waiting.begin(), c.waiting.end());
                c.waiting.clear();
            } else {
                int form = run.choose(forms);
                MC_LOG(run, "then " << op << " with " << form_name(form));
                if (op == 3)
                    pass(form, vnext, [&](auto&& n) { c.f = std::move(c.f).then(LAGER_FWD(n)); });
                else
                    pass(form, fnext, [&](auto&& n) { c.f = std::move(c.f).then(LAGER_FWD(n)); });
                (c.real && !c.kept ? c.waiting : want).push_back(op == 3 ? 1 : 2);
            }
            queue.step();
        }
        std::sort(log.begin(), log.end());
        std::sort(want.begin(), want.end());
        MC_CHECK(run, log == want, "calls " << show(log) << ", not " << show(want));
        MC_CHECK(run, vnext.tag.v == 1 && fnext.tag.v == 2, "a named function was moved away");
        MC_CHECK(run, post.tag.v == 9 && bad.empty(), "the named post was moved away");
    }
}

#endif

#if IN_PART(9)

// ---- C16: dependencies

struct K
{};
struct L
{};
struct T
{
    num v;
};
struct Fn
{
    num tag;
    num operator()() const { return num{tag.v + 1}; }
};

MC_SCENARIO(named_deps, 2)
{
    namespace dep = lager::dep;
    using Full  = lager::deps<num, T, dep::key<K, num>, dep::opt<dep::key<L, T>>, dep::fn<dep::key<Fn, num>>>;
    using Other = lager::deps<dep::key<K, num>, dep::key<L, T>>;
    using Sub   = lager::deps<T, dep::key<K, num>>;
    using Opt   = lager::deps<dep::opt<T>, dep::opt<dep::key<L, T>>>;
    num n{1}, k{3}, k2{13};
    T t{2}, l{4}, l2{14};
    Fn fn{5};
    Full full   = Full::with(n, t, k, l, fn);
    Other other = Other::with(k2, l2);
    struct Made
    {
        std::function<std::string()> show;
        std::string want;
    };
    std::vector<Made> made;
    auto add = [&](auto d, std::string want, auto f) {
        auto p = std::make_shared<decltype(d)>(std::move(d));
        made.push_back({[p, f] { return f(*p); }, want});
    };
    auto num_of = [](const num& x) { return std::to_string(x.v) + " "; };
    auto t_of   = [](const T& x) { return std::to_string(x.v.v) + " "; };
    auto show_full = [=](const auto& d) {
        return num_of(d.template get<num>()) + t_of(d.template get<T>()) + num_of(d.template get<K>()) +
               (d.template has<L>() ? t_of(d.template get<L>()) : "none ") +
               num_of(d.template get<Fn>());
    };
    auto show_other = [=](const auto& d) { return num_of(d.template get<K>()) + t_of(d.template get<L>()); };
    auto show_sub = [=](const auto& d) { return t_of(d.template get<T>()) + num_of(d.template get<K>()); };
    auto show_opt = [=](const auto& d) {
        return (d.template has<T>() ? t_of(d.template get<T>()) : "none ") +
               (d.template has<L>() ? t_of(d.template get<L>()) : "none ");
    };
    auto show_made = [=](const auto& d) { return num_of(d.template get<num>()) + t_of(d.template get<T>()); };
    int depth = run.bound(3, 4);
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op = run.choose(9), f1 = run.choose(forms), f2 = run.choose(forms);
        MC_LOG(run, "dependencies " << op << " from " << form_name(f1) << ", " << form_name(f2));
        auto two = [&](auto& a, auto& b, auto&& f) {
            pass(f1, a, [&](auto&& x) { pass(f2, b, [&](auto&& y) { f(LAGER_FWD(x), LAGER_FWD(y)); }); });
        };
        switch (op) {
        case 0: two(n, t, [&](auto&& x, auto&& y) { add(lager::make_deps(LAGER_FWD(x), LAGER_FWD(y)), "1 2 ", show_made); }); break;
        case 1:
            two(n, fn, [&](auto&& x, auto&& y) {
                add(Full::with(LAGER_FWD(x), t, k, std::nullopt, LAGER_FWD(y)), "1 2 3 none 6 ", show_full);
            });
            break;
        case 2: two(k2, l2, [&](auto&& x, auto&& y) { add(Other::with(LAGER_FWD(x), LAGER_FWD(y)), "13 14 ", show_other); }); break;
        case 3: pass(f1, full, [&](auto&& x) { add(Sub{LAGER_FWD(x)}, "2 3 ", show_sub); }); break;
        case 4: pass(f1, full, [&](auto&& x) { add(Opt{LAGER_FWD(x)}, "2 4 ", show_opt); }); break;
        case 5: two(full, other, [&](auto&& x, auto&& y) { add(full.merge(LAGER_FWD(y)), "1 2 13 14 6 ", show_full); }); break;
        case 6: two(full, other, [&](auto&& x, auto&& y) { add(Sub{LAGER_FWD(x), LAGER_FWD(y)}, "2 13 ", show_sub); }); break;
        case 7: two(full, other, [&](auto&& x, auto&& y) { add(Full{LAGER_FWD(x), LAGER_FWD(y)}, "1 2 13 14 6 ", show_full); }); break;
        default:
            two(n, t, [&](auto&& x, auto&& y) {
                auto enhancer = lager::with_deps(LAGER_FWD(x), LAGER_FWD(y));
                // the enhancer may make any number of stores
                for (int times = 0; times < 2; ++times) {
                    auto store = std::make_shared<lager::store<num, num, lager::deps<num, T>>>(
                        lager::make_store<num>(num{0},
                                               lager::with_manual_event_loop{},
                                               lager::with_reducer([](num m, num) { return m; }),
                                               enhancer));
                    made.push_back({[=] {
                                        lager::context<num, lager::deps<num, T>> ctx = *store;
                                        return show_made(ctx);
                                    }, "1 2 "});
                }
            });
        }
        made.push_back({[&] { return show_full(full); }, "1 2 3 4 6 "});
        made.push_back({[&] { return show_other(other); }, "13 14 "});
        for (std::size_t j = 0; j < made.size(); ++j)
            MC_CHECK(run,
                     made[j].show() == made[j].want,
                     "bag " << j << " holds " << made[j].show() << ", not " << made[j].want);
        MC_CHECK(run,
                 n.v == 1 && t.v.v == 2 && k.v == 3 && l.v.v == 4 && k2.v == 13 &&
                     l2.v.v == 14 && fn.tag.v == 5,
                 "a named dependency was moved away");
    }
}

#endif

} // namespace
