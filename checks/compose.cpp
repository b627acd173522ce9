// C04: a chain of transformations means the same whether it is written as one
// expression or reified step by step, on readers and on cursors.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <zug/compose.hpp>
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <optional>

namespace {

struct Pt
{
    int a = 0;
    int b = 0;
    bool operator==(const Pt& o) const { return a == o.a && b == o.b; }
};

// a lens whose setter needs the previous whole: view x/10, set keeps x%10
// (their constants are poisoned when they are moved away)
struct tens_get
{
    mc::num k{10};
    int operator()(int x) const { return x / k.v; }
};
struct tens_set
{
    mc::num k{10};
    int operator()(int w, int v) const { return v * k.v + w % k.v; }
};
auto tens() { return lager::lenses::getset(tens_get{}, tens_set{}); }
// is the lens of a caller as it was?
template <typename L>
bool intact(const L& l)
{
    return lager::view(l, 123) == 12 && lager::set(l, 123, 4) == 43;
}
auto sum2()
{
    return lager::lenses::getset(
        [](std::tuple<int, int> p) { return std::get<0>(p) + std::get<1>(p); },
        [](std::tuple<int, int> p, int v) {
            return std::make_tuple(v - std::get<1>(p), std::get<1>(p));
        });
}

// reference: a chain of steps int -> int
struct Ref
{
    std::function<int(int)> get                        = [](int x) { return x; };
    std::function<std::optional<int>(int, int)> put    = [](int, int v) { return v; };
    bool writable                                      = true;
};
Ref operator+(Ref a, Ref b)
{
    Ref r;
    r.get = [=](int x) { return b.get(a.get(x)); };
    r.put = [=](int w, int v) -> std::optional<int> {
        auto m = b.put(a.get(w), v);
        if (!m)
            return m;
        return a.put(w, *m);
    };
    r.writable = a.writable && b.writable;
    return r;
}

enum OpK
{
    Zoom,
    Xf2,
    Map1,
    NOps
};
// (two that do not commute, depending on the position)
struct there
{
    mc::num pos;
    int operator()(int x) const { return pos.v % 2 ? 5 - x : x + 3; }
};
struct back
{
    mc::num pos;
    int operator()(int x) const { return pos.v % 2 ? 5 - x : x - 3; }
};
struct times3
{
    mc::num k{3};
    int operator()(int x) const { return x * k.v; }
};
template <typename F>
struct named_map
{
    F f;
    template <typename Step>
    auto operator()(Step&& step) const
    {
        return zug::map(f)(std::forward<Step>(step));
    }
};
Ref ref_of(int k, int pos)
{
    switch (k) {
    case Zoom:
        return {[](int x) { return x / 10; },
                [](int w, int v) { return v * 10 + w % 10; },
                true};
    case Xf2:
        return {there{pos}, [pos](int, int v) { return back{pos}(v); }, true};
    case Map1: return {[](int x) { return x * 3; }, {}, false};
    }
    return {};
}
const char* op_name(int k, int pos)
{
    static const char* n[] = {"zoom(tens)", "xform(5-x,5-x)", "map(*3)"};
    return k == Xf2 && pos % 2 == 0 ? "xform(x+3,x-3)" : n[k];
}

template <typename T>
struct is_cursor_t : std::false_type
{};
template <typename T>
struct is_cursor_t<lager::cursor_base<T>> : std::true_type
{};
// is the result of reifying the expression writable?
template <typename E>
constexpr bool writes =
    is_cursor_t<std::decay_t<decltype(std::declval<E>().make())>>::value;

struct Result
{
    lager::reader<int> r;
    lager::cursor<int> c;
    bool writable = false;
};

// convert an expression to handles, in two ways
template <typename E>
Result finish(E&& e, int how)
{
    Result res;
    if constexpr (writes<E>) {
        if (how == 0)
            res.c = std::move(e);
        else
            res.c = std::move(e).make();
        res.r        = res.c;
        res.writable = true;
    } else {
        if (how == 0)
            res.r = std::move(e);
        else
            res.r = std::move(e).make();
    }
    return res;
}

// one expression made of up to D further transformations
template <int D, typename E>
Result fused(mc::Run& run, E&& e, Ref& ref, int how)
{
    if constexpr (D == 0)
        return finish(std::forward<E>(e), how);
    else {
        int k = run.choose(NOps + 1);
        if (k == NOps)
            return finish(std::forward<E>(e), how);
        ref = ref + ref_of(k, D);
        MC_LOG(run, "." << op_name(k, D));
        auto m = named_map<there>{{D}};
        auto w = named_map<back>{{D}};
        auto t = times3{};
        auto l = tens();
        auto r = [&] {
            switch (k) {
            case Zoom: return fused<D - 1>(run, std::move(e).zoom(l), ref, how);
            case Xf2:
                if constexpr (writes<E>)
                    return fused<D - 1>(run, std::move(e).xform(m, w), ref, how);
                else
                    return fused<D - 1>(run, std::move(e).xform(m), ref, how);
            default: return fused<D - 1>(run, std::move(e).map(t), ref, how);
            }
        }();
        MC_CHECK(run, m.f.pos.v == D && w.f.pos.v == D && t.k.v == 3 && intact(l),
                 "the caller's function object was taken away");
        return r;
    }
}

// the same transformations called directly on handles
Result direct(mc::Run& run, Result x, Ref& ref, int pos)
{
    int k  = run.choose(NOps);
    ref    = ref + ref_of(k, pos);
    auto m = named_map<there>{{pos}};
    auto w = named_map<back>{{pos}};
    auto t = times3{};
    auto l = tens();
    MC_LOG(run, " cursor." << op_name(k, pos));
    auto r = [&] {
        if (x.writable)
            switch (k) {
            case Zoom: return finish(x.c.zoom(l), 0);
            case Xf2: return finish(x.c.xform(m, w), 0);
            default: return finish(x.c.map(t), 0);
            }
        else
            switch (k) {
            case Zoom: return finish(x.r.zoom(l), 0);
            case Xf2: return finish(x.r.xform(m), 0);
            default: return finish(x.r.map(t), 0);
            }
    }();
    MC_CHECK(run, m.f.pos.v == pos && w.f.pos.v == pos && t.k.v == 3 && intact(l),
             "the caller's function object was taken away");
    return r;
}

// a chain of segments: each one a fused expression over a reified handle or a
// direct method call
Result segments(mc::Run& run, Result x, Ref& ref, int how, int n)
{
    for (int i = 0; i < n; ++i) {
        int k = run.choose(3);
        if (k == 2)
            return x;
        if (k == 0)
            x = direct(run, x, ref, i);
        else {
            MC_LOG(run, " with(...)");
            if (x.writable)
                x = fused<2>(run, lager::with(x.c), ref, how);
            else
                x = fused<2>(run, lager::with(x.r), ref, how);
        }
    }
    return x;
}

struct Hooks
{
    std::function<void(int)> put_root; // set first root to v, do not commit
    std::function<void()> commit;
    std::function<int()> root; // the "whole" as an int, committed
};

void exercise(mc::Run& run, Result& x, const Ref& ref, Hooks& hk, int pending_writes)
{
    auto rd = x.r;
    MC_CHECK(run, x.writable == ref.writable,
             "the result is " << (x.writable ? "writable" : "read-only")
                              << " but should " << (ref.writable ? "" : "not ")
                              << "be writable");
    auto check = [&](const char* when) {
        int w = hk.root();
        MC_CHECK(run, x.r.get() == ref.get(w),
                 when << ": reads " << x.r.get() << ", expected " << ref.get(w)
                      << " for root " << w);
        run.state(mc::mix(w, x.r.get()));
    };
    check("initially");
    int calls = 0, last = 0;
    rd.watch([&](int v) { ++calls, last = v; });
    auto observe = [&](const char* when, auto&& fn) {
        int before = x.r.get();
        calls      = 0;
        fn();
        check(when);
        int after = x.r.get();
        MC_CHECK(run, calls == (before != after),
                 when << ": watcher called " << calls << " times for " << before
                      << "->" << after);
        if (calls)
            MC_CHECK(run, last == after, when << ": watcher received " << last);
        run.step();
    };
    for (int v : {57, -134, -131, 57})
        observe("after a root write", [&] {
            MC_LOG(run, "root=" << v);
            hk.put_root(v);
            hk.commit();
        });
    if (!x.writable)
        return;
    for (int v : {12, 12, -345}) {
        int w0 = hk.root();
        auto e = ref.put(w0, v);
        observe("after set()", [&] {
            MC_LOG(run, "set(" << v << ")");
            x.c.set(v);
            hk.commit();
        });
        int w1 = hk.root();
        MC_CHECK(run, w1 == e.value_or(w0),
                 "set(" << v << ") changed the root from " << w0 << " to " << w1
                        << ", expected " << e.value_or(w0));
    }
    int seen = 0, w0 = hk.root();
    observe("after update()", [&] {
        x.c.update([&](int p) {
            seen = p;
            return p + 7;
        });
        hk.commit();
    });
    MC_CHECK(run, seen == ref.get(w0), "update() received " << seen);
    auto e = ref.put(w0, ref.get(w0) + 7);
    MC_CHECK(run, hk.root() == e.value_or(w0), "update() wrote " << hk.root());
    lager::writer<int> wr = x.c;
    observe("after writer.set()", [&] {
        wr.set(77);
        hk.commit();
    });
    // several writes, of the root and through the chain, in one commit
    int w = hk.root(), shown = x.r.get();
    calls = 0;
    for (int d = 0; d < pending_writes; ++d) {
        switch (run.choose(3)) {
        case 0:
            MC_LOG(run, "root.set(" << 41 - d << ")");
            hk.put_root(w = 41 - d);
            break;
        case 1: {
            // lvalue or temporary; another value or the shown one
            int v = run.flip() ? 13 + d : shown;
            MC_LOG(run, "set(" << v << ")");
            const int cv = v;
            if (d % 2)
                x.c.set(cv);
            else
                x.c.set(int(v));
            w = ref.put(w, v).value_or(w);
            break;
        }
        case 2: {
            MC_LOG(run, "update(+11)");
            int got = 0;
            x.c.update([&](int p) { return got = p, p + 11; });
            MC_CHECK(run, got == ref.get(w),
                     "update() received " << got << " instead of " << ref.get(w));
            w = ref.put(w, ref.get(w) + 11).value_or(w);
            break;
        }
        }
        MC_CHECK(run, x.r.get() == shown && calls == 0,
                 "a write is visible before the commit");
        run.step();
    }
    hk.commit();
    MC_CHECK(run, hk.root() == w, "the writes made the root " << hk.root()
                                      << " instead of " << w);
    check("after several writes");
    MC_CHECK(run, calls == (x.r.get() != shown),
             "watcher called " << calls << " times after several writes");
}

} // namespace

#if PART == 1
MC_SCENARIO(one_root, 3)
{
    lager::state<int> root{123};
    Hooks hk{[&](int v) { root.set(v); },
             [&] { lager::commit(root); },
             [&] { return root.get(); }};
    int how   = run.choose(2);
    int start = run.choose(3);
    Ref ref;
    Result r;
    if (start == 0) {
        MC_LOG(run, "with(state)");
        r = fused<3>(run, lager::with(root), ref, how);
    } else if (start == 1) {
        MC_LOG(run, "with(cursor)");
        r = fused<3>(run, lager::with(lager::cursor<int>{root}), ref, how);
    } else {
        MC_LOG(run, "with(reader)");
        ref.writable = false;
        r = fused<3>(run, lager::with(lager::reader<int>{root}), ref, how);
    }
    exercise(run, r, ref, hk, run.bound(3, 4));
}

MC_SCENARIO(segments, 3)
{
    lager::state<int> root{123};
    Hooks hk{[&](int v) { root.set(v); },
             [&] { lager::commit(root); },
             [&] { return root.get(); }};
    Ref ref;
    Result r;
    if (run.choose(2) == 0)
        r.c = root, r.r = root, r.writable = true;
    else
        r.r = root, ref.writable = false;
    r = segments(run, r, ref, run.choose(2), run.bound(4, 5));
    exercise(run, r, ref, hk, 2);
}
#endif

#if PART == 2
MC_SCENARIO(two_roots, 3)
{
    // whole := sum of both; the second root is kept by writes
    lager::state<int> a{23};
    lager::state<int> b{100};
    Hooks hk{[&](int v) { a.set(v - b.get()); },
             [&] { lager::commit(a, b); },
             [&] { return a.get() + b.get(); }};
    int how   = run.choose(2);
    int start = run.choose(5);
    Ref ref;
    Result r;
    switch (start) {
    case 0:
        MC_LOG(run, "with(a,b).zoom(sum)");
        r = fused<2>(run, lager::with(a, b).zoom(sum2()), ref, how);
        break;
    case 1:
        MC_LOG(run, "with(a,b).map(+)");
        ref.writable = false;
        r            = fused<2>(
            run, lager::with(a, b).map([](int x, int y) { return x + y; }), ref, how);
        break;
    case 2:
        MC_LOG(run, "with(a,b).xform(+,update)");
        r = fused<2>(run,
                     lager::with(a, b).xform(
                         zug::map([](int x, int y) { return x + y; }),
                         lager::update([](std::tuple<int, int> p, int v) {
                             return std::make_tuple(v - std::get<1>(p),
                                                    std::get<1>(p));
                         })),
                     ref,
                     how);
        break;
    case 3:
        MC_LOG(run, "with(a,reader b).zoom(sum)");
        ref.writable = false;
        r            = fused<2>(
            run, lager::with(a, lager::reader<int>{b}).zoom(sum2()), ref, how);
        break;
    case 4: {
        MC_LOG(run, "with(cursor a,cursor b).make().zoom(sum)");
        lager::cursor<int> ca = a, cb = b;
        lager::cursor<std::tuple<int, int>> t = lager::with(ca, cb);
        r = fused<2>(run, lager::with(t).zoom(sum2()), ref, how);
        break;
    }
    }
    // the second root is never modified by these
    int b0 = b.get();
    exercise(run, r, ref, hk, run.bound(3, 4));
    MC_CHECK(run, b.get() == b0, "the other root was modified");
}

#endif

#if PART == 3
namespace {

struct Inner
{
    int x = 0;
    std::vector<int> v{1, 2, 3};
    bool operator==(const Inner& o) const { return x == o.x && v == o.v; }
};
struct Outer
{
    Inner in;
    Inner in2;
    std::map<std::string, int> m{{"k", 7}};
    std::tuple<int, std::string> t{4, "s"};
    bool operator==(const Outer& o) const
    {
        return in == o.in && in2 == o.in2 && m == o.m && t == o.t;
    }
};

} // namespace

MC_SCENARIO(subscript, 2)
{
    // operator[] with members, indices, keys and lenses, on cursors, readers
    // and expressions, against plain member access
    lager::state<Outer> root{Outer{}};
    using lager::lenses::or_default;
    int start = run.choose(3); // state, cursor, with()
    int what  = run.choose(6);
    int fused = run.choose(2);
    lager::cursor<Outer> oc = root;
    lager::cursor<int> c;
    std::function<int&(Outer&)> ref;
    auto path = [&](auto&& base) {
        switch (what) {
        case 0:
            if (fused)
                c = std::move(base)[&Outer::in][&Inner::x];
            else {
                lager::cursor<Inner> i = std::move(base)[&Outer::in];
                c                      = i[&Inner::x];
            }
            ref = [](Outer& o) -> int& { return o.in.x; };
            break;
        case 1:
            if (fused)
                c = std::move(base)[&Outer::in2][&Inner::x];
            else {
                lager::cursor<Inner> i = std::move(base)[&Outer::in2];
                c                      = i[&Inner::x];
            }
            ref = [](Outer& o) -> int& { return o.in2.x; };
            break;
        case 2:
        case 3: {
            size_t idx = what == 2 ? 0 : 2;
            if (fused)
                c = std::move(base)[&Outer::in][&Inner::v][idx][or_default];
            else {
                lager::cursor<std::vector<int>> i = std::move(base)[&Outer::in][&Inner::v];
                lager::cursor<std::optional<int>> j = i[idx];
                c = j[or_default];
            }
            ref = [idx](Outer& o) -> int& { return o.in.v[idx]; };
            break;
        }
        case 4:
            if (fused)
                c = std::move(base)[&Outer::m][std::string("k")][or_default];
            else {
                lager::cursor<std::map<std::string, int>> i = std::move(base)[&Outer::m];
                c = i[std::string("k")][or_default];
            }
            ref = [](Outer& o) -> int& { return o.m["k"]; };
            break;
        case 5:
            if (fused)
                c = std::move(base)[&Outer::t].zoom(lager::lenses::first);
            else {
                lager::cursor<std::tuple<int, std::string>> i = std::move(base)[&Outer::t];
                c = i.zoom(lager::lenses::first);
            }
            ref = [](Outer& o) -> int& { return std::get<0>(o.t); };
            break;
        }
    };
    if (start == 0)
        path(lager::with(root));
    else if (start == 1)
        path(oc);
    else
        path(lager::with(oc));
    MC_LOG(run, "path " << what << (fused ? " fused" : " reified"));
    Outer model;
    int calls = 0;
    lager::reader<int> rd = c;
    rd.watch([&](int) { ++calls; });
    for (int op = 0; op < 4; ++op) {
        int k = run.choose(3);
        int before = ref(model);
        if (k == 0) {
            MC_LOG(run, "set");
            ref(model) = 50 + op;
            c.set(50 + op);
        } else if (k == 1) {
            MC_LOG(run, "update");
            ref(model) += 3;
            c.update([](int x) { return x + 3; });
        } else {
            MC_LOG(run, "root change elsewhere");
            model.in.v.push_back(op);
            model.in2.v[0] = op;
            std::get<1>(model.t) += "x";
            root.set(model);
        }
        calls = 0;
        lager::commit(root);
        MC_CHECK(run, root.get() == model, "write through a path changed something else");
        MC_CHECK(run, c.get() == ref(model), "path reads " << c.get());
        MC_CHECK(run, calls == (before != ref(model)), "path watcher called " << calls << " times");
        run.step();
        run.state(mc::mix(what, ref(model)));
    }
}
#endif
