// C09: cursors with a custom setter, on top of stores.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/setter.hpp>
#include <lager/store.hpp>

#include <deque>
#include <memory>
#include <optional>
#include <tuple>
#include <vector>

namespace {

using P = std::tuple<mc::num, mc::num>;
struct M
{
    P p{1, 2};
    int n = 0;
    bool operator==(const M& o) const { return p == o.p && n == o.n; }
};
struct Action
{
    std::optional<P> p; // set the pair, or bump n
};

std::string str(P p)
{
    return "(" + std::to_string(std::get<0>(p)) + "," +
           std::to_string(std::get<1>(p)) + ")";
}

auto reducer = [](M m, Action a) {
    if (a.p)
        m.p = *a.p;
    else
        ++m.n;
    return m;
};

enum Fn { Accept, Clamp, Reject };
P clamp(P p) { return {std::min<int>(std::get<0>(p), 5), std::get<1>(p)}; }

struct Pending
{
    bool reduce;
    Action a;
};

template <bool AutoStore, bool AutoSetter, bool Queue>
void history(mc::Run& run, int depth)
{
    using store_tag  = std::conditional_t<AutoStore, lager::automatic_tag, lager::transactional_tag>;
    using setter_tag = std::conditional_t<AutoSetter, lager::automatic_tag, lager::transactional_tag>;
    // a clamping or rejecting setter over a synchronous store is unspecified
    constexpr bool sync = AutoStore && !Queue;
    Fn kind             = Fn(run.choose(sync ? 1 : 3));
    bool method         = run.flip(); // r.setter(fn) or with_setter(r, fn)
    lager::queue_event_loop q;
    auto make = [&] {
        if constexpr (Queue)
            return lager::make_store<Action, store_tag>(
                M{}, lager::with_queue_event_loop{q}, lager::with_reducer(reducer));
        else
            return lager::make_store<Action, store_tag>(
                M{}, lager::with_manual_event_loop{}, lager::with_reducer(reducer));
    };
    auto store               = make();
    lager::reader<P> parent  = store.zoom(lager::lenses::getset(
        [](const M& m) { return m.p; }, [](M m, P p) {
            m.p = p;
            return m;
        }));
    std::vector<P> fn_calls;
    auto fn = [&](P p) {
        fn_calls.push_back(p);
        if (kind == Accept)
            store.dispatch(Action{p});
        else if (kind == Clamp)
            store.dispatch(Action{clamp(p)});
    };
    lager::cursor<P> cur = [&]() -> lager::cursor<P> {
        if (method)
            return parent.template setter<setter_tag>(fn);
        else
            return lager::with_setter<setter_tag>(parent, fn);
    }();
    lager::cursor<mc::num> fst = cur.zoom(lager::lenses::element<0>);
    std::vector<P> calls;
    cur.watch([&](P p) { calls.push_back(p); });

    // ---- model
    M r, rv;                 // reduced, and visible
    std::deque<Pending> jobs;
    P vis{1, 2};             // what the setter cursor shows
    P latest{1, 2};          // what the next write through it builds upon
    std::vector<P> want_calls;
    auto propagate = [&] {
        if (r == rv)
            return;
        bool changed = r.p != rv.p;
        rv           = r;
        if (changed) {
            latest = rv.p;
            if (vis != rv.p) {
                vis = rv.p;
                want_calls.push_back(vis);
            }
        }
    };
    auto run_jobs = [&] {
        while (!jobs.empty()) {
            auto j = jobs.front();
            jobs.pop_front();
            if (j.reduce) {
                r = reducer(r, j.a);
                if (AutoStore)
                    jobs.push_back({false, {}});
            } else
                propagate();
        }
    };
    auto dispatch = [&](Action a) {
        jobs.push_back({true, a});
        if (!Queue)
            run_jobs();
    };
    std::vector<P> want_fn;
    auto set = [&](P p) {
        want_fn.push_back(p);
        if (kind == Accept)
            dispatch(Action{p});
        else if (kind == Clamp)
            dispatch(Action{clamp(p)});
        latest = p;
        if (AutoSetter && vis != p) {
            vis = p;
            want_calls.push_back(p);
        }
    };
    auto check = [&] {
        MC_CHECK(run, *store == rv, "the store shows " << str(store->p) << " instead of " << str(rv.p));
        MC_CHECK(run, *parent == rv.p, "the source shows " << str(*parent));
        MC_CHECK(run, fn_calls == want_fn,
                 "the setter function was called " << fn_calls.size() << " times"
                     << (fn_calls.empty() ? "" : ", last with " + str(fn_calls.back()))
                     << " instead of " << want_fn.size()
                     << (want_fn.empty() ? "" : ", last with " + str(want_fn.back())));
        MC_CHECK(run, *cur == vis, "the cursor shows " << str(*cur) << " instead of " << str(vis));
        MC_CHECK(run, *fst == std::get<0>(vis),
                 "the derived cursor shows " << *fst << " instead of " << std::get<0>(vis));
        MC_CHECK(run, calls == want_calls,
                 "the watcher was called " << calls.size() << " times instead of "
                                           << want_calls.size()
                                           << " (or with other values)");
    };
    check();
    bool derived_late = false;
    for (int d = 0; d < depth; ++d) {
        // writes that build on the whole value, while the source has changes
        // that are not visible yet, are unspecified
        bool clear = r.p == rv.p && jobs.empty();
        enum Op { Set, Derived, Update, Dispatch, Bump, Commit, Step, Late };
        std::vector<std::pair<Op, P>> ops;
        if (!AutoStore)
            ops.push_back({Commit, {}});
        if (Queue && !jobs.empty())
            ops.push_back({Step, {}});
        ops.push_back({Set, P{4, 4}});
        ops.push_back({Set, P{9, 3}});
        ops.push_back({Dispatch, P{4, 4}});
        ops.push_back({Dispatch, P{1, 2}});
        ops.push_back({Bump, {}});
        if (!derived_late)
            ops.push_back({Late, {}});
        if (clear) {
            ops.push_back({Derived, P{8, 0}});
            ops.push_back({Update, {}});
        }
        auto [op, p] = ops[run.choose(int(ops.size()))];
        switch (op) {
        case Set:
            MC_LOG(run, "cursor.set" << str(p));
            if (run.flip()) {
                const P& l = p;
                cur.set(l);
            } else
                cur.set(P(p));
            set(p);
            break;
        case Derived:
            MC_LOG(run, "cursor[0].set(8)");
            fst.set(8);
            set(P{8, std::get<1>(latest)});
            break;
        case Update: {
            MC_LOG(run, "cursor.update(swap)");
            P seen;
            cur.update([&](P x) {
                seen = x;
                return P{std::get<1>(x), std::get<0>(x)};
            });
            MC_CHECK(run, seen == latest,
                     "update() received " << str(seen) << " instead of " << str(latest));
            set(P{std::get<1>(latest), std::get<0>(latest)});
            break;
        }
        case Dispatch:
            MC_LOG(run, "store.dispatch" << str(p));
            store.dispatch(Action{p});
            dispatch(Action{p});
            break;
        case Bump:
            MC_LOG(run, "store.dispatch(bump)");
            store.dispatch(Action{});
            dispatch(Action{});
            break;
        case Commit:
            MC_LOG(run, "commit");
            lager::commit(store);
            propagate();
            break;
        case Step:
            MC_LOG(run, "step");
            q.step();
            run_jobs();
            break;
        case Late:
            MC_LOG(run, "derive cursor[0] again");
            derived_late = true;
            fst          = cur.zoom(lager::lenses::element<0>);
            break;
        }
        check();
        run.step();
        run.state(mc::mix(mc::mix(std::get<0>(vis) * 100 + std::get<1>(vis),
                                  std::get<0>(r.p) * 100 + std::get<1>(r.p)),
                          mc::mix(kind * 4 + method, std::get<0>(latest) * 100 + jobs.size())));
    }
    run.outcome(mc::mix(calls.size(), std::get<0>(vis) * 10 + std::get<1>(vis)));
}

// Setters within a graph: on a root, on what is derived from another setter,
// and on a merge; with derived cursors and merges below them.  Each operation
// is committed at once; everything then shows what the roots hold.
struct Pair
{
    mc::num a, b;
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};

template <typename Tag>
void graph(mc::Run& run, int depth)
{
    using lager::automatic_tag;
    using lager::transactional_tag;
    using N            = mc::num;
    using T            = std::tuple<N, N>;
    constexpr bool sync = std::is_same_v<Tag, automatic_tag>;
    lager::state<Pair, Tag> root{Pair{1, 2}};
    lager::state<N, Tag> other{N{3}};
    lager::reader<Pair> whole = root;
    lager::cursor<Pair> wwhole = root;
    lager::cursor<N> ra = root[&Pair::a], rb = root[&Pair::b];
    std::vector<std::pair<char, int>> fns, want_fns;
    bool autos[3] = {run.flip(), run.flip(), run.flip()};
    auto setter = [&](int i, auto r, auto fn) {
        using V = typename decltype(r)::value_type;
        return autos[i] ? lager::cursor<V>{lager::with_setter<automatic_tag>(r, fn)}
                        : lager::cursor<V>{lager::with_setter<transactional_tag>(r, fn)};
    };
    // of the whole root
    lager::cursor<Pair> s1 = setter(0, whole, [&](const Pair& p) {
        fns.push_back({'w', p.a.v * 1000 + p.b.v});
        wwhole.set(p);
    });
    lager::cursor<N> s1a = s1[&Pair::a];
    lager::cursor<N> s1b = s1[&Pair::b];
    // of what is derived from a setter
    lager::cursor<N> s2 = setter(1, lager::reader<N>{s1a}, [&](const N& x) {
        fns.push_back({'n', x.v});
        s1a.set(x);
    });
    // of a merge
    lager::reader<N> sum = lager::with(ra, rb).map([](N a, N b) { return N{a.v + b.v}; });
    lager::cursor<N> s3  = setter(2, sum, [&](const N& x) {
        fns.push_back({'s', x.v});
        ra.set(N{x.v - rb.get().v});
    });
    // below setters
    lager::cursor<N> shifted = s2.xform(zug::map([](N x) { return N{x.v + 100}; }),
                                        zug::map([](N x) { return N{x.v - 100}; }));
    lager::cursor<T> merged  = lager::with(s1b, lager::cursor<N>{other});
    lager::reader<N> twice   = lager::with(s2, s3).map([](N a, N b) { return N{a.v * 50 + b.v}; });
    enum { Whole, A, Other, S1, S1a, S2, S3, Shifted, Merged, Twice, Count };
    static const char* names[] = {"the root", "a", "the other root", "the setter of the root",
                                  "a below the setter", "the nested setter",
                                  "the setter of the sum", "the shifted one", "the merge", "twice"};
    std::vector<int> calls(Count), values(Count);
    auto code = [](const Pair& p) { return p.a.v * 1000 + p.b.v; };
    auto watch = [&](int i, auto& r, auto f) {
        values[i] = f(r.get());
        r.watch([&values, &calls, i, f](const auto& x) { values[i] = f(x), ++calls[i]; });
    };
    auto plain = [](const N& x) { return x.v; };
    auto tuple = [](const T& t) { return std::get<0>(t).v * 1000 + std::get<1>(t).v; };
    watch(Whole, whole, code), watch(A, ra, plain), watch(Other, other, plain);
    watch(S1, s1, code), watch(S1a, s1a, plain), watch(S2, s2, plain), watch(S3, s3, plain);
    watch(Shifted, shifted, plain), watch(Merged, merged, tuple), watch(Twice, twice, plain);
    int a = 1, b = 2, o = 3;
    auto denote = [&] {
        return std::vector<int>{a * 1000 + b, a, o, a * 1000 + b, a, a, a + b, a + 100, b * 1000 + o,
                                a * 50 + a + b};
    };
    for (int i = 0; i < depth; ++i) {
        run.step();
        int op = run.choose(9), v = run.choose(2) ? 7 : 4;
        auto before = denote();
        int ob = b, oo = o;
        MC_LOG(run, "set of " << names[op] << " to " << v);
        auto n1 = [&] { want_fns.push_back({'w', a * 1000 + b}); };
        auto n2 = [&] { want_fns.push_back({'n', a}); };
        switch (op) {
        case Whole: wwhole.set(Pair{v, b + 1}), a = v, ++b; break;
        case A: ra.set(N{v}), a = v; break;
        case Other: other.set(N{v}), o = v; break;
        case S1: s1.set(Pair{v, b + 1}), a = v, ++b, n1(); break;
        case S1a: s1a.set(N{v}), a = v, n1(); break;
        case S2: s2.set(N{v}), a = v, n2(), n1(); break;
        case S3: s3.set(N{v}), a = v - b, want_fns.push_back({'s', v}); break;
        case Shifted: shifted.set(N{v}), a = v - 100, n2(), n1(); break;
        default: merged.set(T{N{v}, N{v + 1}}), b = v, o = v + 1, n1(); break;
        }
        if (!sync)
            lager::commit(root, other);
        auto want = denote();
        std::vector<int> got{code(whole.get()), ra.get().v, other.get().v, code(s1.get()), s1a.get().v,
                             s2.get().v, s3.get().v, shifted.get().v, tuple(merged.get()),
                             twice.get().v};
        MC_CHECK(run, fns == want_fns, "the setter functions were not called as they should");
        for (int k = 0; k < Count; ++k) {
            MC_CHECK(run, got[k] == want[k], names[k] << " shows " << got[k] << ", not " << want[k]);
            MC_CHECK(run, values[k] == want[k],
                     "the watcher of " << names[k] << " last saw " << values[k] << ", not " << want[k]);
            int n = want[k] != before[k];
            if (sync && k == Merged && b != ob && o != oo)
                n = 2; // root by root
            // an automatic setter shows its value before the root is committed
            if (!sync && (autos[0] || autos[1] || autos[2]))
                MC_CHECK(run, (calls[k] > 0) == (n > 0),
                         "the watcher of " << names[k] << " was called " << calls[k] << " times");
            else
                MC_CHECK(run, calls[k] == n,
                         "the watcher of " << names[k] << " was called " << calls[k]
                                           << " times, not " << n);
            calls[k] = 0;
        }
    }
}

// Setters made while writes are pending, and over readers of several roots
// that are committed one by one, show what those readers show.
void late(mc::Run& run, int depth)
{
    using N = mc::num;
    lager::state<N> r1{N{1}}, r2{N{2}};
    lager::reader<N> readers[3] = {
        r1,
        lager::with(r1, r2).map([](N a, N b) { return N{a.v * 10 + b.v}; }),
        lager::with(r1, r2).zoom(lager::lenses::element<1>),
    };
    struct Made
    {
        lager::cursor<N> c;
        int of, calls, values;
    };
    std::vector<std::unique_ptr<Made>> made;
    int now[2] = {1, 2}, next[2] = {1, 2};
    auto shown = [&](int k) { return k == 0 ? now[0] : k == 1 ? now[0] * 10 + now[1] : now[1]; };
    for (int i = 0; i < depth; ++i) {
        run.step();
        int before[3] = {shown(0), shown(1), shown(2)};
        int op = run.choose(8);
        bool is_new = false;
        switch (op) {
        case 0:
        case 1:
            next[op] = run.flip() ? 7 : 5;
            MC_LOG(run, "root " << op << " := " << next[op]);
            (op ? r2 : r1).set(N{next[op]});
            break;
        case 2:
        case 3:
            MC_LOG(run, "commit of root " << op - 2);
            lager::commit(op == 3 ? r2 : r1);
            now[op - 2] = next[op - 2];
            break;
        case 4:
            MC_LOG(run, "commit of both");
            lager::commit(r1, r2);
            now[0] = next[0], now[1] = next[1];
            break;
        default: {
            auto& r = readers[op - 5];
            auto fn = [](const N&) {};
            bool automatic = run.flip();
            MC_LOG(run, "a setter over reader " << op - 5);
            made.push_back(std::make_unique<Made>(
                Made{automatic ? lager::cursor<N>{r.setter<lager::automatic_tag>(fn)}
                               : lager::cursor<N>{r.setter(fn)},
                     op - 5, 0, 0}));
            auto* m = made.back().get();
            m->c.watch([m](const N& x) { ++m->calls, m->values = x.v; });
        }
        }
        for (std::size_t k = 0; k < made.size(); ++k) {
            auto& m  = *made[k];
            int want = shown(m.of);
            MC_CHECK(run, m.c.get().v == want,
                     "setter " << k << " shows " << m.c.get().v << ", not " << want);
            int n = op < 5 && want != before[m.of];
            MC_CHECK(run, m.calls == n && (n == 0 || m.values == want),
                     "the watcher of setter " << k << " was called " << m.calls << " times, not " << n);
            m.calls = 0;
        }
    }
}

} // namespace

MC_SCENARIO(manual_transactional_transactional, 3) { history<false, false, false>(run, run.bound(6, 7)); }
MC_SCENARIO(manual_transactional_automatic, 3) { history<false, true, false>(run, run.bound(6, 7)); }
MC_SCENARIO(manual_automatic_transactional, 3) { history<true, false, false>(run, run.bound(6, 7)); }
MC_SCENARIO(manual_automatic_automatic, 3) { history<true, true, false>(run, run.bound(6, 7)); }
MC_SCENARIO(queue_transactional_transactional, 3) { history<false, false, true>(run, run.bound(6, 6)); }
MC_SCENARIO(queue_transactional_automatic, 3) { history<false, true, true>(run, run.bound(6, 6)); }
MC_SCENARIO(queue_automatic_transactional, 3) { history<true, false, true>(run, run.bound(6, 6)); }
MC_SCENARIO(queue_automatic_automatic, 3) { history<true, true, true>(run, run.bound(6, 6)); }
MC_SCENARIO(graph_transactional, 3) { graph<lager::transactional_tag>(run, run.bound(4, 5)); }
MC_SCENARIO(graph_automatic, 3) { graph<lager::automatic_tag>(run, run.bound(4, 5)); }
MC_SCENARIO(late_setters, 3) { late(run, run.bound(6, 7)); }
