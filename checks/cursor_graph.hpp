// Dynamic graphs of real lager cursors/readers + a plain reference model.
#pragma once

#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <zug/transducer/map.hpp>

#include <array>
#include <deque>
#include <memory>
#include <set>
#include <tuple>

namespace cg {

using I = mc::num; // (moved away values show)
using P = std::tuple<I, I>;

// a model value: int (b == NONE) or pair
struct V
{
    int a       = 0;
    int b       = 0;
    bool pair   = false;
    bool operator==(const V& o) const { return a == o.a && b == o.b && pair == o.pair; }
    bool operator!=(const V& o) const { return !(*this == o); }
    bool operator<(const V& o) const { return std::tie(a, b, pair) < std::tie(o.a, o.b, o.pair); }
};
inline V vi(int x) { return V{x, 0, false}; }
inline V vp(int x, int y) { return V{x, y, true}; }
inline V from(int x) { return vi(x); }
inline V from(const P& p) { return vp(std::get<0>(p), std::get<1>(p)); }
inline std::ostream& operator<<(std::ostream& o, const V& v)
{
    if (v.pair)
        return o << "(" << v.a << "," << v.b << ")";
    return o << v.a;
}

enum Kind
{
    // roots
    RootP,   // state<P>
    RootI,   // state<int>
    Sens,    // sensor<int>
    Const,   // constant<int>
    AutoP,   // state<P, automatic_tag>
    AutoI,   // state<int, automatic_tag>
    // int -> int
    Neg,     // zoom lens -x                         cursor
    Shift,   // xform(map(x+10), map(x-10))          cursor
    Half,    // map(x/2)                             reader
    // pair -> int
    First,   // zoom(element<0>)                     cursor
    Second,  // xform(map(get1), update(set1))       cursor
    Diff,    // map(a-b)                             reader
    // pair -> pair
    Swap,    // zoom lens swap                       cursor
    // int,int -> pair
    Merge,   // with(a,b)                            cursor
    // int,int -> int
    SumL,    // with(a,b).zoom(sum lens)             cursor
    MaxR,    // with(a,b).map(max)                   reader
    PickX,   // with(a,b).xform(map(a),update)       cursor
    Tri,     // with(a,b,2a).map(...)                reader
    Chain,   // with(a,b).map(...).map(...)          reader
    KindCount
};

inline const char* kind_name(int k)
{
    static const char* n[] = {"RootP", "RootI", "Sens", "Const", "AutoP", "AutoI", "Neg",
                              "Shift", "Half", "First", "Second", "Diff",
                              "Swap", "Merge", "SumL", "MaxR", "PickX",
                              "Tri", "Chain"};
    return n[k];
}
inline int arity(int k) { return k < Neg ? 0 : k <= Swap ? 1 : 2; }
inline bool in_pair(int k) { return k >= First && k <= Swap; }
inline bool out_pair(int k) { return k == RootP || k == AutoP || k == Swap || k == Merge; }
inline bool is_auto(int k) { return k == AutoP || k == AutoI; }
inline bool writable_kind(int k)
{
    return !(k == Sens || k == Const || k == Half || k == Diff || k == MaxR ||
             k == Tri || k == Chain);
}

// reference semantics ------------------------------------------------------

inline V view_ref(int k, const V& x, const V& y)
{
    switch (k) {
    case Neg: return vi(-x.a);
    case Shift: return vi(x.a + 10);
    case Half: return vi(x.a / 2);
    case First: return vi(x.a);
    case Second: return vi(x.b);
    case Diff: return vi(x.a - x.b);
    case Swap: return vp(x.b, x.a);
    case Merge: return vp(x.a, y.a);
    case SumL: return vi(x.a + y.a);
    case MaxR: return vi(x.a > y.a ? x.a : y.a);
    case PickX: return vi(x.a);
    case Tri: return vi(x.a * 3 + y.a * 3);
    case Chain: return vi((x.a - y.a) / 2);
    }
    return {};
}

// new parent values when writing v
inline void put_ref(int k, V& x, V& y, const V& v)
{
    switch (k) {
    case Neg: x = vi(-v.a); break;
    case Shift: x = vi(v.a - 10); break;
    case First: x.a = v.a; break;
    case Second: x.b = v.a; break;
    case Swap: x = vp(v.b, v.a); break;
    case Merge: x = vi(v.a), y = vi(v.b); break;
    case SumL: x = vi(v.a - y.a); break;      // keep y
    case PickX: x = vi(v.a), y = vi(y.a + 1); break; // counts writes in y
    }
}

// the real thing -----------------------------------------------------------

struct Handle
{
    lager::reader<I> ri;
    lager::cursor<I> ci;
    lager::reader<P> rp;
    lager::cursor<P> cp;
};

inline auto neg_lens()
{
    return lager::lenses::getset([](I x) { return I(-x); },
                                 [](I, I v) { return I(-v); });
}
inline auto swap_lens()
{
    return lager::lenses::getset(
        [](P p) { return P{std::get<1>(p), std::get<0>(p)}; },
        [](P, P v) { return P{std::get<1>(v), std::get<0>(v)}; });
}
inline auto sum_lens()
{
    return lager::lenses::getset(
        [](P p) { return I(std::get<0>(p) + std::get<1>(p)); },
        [](P p, I v) { return P{v - std::get<1>(p), std::get<1>(p)}; });
}

struct NodeSpec
{
    int kind;
    int p0 = -1, p1 = -1;
};

struct Graph
{
    mc::Run& run;
    std::vector<NodeSpec> spec;
    std::vector<char> writable;
    std::deque<Handle> h; // stable addresses: handles own connections
    // roots
    std::vector<std::unique_ptr<lager::state<P>>> rootp;
    std::vector<std::unique_ptr<lager::state<I>>> rooti;
    std::vector<std::unique_ptr<lager::state<P, lager::automatic_tag>>> autop;
    std::vector<std::unique_ptr<lager::state<I, lager::automatic_tag>>> autoi;
    std::unique_ptr<lager::sensor<I>> sens;
    std::vector<int> root_slot; // index in rootp / rooti
    std::shared_ptr<int> ext = std::make_shared<int>(7);
    int nroots = 0;
    // model
    std::vector<V> vis;  // visible value of every node
    std::vector<V> pend; // pending value of every root (others unused)
    // every value a root held since the last commit of it (incl. visible)
    // log
    std::vector<std::vector<V>> calls;
    std::vector<char> watched;
    bool use_bind = false;
    std::vector<V> expect; // expected world inside watchers
    std::string world_error;

    Graph(mc::Run& r)
        : run(r)
    {}
    Graph(const Graph&) = delete;

    int size() const { return int(spec.size()); }

    V read(int n)
    {
        if (out_pair(spec[n].kind))
            return from(h[n].rp.get());
        return from(h[n].ri.get());
    }

    void set_reader(Handle& x, lager::reader<I> r) { x.ri = std::move(r); }

    void add(NodeSpec s)
    {
        int n = size();
        spec.push_back(s);
        h.emplace_back();
        root_slot.push_back(-1);
        pend.emplace_back();
        auto& x = h.back();
        bool w  = writable_kind(s.kind);
        if (arity(s.kind) >= 1)
            w = w && writable[s.p0];
        if (arity(s.kind) >= 2)
            w = w && writable[s.p1];
        writable.push_back(w);
        auto mk_i = [&](auto&& c) {
            if constexpr (std::is_convertible_v<decltype(c), lager::cursor<I>>) {
                x.ci = c;
                x.ri = x.ci;
            } else
                x.ri = c;
        };
        using namespace lager::lenses;
        switch (s.kind) {
        case RootP: {
            root_slot[n] = rootp.size();
            rootp.push_back(std::make_unique<lager::state<P>>(P{1, 2}));
            x.cp    = *rootp.back();
            x.rp    = *rootp.back();
            pend[n] = vp(1, 2);
            break;
        }
        case RootI: {
            root_slot[n] = rooti.size();
            rooti.push_back(std::make_unique<lager::state<I>>(3));
            x.ci    = *rooti.back();
            x.ri    = *rooti.back();
            pend[n] = vi(3);
            break;
        }
        case AutoP: {
            autop.push_back(std::make_unique<lager::state<P, lager::automatic_tag>>(P{1, 2}));
            x.cp    = *autop.back();
            x.rp    = *autop.back();
            pend[n] = vp(1, 2);
            break;
        }
        case AutoI: {
            autoi.push_back(std::make_unique<lager::state<I, lager::automatic_tag>>(3));
            x.ci    = *autoi.back();
            x.ri    = *autoi.back();
            pend[n] = vi(3);
            break;
        }
        case Sens: {
            sens = std::make_unique<lager::sensor<I>>(
                lager::make_sensor([e = ext] { return I(*e); }));
            x.ri    = *sens;
            pend[n] = vi(*ext);
            break;
        }
        case Const: {
            x.ri    = lager::make_constant(I(5));
            pend[n] = vi(5);
            break;
        }
        case Neg:
            if (w) {
                x.ci = h[s.p0].ci.zoom(neg_lens());
                x.ri = x.ci;
            } else
                x.ri = h[s.p0].ri.zoom(neg_lens());
            break;
        case Shift:
            if (w) {
                x.ci = h[s.p0].ci.xform(zug::map([](I v) { return I(v + 10); }),
                                        zug::map([](I v) { return I(v - 10); }));
                x.ri = x.ci;
            } else
                x.ri = h[s.p0].ri.xform(zug::map([](I v) { return I(v + 10); }));
            break;
        case Half: x.ri = h[s.p0].ri.map([](I v) { return I(v / 2); }); break;
        case First:
            if (w) {
                x.ci = h[s.p0].cp.zoom(element<0>);
                x.ri = x.ci;
            } else
                x.ri = h[s.p0].rp.zoom(element<0>);
            break;
        case Second: {
            auto get1 = zug::map([](P p) { return std::get<1>(p); });
            if (w) {
                x.ci = h[s.p0].cp.xform(get1, lager::update([](P p, I v) {
                                            std::get<1>(p) = v;
                                            return p;
                                        }));
                x.ri = x.ci;
            } else
                x.ri = h[s.p0].rp.xform(get1);
            break;
        }
        case Diff:
            x.ri = h[s.p0].rp.map(
                [](P p) { return I(std::get<0>(p) - std::get<1>(p)); });
            break;
        case Swap:
            if (w) {
                x.cp = h[s.p0].cp.zoom(swap_lens());
                x.rp = x.cp;
            } else
                x.rp = h[s.p0].rp.zoom(swap_lens());
            break;
        case Merge:
            if (w) {
                x.cp = lager::with(h[s.p0].ci, h[s.p1].ci);
                x.rp = x.cp;
            } else
                x.rp = lager::with(h[s.p0].ri, h[s.p1].ri);
            break;
        case SumL:
            if (w) {
                x.ci = lager::with(h[s.p0].ci, h[s.p1].ci).zoom(sum_lens());
                x.ri = x.ci;
            } else
                x.ri = lager::with(h[s.p0].ri, h[s.p1].ri).zoom(sum_lens());
            break;
        case MaxR:
            x.ri = lager::with(h[s.p0].ri, h[s.p1].ri).map([](I a, I b) {
                return a > b ? a : b;
            });
            break;
        case Tri:
            x.ri = lager::with(h[s.p0].ri, h[s.p1].ri,
                               h[s.p0].ri.map([](I a) { return I(a * 2); }))
                       .map([](I a, I b, I c) { return I(a + b * 3 + c); });
            break;
        case Chain:
            x.ri = lager::with(h[s.p0].ri, h[s.p1].ri)
                       .map([](I a, I b) { return I(a - b); })
                       .make()
                       .map([](I d) { return I(d / 2); });
            break;
        case PickX: {
            auto get0 = zug::map([](I a, I) { return a; });
            if (w) {
                x.ci = lager::with(h[s.p0].ci, h[s.p1].ci)
                           .xform(get0, lager::update([](P t, I v) {
                                      return P{v, std::get<1>(t) + 1};
                                  }));
                x.ri = x.ci;
            } else
                x.ri = lager::with(h[s.p0].ri, h[s.p1].ri).xform(get0);
            break;
        }
        }
        if (arity(s.kind) == 0) {
            ++nroots;
        }
        vis.push_back(arity(s.kind) == 0 ? pend[n] : eval_vis(n));
        if (run.logging()) {
            MC_LOG(run,
                   "n" << n << "=" << kind_name(s.kind)
                       << (arity(s.kind) ? "(n" + std::to_string(s.p0) : "")
                       << (arity(s.kind) == 2 ? ",n" + std::to_string(s.p1) : "")
                       << (arity(s.kind) ? ")" : "") << (w ? "" : " ro"));
        }
        calls.emplace_back();
        watched.push_back(0);
    }

    template <typename RootValue>
    V eval(int n, RootValue&& rv) const
    {
        auto& s = spec[n];
        if (arity(s.kind) == 0)
            return rv(n);
        V x = eval(s.p0, rv);
        V y = arity(s.kind) == 2 ? eval(s.p1, rv) : V{};
        return view_ref(s.kind, x, y);
    }
    V eval_vis(int n) const
    {
        return eval(n, [&](int r) { return r < int(vis.size()) ? vis[r] : pend[r]; });
    }
    V eval_pend(int n) const
    {
        return eval(n, [&](int r) { return pend[r]; });
    }

    bool depends(int n, int r) const
    {
        if (n == r)
            return true;
        auto& s = spec[n];
        if (arity(s.kind) >= 1 && depends(s.p0, r))
            return true;
        return arity(s.kind) == 2 && depends(s.p1, r);
    }

    // model write; order: which of the parents is written first
    void put(std::vector<V>& pd, int n, const V& v, unsigned order) const
    {
        auto& s = spec[n];
        if (arity(s.kind) == 0) {
            pd[n] = v;
            return;
        }
        auto rv = [&](int r) { return pd[r]; };
        V x     = eval(s.p0, rv);
        V y     = arity(s.kind) == 2 ? eval(s.p1, rv) : V{};
        put_ref(s.kind, x, y, v);
        if (arity(s.kind) == 1) {
            put(pd, s.p0, x, order);
        } else if (order & 1) {
            put(pd, s.p1, y, order);
            put(pd, s.p0, x, order);
        } else {
            put(pd, s.p0, x, order);
            put(pd, s.p1, y, order);
        }
    }

    // is writing `v` to n independent of the (unspecified) order in which a
    // merge writes to its parents?
    bool put_checked(int n, const V& v, std::vector<V>& out) const
    {
        auto a = pend, b = pend;
        put(a, n, v, 0);
        put(b, n, v, 1);
        if (!(a == b))
            return false;
        out = a;
        return true;
    }

    void record_pending(const std::vector<V>& nu)
    {
        pend = nu;
    }

    void watch_all()
    {
        for (int n = 0; n < size(); ++n)
            watch(n);
    }
    void watch(int n)
    {
        watched[n] = 1;
        auto cb = [this, n](auto&& v) {
            calls[n].push_back(from(v));
            world();
        };
        if (out_pair(spec[n].kind))
            h[n].rp.watch(cb);
        else
            h[n].ri.watch(cb);
    }
    void world()
    {
        if (expect.empty() || !world_error.empty())
            return;
        for (int n = 0; n < size(); ++n) {
            V r = read(n);
            if (r != expect[n]) {
                std::ostringstream os;
                os << "inside a watcher, n" << n << " reads " << r
                   << " but the committed world has " << expect[n];
                world_error = os.str();
                return;
            }
        }
    }

    void check_values(const char* when)
    {
        for (int n = 0; n < size(); ++n) {
            V r = read(n);
            MC_CHECK(run, r == vis[n],
                     when << ": n" << n << " (" << kind_name(spec[n].kind)
                          << ") reads " << r << ", expected " << vis[n]);
            if (use_bind)
                check_bind(when, n);
        }
    }
    // what bind() and nudge() pass on is what get() shows
    void check_bind(const char* when, int n)
    {
        auto see = [&](auto r) {
            std::vector<V> got;
            r.bind([&](auto&& v) { got.push_back(from(v)); });
            r.nudge();
            MC_CHECK(run, got.size() == 2 && got[0] == vis[n] && got[1] == vis[n],
                     when << ": bind() or nudge() of n" << n << " ("
                          << kind_name(spec[n].kind) << ") passed another value than "
                          << vis[n]);
        };
        if (out_pair(spec[n].kind))
            see(h[n].rp);
        else
            see(h[n].ri);
    }

    void set_value(int n, const V& v)
    {
        if (out_pair(spec[n].kind))
            h[n].cp.set(P{v.a, v.b});
        else
            h[n].ci.set(v.a);
    }

    void commit_roots(const std::vector<int>& rs)
    {
        // static dispatch over the number/kinds of roots committed at once
        auto one = [&](int r, auto&& k) {
            switch (spec[r].kind) {
            case RootP: k(*rootp[root_slot[r]]); break;
            case RootI: k(*rooti[root_slot[r]]); break;
            case Sens: k(*sens); break;
            default: std::abort();
            }
        };
        switch (rs.size()) {
        case 1: one(rs[0], [&](auto& a) { lager::commit(a); }); break;
        case 2:
            one(rs[0], [&](auto& a) {
                one(rs[1], [&](auto& b) { lager::commit(a, b); });
            });
            break;
        case 3:
            one(rs[0], [&](auto& a) {
                one(rs[1], [&](auto& b) {
                    one(rs[2], [&](auto& c) { lager::commit(a, b, c); });
                });
            });
            break;
        }
    }

    // Commit some roots and judge values and notifications.
    // Returns the model's opinion through checks.
    void commit(const std::vector<int>& rs, bool judge_calls)
    {
        commit(rs, judge_calls, [&] { commit_roots(rs); });
    }
    // the roots that commit their changes themselves, among these
    std::vector<int> automatic(const std::vector<V>& pd) const
    {
        std::vector<int> rs;
        for (int i = 0; i < size(); ++i)
            if (is_auto(spec[i].kind) && pd[i] != vis[i])
                rs.push_back(i);
        return rs;
    }
    template <typename Act>
    void commit(const std::vector<int>& rs, bool judge_calls, Act&& act)
    {
        for (int r : rs)
            if (spec[r].kind == Sens)
                pend[r] = vi(*ext);
        auto old = vis;
        for (int r : rs)
            vis[r] = pend[r];
        auto nu = vis;
        for (int n = 0; n < size(); ++n) {
            bool touches = false;
            for (int r : rs)
                touches = touches || depends(n, r);
            if (touches)
                nu[n] = eval(n, [&](int r) { return vis[r]; });
        }
        vis = nu;
        expect = vis;
        for (auto& c : calls)
            c.clear();
        act();
        expect.clear();
        MC_CHECK(run, world_error.empty(), world_error);
        for (int n = 0; n < size(); ++n) {
            V r = read(n);
            MC_CHECK(run, r == vis[n],
                     "after commit: n" << n << " (" << kind_name(spec[n].kind) << ") reads " << r
                                       << ", expected " << vis[n]);
        }
        if (judge_calls) {
            for (int n = 0; n < size(); ++n) {
                auto& c = calls[n];
                if (!watched[n])
                    continue;
                MC_CHECK(run, c.size() <= 1,
                         "watcher of n" << n << " called " << c.size()
                                        << " times in one commit");
                if (vis[n] != old[n]) {
                    MC_CHECK(run, c.size() == 1,
                             "n" << n << " changed from " << old[n] << " to "
                                 << vis[n] << " but its watcher was not called");
                } else if (c.size() == 1) {
                    std::ostringstream os;
                    os << "watcher of n" << n << " (" << kind_name(spec[n].kind)
                       << ") called although its value " << vis[n]
                       << " did not change";
                    run.fail(os.str());
                }
                if (c.size() == 1)
                    MC_CHECK(run, c[0] == vis[n],
                             "watcher of n" << n << " received " << c[0]
                                            << " but the value is " << vis[n]);
            }
        }
    }

    mc::u64 hash() const
    {
        mc::u64 x = spec.size();
        for (auto& s : spec)
            x = mc::mix(x, s.kind * 10000 + s.p0 * 100 + s.p1);
        for (auto& v : vis)
            x = mc::mix(x, v.a * 1000003 + v.b);
        for (auto& v : pend)
            x = mc::mix(x, v.a * 1000003 + v.b);
        return mc::mix(x, *ext);
    }
};

// enumerate: choose a derived node
inline NodeSpec choose_node(mc::Run& run, const Graph& g, bool force_last = false)
{
    std::vector<NodeSpec> opts;
    for (int k = Neg; k < KindCount; ++k) {
        for (int a = 0; a < g.size(); ++a) {
            if (in_pair(k) != out_pair(g.spec[a].kind))
                continue;
            if (arity(k) == 1) {
                if (!force_last || a == g.size() - 1)
                    opts.push_back({k, a, -1});
                continue;
            }
            for (int b = 0; b < g.size(); ++b)
                if (!out_pair(g.spec[b].kind) && b != a)
                    if (!force_last || a == g.size() - 1 || b == g.size() - 1)
                        opts.push_back({k, a, b});
        }
    }
    if (opts.empty())
        run.prune();
    return opts[run.choose(int(opts.size()))];
}

} // namespace cg
