// C08: readers and cursors transformed by transducers that may drop values.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>

#include <zug/compose.hpp>
#include <zug/transducer/cat.hpp>
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>
#include <zug/transducer/remove.hpp>

#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <vector>

namespace {

using O = std::optional<int>;
using I = mc::num; // shows if it was moved away

enum Kind {
    FilterEven,
    FilterBig,
    RemoveExpr,  // .xform(remove(==3)).make() chained to a map
    MapFilter,   // expression chain .map().filter()
    Cat,         // drops the value, or emits it twice
    Comp,        // xform(comp(filter, map))
    TwoWay,      // xform(comp(filter, map), comp(filter, map)); needs a cursor
    TwoWayChain, // .xform(f, f).xform(g, g) in one expression
    MergeFilter,
    MergeMap,
    NKinds
};
const char* names[] = {"filter(even)", "filter(>2)", "remove(3)|map(+1)", "map(+1)|filter(even)",
                       "cat", "comp(filter(!=2),map(*2))", "two-way", "two-way chain",
                       "merge filter(x<y)", "merge map"};

bool two(int k) { return k == MergeFilter || k == MergeMap; }
bool writable(int k) { return k == TwoWay || k == TwoWayChain; }

O eval(int k, int x, int y)
{
    switch (k) {
    case FilterEven: return x % 2 == 0 ? O{x} : O{};
    case FilterBig: return x > 2 ? O{x} : O{};
    case RemoveExpr: return x != 3 ? O{x + 1} : O{};
    case MapFilter: return (x + 1) % 2 == 0 ? O{x + 1} : O{};
    case Cat: return x % 3 ? O{x + 5} : O{};
    case Comp: return x != 2 ? O{x * 2} : O{};
    case TwoWay: return x != 3 ? O{x + 20} : O{};
    case TwoWayChain: return x > 1 ? O{x + 11} : O{};
    case MergeFilter: return x < y ? O{x * 100 + y} : O{};
    case MergeMap: return O{x * 100 + y};
    default: return {};
    }
}
// what a write of v puts in the parent
O up(int k, int v)
{
    if (k == TwoWay)
        return v < 40 ? O{v - 20} : O{};
    return v % 7 ? O{v - 11} : O{};
}

struct Node
{
    int kind; // -1 root
    int p = -1, q = -1;
    lager::reader<I> r;
    lager::cursor<I> c;
    bool cur = false;
    int val  = 0;      // visible value
    int old  = 0;      // before the last propagation
    std::shared_ptr<std::vector<int>> calls = std::make_shared<std::vector<int>>();
};

template <typename Tag>
struct World
{
    mc::Run& run;
    std::vector<lager::state<I, Tag>> roots;
    std::vector<int> pend;
    std::deque<Node> nodes;

    World(mc::Run& r, int nroots)
        : run{r}
    {
        for (int i = 0; i < nroots; ++i) {
            roots.push_back(lager::state<I, Tag>{i + 1});
            pend.push_back(i + 1);
            Node n;
            n.kind = -1;
            n.r    = roots.back();
            n.c    = roots.back();
            n.cur  = true;
            n.val  = i + 1;
            nodes.push_back(n);
            watch(i);
        }
    }
    void watch(int i)
    {
        auto calls = nodes[i].calls;
        nodes[i].r.watch([calls](int v) { calls->push_back(v); });
    }
    void add(int kind, int p, int q)
    {
        Node n;
        n.kind  = kind;
        n.p     = p;
        n.q     = q;
        auto& a = nodes[p].r;
        auto ev = [k = I{2}](const I& x) { return x.v % k.v == 0; };
        auto inc = [k = I{1}](const I& x) { return I{x.v + k.v}; };
        switch (kind) {
        case FilterEven: n.r = a.filter(ev).make(); break;
        case FilterBig: n.r = a.xform(zug::filter([k = I{2}](I x) { return x.v > k.v; })); break;
        case RemoveExpr:
            n.r = a.xform(zug::remove([k = I{3}](const I& x) { return x == k; })).make().map(inc).make();
            break;
        case MapFilter: n.r = a.map(inc).filter(ev); break;
        case Cat:
            n.r = a.map([](I x) {
                       return x.v % 3 ? std::vector<I>{x.v + 5, x.v + 5} : std::vector<I>{};
                   }).xform(zug::cat);
            break;
        case Comp:
            n.r = a.xform(zug::comp(zug::filter([k = I{2}](const I& x) { return x != k; }),
                                    zug::map([](I x) { return I{x.v * 2}; })));
            break;
        case TwoWay:
            n.c = nodes[p].c.xform(zug::comp(zug::filter([](I x) { return x.v != 3; }),
                                             zug::map([k = I{20}](I x) { return I{x.v + k.v}; })),
                                   zug::comp(zug::filter([k = I{40}](I x) { return x.v < k.v; }),
                                             zug::map([k = I{20}](I x) { return I{x.v - k.v}; })));
            n.r   = n.c;
            n.cur = true;
            break;
        case TwoWayChain:
            n.c = nodes[p]
                      .c.xform(zug::comp(zug::filter([](const I& x) { return x.v > 1; }), zug::map(inc)),
                               zug::map([k = I{1}](I x) { return I{x.v - k.v}; }))
                      .xform(zug::map([k = I{10}](I x) { return I{x.v + k.v}; }),
                             zug::comp(zug::filter([k = I{7}](I x) { return x.v % k.v != 0; }),
                                       zug::map([k = I{10}](I x) { return I{x.v - k.v}; })));
            n.r   = n.c;
            n.cur = true;
            break;
        case MergeFilter:
            n.r = lager::with(a, nodes[q].r)
                      .filter([](const I& x, I y) { return x < y; })
                      .map([](I x, const I& y) { return I{x.v * 100 + y.v}; });
            break;
        case MergeMap:
            n.r = lager::with(a, nodes[q].r).map([](I x, const I& y) { return I{x.v * 100 + y.v}; });
            break;
        }
        auto v   = eval(kind, nodes[p].val, q >= 0 ? nodes[q].val : 0);
        // (the two readers of RemoveExpr: the default of the first, plus one)
        n.val = n.old = v ? *v : kind == RemoveExpr ? 1 : 0;
        MC_LOG(run, "n" << nodes.size() << " = " << names[kind] << " of n" << p
                        << (q >= 0 ? ", n" + std::to_string(q) : "") << "  -> " << n.val);
        nodes.push_back(n);
        watch(int(nodes.size()) - 1);
    }

    // the roots' pending values become visible
    void propagate(int only = -1)
    {
        for (size_t i = 0; i < roots.size(); ++i) {
            nodes[i].old = nodes[i].val;
            if (only < 0 || only == int(i))
                nodes[i].val = pend[i];
        }
        for (size_t i = roots.size(); i < nodes.size(); ++i) {
            auto& n = nodes[i];
            n.old   = n.val;
            if (auto v = eval(n.kind, nodes[n.p].val, n.q >= 0 ? nodes[n.q].val : 0))
                n.val = *v;
            MC_CHECK(run, n.r.get().v == n.val,
                     "n" << i << " shows " << n.r.get() << " instead of " << n.val
                         << " (before the commit: " << n.old << ")");
        }
        for (size_t i = 0; i < nodes.size(); ++i) {
            auto& n = nodes[i];
            bool ok = n.val != n.old ? *n.calls == std::vector<int>{n.val} : n.calls->empty();
            if (!ok) {
                std::ostringstream os;
                os << "the watcher of n" << i << " was called " << n.calls->size() << " times"
                   << (n.calls->empty() ? "" : ", last with " + std::to_string(n.calls->back()))
                   << "; the value went from " << n.old << " to " << n.val;
                run.fail(os.str());
            }
            n.calls->clear();
        }
    }
    void check(const char* when)
    {
        for (size_t i = 0; i < nodes.size(); ++i) {
            MC_CHECK(run, nodes[i].r.get().v == nodes[i].val,
                     "n" << i << " shows " << nodes[i].r.get() << " instead of "
                         << nodes[i].val << " " << when);
            MC_CHECK(run, !nodes[i].cur || nodes[i].c.get().v == nodes[i].val,
                     "the cursor n" << i << " shows " << nodes[i].c.get());
            MC_CHECK(run, nodes[i].calls->empty(), "a watcher of n" << i << " was called " << when);
        }
    }
    // the value a write to n puts in a root: {root, value}, or nothing
    std::pair<int, O> target(int i, int v)
    {
        O w = v;
        while (nodes[i].kind >= 0 && w) {
            w = up(nodes[i].kind, *w);
            i = nodes[i].p;
        }
        return {i, w};
    }
    void written(int root, int v)
    {
        if (pend[root] != v) {
            pend[root] = v;
        }
    }
};

std::pair<int, std::pair<int, int>> choose_node(mc::Run& run, int n,
                                                const std::function<bool(int)>& is_cursor,
                                                bool last)
{
    int k = run.choose(NKinds);
    int p, q = -1;
    if (writable(k)) {
        std::vector<int> cs;
        for (int i = 0; i < n; ++i)
            if (is_cursor(i))
                cs.push_back(i);
        p = cs[run.choose(int(cs.size()))];
    } else
        p = last ? n - 1 - run.choose(n) : run.choose(n);
    if (two(k)) {
        if (n < 2)
            run.prune();
        q = run.choose(n - 1);
        if (q >= p)
            ++q;
    }
    return {k, {p, q}};
}

template <typename Tag>
void history(mc::Run& run, int nroots, int nnodes, int depth, bool cheap = false)
{
    constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    World<Tag> w{run, nroots};
    auto grow = [&] {
        auto [k, pq] = choose_node(
            run, int(w.nodes.size()), [&](int i) { return w.nodes[i].cur; }, true);
        w.add(k, pq.first, pq.second);
    };
    for (int i = 0; i < nnodes; ++i)
        grow();
    w.check("initially");
    bool late = cheap;
    for (int d = 0; d < depth; ++d) {
        enum Op { Commit, Set, Write, Late };
        struct O2
        {
            Op op;
            int n = 0, v = 0;
        };
        std::vector<O2> ops;
        if (!automatic) {
            ops.push_back({Commit, -1});
            if (nroots == 2 && !cheap) {
                ops.push_back({Commit, 0});
                ops.push_back({Commit, 1});
            }
        }
        bool last = d + 1 == depth;
        if (!last || automatic) {
            for (int r = 0; r < nroots; ++r)
                for (int v : {1, 2, 3, 4})
                    if (v != w.pend[r] && (v < 4 || !cheap))
                        ops.push_back({Set, r, v});
            for (int i = nroots; i < int(w.nodes.size()); ++i)
                if (w.nodes[i].cur)
                    for (int v : {w.nodes[i].kind == TwoWay ? 42 : 14, 24})
                        ops.push_back({Write, i, v});
            if (!late && !last)
                ops.push_back({Late});
        }
        auto op = ops[run.choose(int(ops.size()))];
        switch (op.op) {
        case Commit:
            MC_LOG(run, "commit" << (op.n < 0 ? std::string{} : " of n" + std::to_string(op.n)));
            if (nroots == 1)
                lager::commit(w.roots[0]);
            else if (op.n < 0)
                lager::commit(w.roots[0], w.roots[1]);
            else
                lager::commit(w.roots[op.n]);
            w.propagate(op.n);
            break;
        case Set:
            MC_LOG(run, "n" << op.n << ".set(" << op.v << ")");
            w.roots[op.n].set(op.v);
            w.written(op.n, op.v);
            if (automatic)
                w.propagate();
            break;
        case Write: {
            MC_LOG(run, "n" << op.n << ".set(" << op.v << ")");
            w.nodes[op.n].c.set(op.v);
            auto [root, v] = w.target(op.n, op.v);
            if (v) {
                w.written(root, *v);
                if (automatic)
                    w.propagate();
            }
            break;
        }
        case Late:
            late = true;
            grow();
            break;
        }
        w.check("after the operation");
        run.step();
        mc::u64 h = mc::mix(nroots, automatic);
        for (auto& n : w.nodes)
            h = mc::mix(mc::mix(h, n.kind * 64 + n.p * 8 + n.q + 1), n.val);
        for (int p : w.pend)
            h = mc::mix(h, p);
        run.state(h);
        if (last)
            run.outcome(h);
    }
}

// ---- values without a default ------------------------------------------------

struct NV
{
    NV(int x)
        : v{x}
    {}
    NV() = delete;
    int v;
    bool operator==(const NV& o) const { return v == o.v; }
};

template <typename Tag>
void no_default(mc::Run& run, int depth)
{
    constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    auto root = std::make_unique<lager::state<NV, Tag>>(NV{1});
    int committed = 1, pending = 1;
    struct R
    {
        lager::reader<NV> r;
        int val;
        int kind;
        int calls = 0, want = 0;
    };
    std::deque<R> rs;
    auto pass = [](int kind, int v) -> O {
        switch (kind) {
        case 0: return v % 2 == 0 ? O{v} : O{};
        case 1: return v > 2 ? O{v + 10} : O{};
        default: return v != 2 ? O{v} : O{};
        }
    };
    auto propagate = [&] {
        committed = pending;
        for (auto& r : rs)
            if (auto v = pass(r.kind, committed); v && *v != r.val) {
                r.val = *v;
                ++r.want;
            }
    };
    for (int d = 0; d < depth; ++d) {
        int c = run.choose(automatic ? 7 : 8);
        if (c < 4) {
            MC_LOG(run, "set " << c + 1);
            if (pending == c + 1)
                run.prune();
            root->set(NV{c + 1});
            pending = c + 1;
            if (automatic)
                propagate();
        } else if (c < 7) {
            int kind  = c - 4;
            auto want = pass(kind, committed);
            bool thrown = false;
            lager::reader<NV> r;
            try {
                auto& s = *root;
                if (kind == 0)
                    r = s.filter([](NV x) { return x.v % 2 == 0; }).make();
                else if (kind == 1)
                    r = s.xform(zug::comp(zug::filter([](NV x) { return x.v > 2; }),
                                          zug::map([](NV x) { return NV{x.v + 10}; })));
                else
                    r = lager::with(s, s.map([](NV x) { return x; }).make())
                            .filter([](NV x, NV) { return x.v != 2; })
                            .map([](NV, NV y) { return y; });
            } catch (const lager::no_value_error&) {
                thrown = true;
            }
            MC_LOG(run, "derive kind " << kind << (thrown ? ": no_value_error" : ""));
            MC_CHECK(run, thrown == !want,
                     (thrown ? "a reader that has a value was refused"
                             : "a reader without a value was constructed"));
            if (want) {
                rs.push_back({r, *want, kind});
                auto& me = rs.back();
                if (kind == 2)
                    rs.pop_back(); // merged twice: only its construction is checked
                else
                    watch(me.r, [&me](NV) { ++me.calls; });
            }
        } else {
            MC_LOG(run, "commit");
            lager::commit(*root);
            propagate();
        }
        MC_CHECK(run, root->get().v == committed, "the state shows " << root->get().v);
        for (auto& r : rs)
            MC_CHECK(run, r.r.get().v == r.val && r.calls == r.want,
                     "a reader shows " << r.r.get().v << " instead of " << r.val << ", its watcher was called "
                                       << r.calls << " times instead of " << r.want);
        run.step();
        mc::u64 h = mc::mix(committed, pending);
        for (auto& r : rs)
            h = mc::mix(h, r.kind * 100 + r.val);
        run.state(h);
    }
    root.reset(); // readers outlive the root
    for (auto& r : rs)
        MC_CHECK(run, r.r.get().v == r.val, "a reader lost its value with its root");
    run.outcome(mc::mix(rs.size(), committed));
}

} // namespace

MC_SCENARIO(small_transactional, 4) { history<lager::transactional_tag>(run, 1 + run.choose(2), 1, run.bound(5, 6)); }
MC_SCENARIO(small_automatic, 4) { history<lager::automatic_tag>(run, 1 + run.choose(2), 1, run.bound(4, 5)); }
MC_SCENARIO(medium_transactional, 6) { history<lager::transactional_tag>(run, 1 + run.choose(2), 2, run.bound(4, 5)); }
MC_SCENARIO(medium_automatic, 6) { history<lager::automatic_tag>(run, 1 + run.choose(2), 2, run.bound(3, 4)); }
MC_SCENARIO(wide_transactional, 6) { history<lager::transactional_tag>(run, 1 + run.choose(2), 3, run.bound(3, 4), !run.thorough()); }
MC_SCENARIO(wide_automatic, 6) { history<lager::automatic_tag>(run, 1 + run.choose(2), 3, run.bound(2, 3), true); }
MC_SCENARIO(no_default_transactional, 3) { no_default<lager::transactional_tag>(run, run.bound(6, 8)); }
MC_SCENARIO(no_default_automatic, 3) { no_default<lager::automatic_tag>(run, run.bound(6, 8)); }
