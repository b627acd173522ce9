// C01 (values), C02 (notifications), C03 (write back): exhaustive exploration
// of cursor graphs and operation histories against the reference model.
// The scenarios are selected by name from the driver.
#include "cursor_graph.hpp"

using namespace cg;

namespace {

const std::vector<std::vector<int>> root_sets = {
    {RootP},
    {RootI},
    {RootP, RootI},
    {RootI, Sens},
    {RootP, Sens, Const},
    {RootP, RootI, Sens},
    {AutoP},
    {AutoI, AutoI},
    {AutoI, RootI},
};

std::vector<std::vector<int>> commit_sets(const Graph& g)
{
    std::vector<int> rs;
    for (int i = 0; i < g.size(); ++i)
        if (arity(g.spec[i].kind) == 0 && g.spec[i].kind != Const &&
            !is_auto(g.spec[i].kind))
            rs.push_back(i);
    std::vector<std::vector<int>> out;
    // everything first (simplest history)
    if (rs.empty())
        return out;
    out.push_back(rs);
    if (rs.size() > 1) {
        out.push_back(std::vector<int>(rs.rbegin(), rs.rend()));
        for (int r : rs)
            out.push_back({r});
        if (rs.size() == 3) {
            out.push_back({rs[0], rs[1]});
            out.push_back({rs[2], rs[0]});
        }
    }
    return out;
}

struct Op
{
    enum T { Set, Ext, Commit, Late, Write, Update, Watch } t;
    int n = 0;
    V v;
    std::vector<int> rs;
};

std::vector<V> values_for(const Graph& g, int n)
{
    switch (g.spec[n].kind) {
    case AutoP:
    case RootP: return {vp(2, 1), vp(3, 2), vp(1, 2)};
    case AutoI:
    case RootI: return {vi(2), vi(3), vi(-4)};
    default:
        // one other value, and the one that is shown already
        if (out_pair(g.spec[n].kind))
            return {g.vis[n] == vp(4, 9) ? vp(1, 2) : vp(4, 9), g.vis[n]};
        return {g.vis[n] == vi(8) ? vi(3) : vi(8), g.vis[n]};
    }
}

void apply_commit(Graph& g, const Op& op, bool calls)
{
    MC_LOG(g.run, "commit(" << [&] {
        std::string s;
        for (int r : op.rs)
            s += (s.empty() ? "n" : ",n") + std::to_string(r);
        return s;
    }() << ")");
    g.commit(op.rs, calls);
}

// ---- C01 / C02: root writes, sensors, partial commits -----------------------

void root_history(mc::Run& run, int nderived, int depth, bool calls, bool late,
                  int nrootsets, bool force_last = false)
{
    Graph g{run};
    auto& roots = root_sets[run.choose(nrootsets)];
    for (int k : roots)
        g.add({k});
    for (int i = 0; i < nderived; ++i)
        g.add(choose_node(run, g, force_last && i));
    g.use_bind = late && !calls;
    // sometimes nobody watches in the beginning
    bool watched = true;
    if (calls && !(late && run.flip()))
        g.watch_all();
    else if (calls)
        watched = false;
    g.check_values("initially");
    bool late_used = false;
    int nconst     = g.size();
    for (int d = 0; d < depth; ++d) {
        std::vector<Op> ops;
        for (auto& rs : commit_sets(g)) {
            Op o{Op::Commit};
            o.rs = rs;
            ops.push_back(o);
        }
        for (int n = 0; n < nconst; ++n) {
            int k = g.spec[n].kind;
            if (k == RootP || k == RootI || is_auto(k))
                for (auto& v : values_for(g, n))
                    if (v != g.pend[n])
                        ops.push_back({Op::Set, n, v, {}});
            if (k == Sens)
                ops.push_back({Op::Ext});
        }
        if (!watched && d > 0 && d + 1 < depth)
            ops.push_back({Op::Watch});
        else if (late && watched && !late_used && d > 0 && d + 1 < depth)
            ops.push_back({Op::Late});
        // the last operation must be a commit of everything
        int c;
        if (d + 1 == depth && ops[0].t == Op::Commit)
            c = run.choose(ops[0].rs.size() > 1 ? 2 : 1);
        else
            c = run.choose(int(ops.size()));
        auto& op = ops[c];
        switch (op.t) {
        case Op::Set: {
            MC_LOG(run, "n" << op.n << ".set(" << op.v << ")");
            auto pd  = g.pend;
            pd[op.n] = op.v;
            if (is_auto(g.spec[op.n].kind)) {
                g.record_pending(pd);
                g.commit({op.n}, calls, [&] { g.set_value(op.n, op.v); });
                g.check_values("after an automatic commit");
                break;
            }
            g.set_value(op.n, op.v);
            g.record_pending(pd);
            g.check_values("after set without commit");
            break;
        }
        case Op::Ext:
            *g.ext = *g.ext == 7 ? 6 : 7;
            MC_LOG(run, "source of sensor := " << *g.ext);
            g.check_values("after the source of a sensor changed");
            break;
        case Op::Commit:
            apply_commit(g, op, calls);
            g.check_values("after commit");
            break;
        case Op::Watch:
            MC_LOG(run, "watch all");
            watched = true;
            g.watch_all();
            break;
        case Op::Late: {
            late_used = true;
            MC_LOG(run, "late:");
            g.add(choose_node(run, g));
            if (calls)
                g.watch(g.size() - 1);
            g.check_values("after deriving a new reader");
            break;
        }
        default: break;
        }
        run.step();
        run.state(g.hash());
    }
    run.outcome(g.hash());
}

} // namespace

MC_SCENARIO(values_small, 3)
{
    root_history(run, 1, run.bound(5, 6), false, true, 9);
}
MC_SCENARIO(values_wide, 3)
{
    root_history(run, 3, 4, false, false, run.bound(3, 9));
}
MC_SCENARIO(values_deep, 3)
{
    root_history(run, run.bound(4, 5), 2, false, false, 3, true);
}

MC_SCENARIO(calls_small, 3)
{
    root_history(run, 1, run.bound(5, 6), true, true, 9);
}
MC_SCENARIO(calls_wide, 3)
{
    root_history(run, 3, 4, true, false, run.bound(3, 9));
}
MC_SCENARIO(calls_deep, 3)
{
    root_history(run, run.bound(4, 5), 2, true, false, 3, true);
}

// ---- C03: write back through derived cursors ------------------------------

namespace {

void write_history(mc::Run& run, int nderived, int depth, int nrootsets,
                   bool force_last = false)
{
    Graph g{run};
    static const std::vector<std::vector<int>> sets = {
        {RootP}, {RootI}, {RootP, RootI}, {RootI, RootI},
        {AutoP}, {AutoI, AutoI}};
    auto& roots = sets[run.choose(nrootsets)];
    for (int k : roots)
        g.add({k});
    for (int i = 0; i < nderived; ++i) {
        auto s = choose_node(run, g, force_last && i);
        if (!writable_kind(s.kind))
            run.prune(); // read-only views are covered by C01
        g.add(s);
    }
    // one read-only observer, through a writer<T> handle too
    for (int d = 0; d < depth; ++d) {
        std::vector<Op> ops;
        for (int n = g.size() - 1; n >= 0; --n) {
            if (!g.writable[n])
                continue;
            for (auto& v : values_for(g, n))
                ops.push_back({Op::Write, n, v, {}});
            ops.push_back({Op::Update, n, {}, {}});
        }
        for (auto& rs : commit_sets(g)) {
            Op o{Op::Commit};
            o.rs = rs;
            ops.push_back(o);
            break; // commit everything
        }
        if (ops.empty())
            run.prune();
        auto& op = d + 1 == depth && ops.back().t == Op::Commit ? ops.back() : ops[run.choose(int(ops.size()))];
        switch (op.t) {
        case Op::Write:
        case Op::Update: {
            V cur = g.eval_pend(op.n);
            V v   = op.v;
            if (op.t == Op::Update)
                v = cur.pair ? vp(cur.b + 1, cur.a) : vi(cur.a * 2 + 1);
            std::vector<V> pd;
            if (!g.put_checked(op.n, v, pd)) {
                MC_LOG(run, "skip order-dependent write to n" << op.n);
                run.prune();
            }
            if (op.t == Op::Write) {
                MC_LOG(run, "n" << op.n << ".set(" << v << ")");
                // lvalue through a writer handle, or rvalue through the cursor
                bool lvalue = run.flip();
                if (v.pair) {
                    P val{v.a, v.b};
                    if (lvalue)
                        lager::writer<P>{g.h[op.n].cp}.set(val);
                    else
                        g.h[op.n].cp.set(P{v.a, v.b});
                } else {
                    I val = v.a;
                    if (lvalue)
                        lager::writer<I>{g.h[op.n].ci}.set(val);
                    else
                        g.h[op.n].ci.set(I(v.a));
                }
            } else {
                MC_LOG(run, "n" << op.n << ".update(...) pending " << cur
                                << " -> " << v);
                std::vector<V> seen;
                if (out_pair(g.spec[op.n].kind))
                    g.h[op.n].cp.update([&](P p) {
                        seen.push_back(from(p));
                        return P{std::get<1>(p) + 1, std::get<0>(p)};
                    });
                else
                    g.h[op.n].ci.update([&](I x) {
                        seen.push_back(from(x));
                        return I(x * 2 + 1);
                    });
                MC_CHECK(run, seen.size() == 1,
                         "update() called its function " << seen.size()
                                                         << " times");
                MC_CHECK(run, seen[0] == cur,
                         "update() of n" << op.n << " ("
                                         << kind_name(g.spec[op.n].kind)
                                         << ") received " << seen[0]
                                         << " but the latest value is " << cur);
            }
            g.record_pending(pd);
            if (auto rs = g.automatic(pd); !rs.empty()) {
                g.commit(rs, false, [] {});
                g.check_values("after an automatic commit");
            }
            g.check_values("after a write without commit");
            break;
        }
        case Op::Commit:
            apply_commit(g, op, false);
            g.check_values("after commit");
            break;
        default: break;
        }
        run.step();
        run.state(g.hash());
    }
    run.outcome(g.hash());
}

} // namespace

MC_SCENARIO(writes_small, 3)
{
    write_history(run, 1, run.bound(4, 6), 6);
}
MC_SCENARIO(writes_wide, 3)
{
    write_history(run, 2, run.bound(4, 5), run.bound(5, 6));
}
MC_SCENARIO(writes_deep, 3)
{
    write_history(run, 3, 3, run.bound(3, 6));
}

MC_SCENARIO(writes_chain, 3)
{
    write_history(run, run.bound(3, 4), 3, 6, true);
}
