// C13, sequential part: all histories of promises, continuations and loop
// steps.  Oracle: a continuation runs exactly once, after everything it
// depends on, on the loop of its promise (at once for an empty future).
#include "../engine/mc.hpp"

#include <lager/future.hpp>

#include <deque>
#include <memory>
#include <vector>

namespace {

struct Loop
{
    std::deque<std::function<void()>> q;
    bool running = false;
    bool one()
    {
        if (q.empty())
            return false;
        auto f = std::move(q.front());
        q.pop_front();
        running = true;
        f();
        running = false;
        return true;
    }
};

enum Kind { Base, Empty, Then, ThenFut, Also };

struct Node
{
    Kind kind;
    int a = -1, b = -1; // sources
    int loop = 0;       // where its continuations run (-1: at once)
    bool is_empty = false;
    int cb = -1; // its callback
};

struct Cb
{
    int node;
    int calls = 0;
};

struct World
{
    mc::Run& run;
    Loop loops[2];
    std::vector<Node> nodes;
    std::vector<Cb> cbs;
    std::vector<lager::promise> promises;
    std::vector<bool> fulfilled;
    std::vector<int> base_node;
    std::vector<lager::future> fut;
    std::vector<bool> alive; // future slot not consumed
    std::string err;

    // could node n be complete by now?
    bool may(int n)
    {
        auto& x = nodes[n];
        switch (x.kind) {
        case Base: return fulfilled[x.a];
        case Empty: return true;
        case Then: return may(x.a);
        case ThenFut:
        case Also: return may(x.a) && may(x.b);
        }
        return false;
    }
    void called(int cb)
    {
        auto& c = cbs[cb];
        if (++c.calls > 1)
            err = "a continuation ran twice";
        auto& x = nodes[c.node];
        if (!may(x.a))
            err = "a continuation ran before its future was fulfilled";
        if (!nodes[x.a].is_empty) {
            int l = nodes[x.a].loop;
            if (!loops[l].running)
                err = "a continuation ran outside of its event loop";
        }
    }
    void check()
    {
        if (!err.empty())
            run.fail(err);
        for (auto& c : cbs)
            MC_CHECK(run, !nodes[nodes[c.node].a].is_empty || c.calls == 1,
                     "a continuation of an empty future did not run at once");
    }
    void at_rest()
    {
        for (auto& c : cbs)
            MC_CHECK(run, c.calls == (may(nodes[c.node].a) ? 1 : 0),
                     "after everything ran, continuation "
                         << c.node << " of future " << nodes[c.node].a << " ran "
                         << c.calls << " times, its future is "
                         << (may(nodes[c.node].a) ? "fulfilled" : "not fulfilled"));
    }
};

struct Op
{
    enum T { Fulfil, Step0, Step1, MkThen, MkThenFut, MkAlso } t;
    int a = -1, b = -1;
};

void history(mc::Run& run, int nbase, bool empty, int depth, bool two_loops)
{
    World w{run};
    for (int i = 0; i < nbase; ++i) {
        int l       = two_loops ? i % 2 : 0;
        auto [p, f] = lager::promise::with_post(
            [&w, l](std::function<void()> fn) { w.loops[l].q.push_back(fn); });
        w.promises.push_back(std::move(p));
        w.fulfilled.push_back(false);
        Node n{Base};
        n.a    = i;
        n.loop = l;
        w.nodes.push_back(n);
        w.fut.push_back(std::move(f));
        w.alive.push_back(true);
    }
    if (empty) {
        Node n{Empty};
        n.is_empty = true;
        w.nodes.push_back(n);
        w.fut.push_back(lager::future{});
        w.alive.push_back(true);
    }
    auto add = [&](Node n, lager::future f) {
        w.nodes.push_back(n);
        MC_CHECK(run, bool(f) == !n.is_empty,
                 "the future of a continuation is "
                     << (f ? "not empty" : "empty"));
        w.fut.push_back(std::move(f));
        w.alive.push_back(true);
    };
    for (int d = 0; d < depth; ++d) {
        std::vector<Op> ops;
        for (int i = 0; i < nbase; ++i)
            if (!w.fulfilled[i])
                ops.push_back({Op::Fulfil, i});
        for (int l = 0; l < 2; ++l)
            if (!w.loops[l].q.empty())
                ops.push_back({l ? Op::Step1 : Op::Step0});
        for (int i = 0; i < int(w.nodes.size()); ++i)
            if (w.alive[i]) {
                ops.push_back({Op::MkThen, i});
                for (int j = 0; j < int(w.nodes.size()); ++j)
                    if (j != i && w.alive[j]) {
                        ops.push_back({Op::MkThenFut, i, j});
                        ops.push_back({Op::MkAlso, i, j});
                    }
            }
        if (ops.empty())
            break;
        auto op = ops[run.choose(int(ops.size()))];
        switch (op.t) {
        case Op::Fulfil: {
            MC_LOG(run, "fulfil promise " << op.a);
            w.fulfilled[op.a] = true;
            w.promises[op.a]();
            break;
        }
        case Op::Step0:
        case Op::Step1:
            MC_LOG(run, "step loop " << (op.t == Op::Step1));
            w.loops[op.t == Op::Step1].one();
            break;
        case Op::MkThen: {
            MC_LOG(run, "future " << w.nodes.size() << " = future " << op.a
                                  << ".then(void callback)");
            Node n{Then, op.a, -1};
            n.is_empty = w.nodes[op.a].is_empty;
            n.loop     = w.nodes[op.a].loop;
            int cb     = int(w.cbs.size());
            w.cbs.push_back({int(w.nodes.size())});
            n.cb          = cb;
            w.alive[op.a] = false;
            // the node must be known to the model when the callback runs
            auto save = w.nodes;
            w.nodes.push_back(n);
            auto f = std::move(w.fut[op.a]).then([&w, cb] { w.called(cb); });
            w.nodes = save;
            add(n, std::move(f));
            break;
        }
        case Op::MkThenFut:
        case Op::MkAlso: {
            MC_LOG(run, "future " << w.nodes.size() << " = future " << op.a
                                  << (op.t == Op::MkAlso ? ".also(" : ".then(returning ")
                                  << "future " << op.b << ")");
            Node n{op.t == Op::MkAlso ? Also : ThenFut, op.a, op.b};
            // an empty source runs its callback at once and becomes what the
            // callback returned
            n.is_empty = w.nodes[op.a].is_empty && w.nodes[op.b].is_empty;
            n.loop     = w.nodes[op.a].is_empty ? w.nodes[op.b].loop
                                                : w.nodes[op.a].loop;
            w.alive[op.a] = w.alive[op.b] = false;
            lager::future f;
            if (op.t == Op::MkAlso) {
                f = std::move(w.fut[op.a]).also(std::move(w.fut[op.b]));
            } else {
                int cb = int(w.cbs.size());
                w.cbs.push_back({int(w.nodes.size())});
                n.cb      = cb;
                auto save = w.nodes;
                w.nodes.push_back(n);
                f = std::move(w.fut[op.a])
                        .then([&w, cb, g = std::move(w.fut[op.b])]() mutable {
                            w.called(cb);
                            return std::move(g);
                        });
                w.nodes = save;
            }
            add(n, std::move(f));
            break;
        }
        }
        w.check();
        run.step();
        mc::u64 h = 1;
        for (auto& n : w.nodes)
            h = mc::mix(h, n.kind * 100 + n.a * 10 + n.b);
        for (auto& c : w.cbs)
            h = mc::mix(h, c.calls);
        for (bool f : w.fulfilled)
            h = mc::mix(h, f);
        run.state(h);
    }
    auto drain = [&] {
        for (bool again = true; again;) {
            again = false;
            for (auto& l : w.loops)
                while (l.one()) {
                    again = true;
                    w.check();
                }
        }
    };
    // everything that can run, runs; then the rest is fulfilled
    drain();
    w.at_rest();
    for (int i = 0; i < nbase; ++i)
        if (!w.fulfilled[i]) {
            w.fulfilled[i] = true;
            w.promises[i]();
            drain();
            w.at_rest();
        }
    for (int i = 0; i < nbase; ++i) {
        bool threw = false;
        try {
            w.promises[i]();
        } catch (std::runtime_error&) {
            threw = true;
        }
        MC_CHECK(run, threw, "fulfilling a promise twice did not throw");
    }
    drain();
    w.at_rest();
    mc::u64 h = 1;
    for (auto& c : w.cbs)
        h = mc::mix(h, c.calls * 16 + c.node);
    run.outcome(h);
}

} // namespace

MC_SCENARIO(two_promises, 3) { history(run, 2, false, run.bound(7, 9), false); }
MC_SCENARIO(three_promises, 3) { history(run, 3, false, run.bound(6, 7), false); }
MC_SCENARIO(with_empty, 3) { history(run, 2, true, run.bound(6, 8), false); }
MC_SCENARIO(two_loops, 3) { history(run, 2, true, run.bound(6, 7), true); }

MC_SCENARIO(two_promises_mem, 3) { history(run, 2, false, run.bound(5, 7), false); }
MC_SCENARIO(with_empty_mem, 3) { history(run, 2, true, run.bound(4, 6), false); }
