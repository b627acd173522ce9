// C19: the tree debugger.  Histories of actions and debugger actions; the
// reference is a tree of nodes, each of which remembers the cursor that the
// debugger had when the node was created.
#include "debugger.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>

namespace {

enum Op { OGoto, OUndo, OPause, OResume, OBad, NOps };
const char* op_names[] = {"goto", "undo", "pause", "resume", "goto (bad cursor)"};

struct Node
{
    int parent;
    Action action;
    std::vector<int> model;
};

struct Ref
{
    std::vector<Node> nodes{{-1, {}, {-1}}}; // 0: the initial step
    int current = 0;
    bool paused = false;
    std::vector<Action> pending;

    int apply(Action a)
    {
        auto next = Base::reduce(Model{nodes[current].model}, a);
        nodes.push_back({current, a, next.trace});
        return current = int(nodes.size()) - 1;
    }
};

template <typename Cursor>
std::string show(const Cursor& c)
{
    std::string s = "[";
    for (auto& p : c)
        s += (s.size() > 1 ? " " : "") + std::to_string(p.branch) + ":" + std::to_string(p.step);
    return s + "]";
}

enum Flags { Transactional = 1, Queued = 2, NoEffects = 4 };

template <typename MakeStore>
void drive(mc::Run& run, MakeStore&& make, int flags, int depth)
{
    World world{run};
    w       = &world;
    w->sent = [](Action) {};
    Server server;
    auto store = make(server);
    using D    = lager::tree_debugger<Action, Model, typename std::decay_t<decltype(make.deps)>>;
    using C    = typename D::cursor_t;
    MC_CHECK(run, server.makes == 1, "the server made " << server.makes << " handles");
    auto* handle = static_cast<Handle<D>*>(server.handle.get());
    MC_CHECK(run, handle->inits == 1, "the handle was initialized " << handle->inits << " times");

    struct Sent
    {
        int op; // -1: an action
        Action action;
        int node = 0;
    };
    Ref ref;
    Ref committed;
    Expect exp;
    std::vector<Sent> sent;
    std::vector<C> cursors{C{}};
    bool transactional = flags & Transactional;
    w->sent            = [&](Action a) { sent.push_back({-1, a}); };

    auto fold = [&] {
        expect = &exp;
        for (auto& s : sent)
            switch (s.op) {
            case -1:
                if (ref.paused)
                    ref.pending.push_back(s.action);
                else
                    ref.apply(s.action);
                break;
            case OGoto: ref.current = s.node; break;
            case OUndo:
                if (ref.current)
                    ref.current = ref.nodes[ref.current].parent;
                break;
            case OPause:
                ref.paused = true;
                ++exp.pauses;
                break;
            case OResume: {
                ref.paused = false;
                ++exp.resumes;
                auto pending = ref.pending;
                ref.pending.clear();
                for (auto& a : pending)
                    ref.apply(a);
                break;
            }
            case OBad: break;
            }
        sent.clear();
        if (!transactional)
            committed = ref;
    };

    // every cursor there is in a tree
    std::function<void(const immer::vector<typename D::history>&, const C&, std::vector<C>&)> walk =
        [&](auto& branches, const C& base, std::vector<C>& out) {
            for (std::size_t b = 0; b < branches.size(); ++b)
                for (std::size_t s = 0; s < branches[b].size(); ++s) {
                    auto c = base.push_back({b, s});
                    out.push_back(c);
                    walk(branches[b][s]->branches, c, out);
                }
        };
    // the cursors that a summary describes
    std::function<void(const typename D::summary_t&, const C&, std::vector<C>&)> walk_summary =
        [&](auto& summary, const C& base, std::vector<C>& out) {
            for (std::size_t b = 0; b < summary.size(); ++b) {
                std::size_t s = 0;
                for (std::size_t i = 0; i < summary[b].size(); ++i) {
                    auto& part = *summary[b][i];
                    for (std::size_t k = 0; k < part.steps; ++k)
                        out.push_back(base.push_back({b, s++}));
                    if (i + 1 < summary[b].size()) {
                        auto c = base.push_back({b, s++});
                        out.push_back(c);
                        walk_summary(part.branches, c, out);
                    }
                }
            }
        };

    // m is the debugger's model after all of ref
    auto compare_with = [&](const typename D::model& m, const Ref& ref) {
        MC_CHECK(run, m.paused == ref.paused, "the debugger is " << (m.paused ? "" : "not ") << "paused");
        MC_CHECK(run, m.pending.size() == ref.pending.size(),
                 m.pending.size() << " actions are pending instead of " << ref.pending.size());
        for (std::size_t i = 0; i < ref.pending.size(); ++i)
            MC_CHECK(run, m.pending[i] == ref.pending[i], "wrong pending action");
        // the nodes keep their cursors
        for (std::size_t i = 0; i < ref.nodes.size(); ++i) {
            if (i >= cursors.size())
                continue; // applied together with a later one
            if (i && cursors[i].empty())
                continue;
            auto&& r = m.lookup(cursors[i]);
            MC_CHECK(run, bool(r.first) == (i != 0), "the step at " << show(cursors[i]) << " has a wrong action");
            if (i)
                MC_CHECK(run, *r.first == ref.nodes[i].action,
                         "the step at " << show(cursors[i]) << " is the one of action " << r.first->id
                                        << " instead of " << ref.nodes[i].action.id);
            MC_CHECK(run, r.second.trace == ref.nodes[i].model,
                     "the step at " << show(cursors[i]) << " has " << str(r.second.trace)
                                    << " instead of " << str(ref.nodes[i].model));
        }
        // there are no other steps
        std::vector<C> all, summed;
        walk(m.branches, C{}, all);
        MC_CHECK(run, all.size() + 1 == ref.nodes.size(),
                 "the tree has " << all.size() << " steps instead of " << ref.nodes.size() - 1);
        std::vector<int> ids, expected;
        for (auto& c : all)
            ids.push_back(m.lookup(c).first->id);
        for (std::size_t i = 1; i < ref.nodes.size(); ++i)
            expected.push_back(ref.nodes[i].action.id);
        std::sort(ids.begin(), ids.end());
        std::sort(expected.begin(), expected.end());
        MC_CHECK(run, ids == expected, "the steps of the tree are " << str(ids) << " instead of " << str(expected));
        walk_summary(m.summary(), C{}, summed);
        MC_CHECK(run, summed == all, "the summary describes " << summed.size() << " steps instead of " << all.size());
        // the current step
        auto&& now = m.lookup(m.cursor);
        MC_CHECK(run, bool(now.first) == (ref.current != 0),
                 "the debugger is at " << show(m.cursor) << " instead of " << (ref.current ? "a step" : "the start"));
        if (ref.current) {
            MC_CHECK(run, *now.first == ref.nodes[ref.current].action,
                     "the debugger is at the step of action " << now.first->id << " instead of "
                                                              << ref.nodes[ref.current].action.id);
        }
        const Model& shown = m;
        MC_CHECK(run, shown.trace == ref.nodes[ref.current].model,
                 "the debugger shows " << str(shown.trace) << " instead of "
                                       << str(ref.nodes[ref.current].model));
        return all;
    };

    auto check = [&] {
        auto& m  = store.get();
        auto all = compare_with(m, committed);
        // remember where the new nodes are
        for (std::size_t i = cursors.size(); i < committed.nodes.size(); ++i) {
            C found{};
            for (auto& c : all)
                if (m.lookup(c).first->id == committed.nodes[i].action.id)
                    found = c;
            cursors.push_back(found);
        }
        MC_CHECK(run, m.cursor == cursors[committed.current],
                 "the debugger is at " << show(m.cursor) << " instead of "
                                       << show(cursors[committed.current]));
        compare_with(handle->data.get(), committed);
        MC_CHECK(run, w->calls == exp.calls, "the reducer was called with something else");
        MC_CHECK(run, w->effects == exp.effects,
                 "effects " << str(w->effects) << " ran instead of " << str(exp.effects));
        MC_CHECK(run, w->pauses == exp.pauses && w->resumes == exp.resumes,
                 "the event loop was paused " << w->pauses << " and resumed " << w->resumes << " times");
        mc::u64 h = mc::mix(committed.current, committed.paused);
        for (auto& n : committed.nodes)
            h = mc::mix(h, n.parent + 1);
        run.state(mc::mix(h, committed.pending.size()));
    };
    auto settle = [&] {
        w->drain();
        fold();
        check();
    };
    auto commit = [&] {
        settle();
        lager::commit(store);
        committed = ref;
        settle();
    };

    check();
    static const Prog progs[] = {Plain, Nested, NoChange, Fut};
    int n_progs               = flags & NoEffects ? 1 : flags & Queued ? 2 : 3;
    for (int i = 0; i < depth; ++i) {
        int c = run.choose(n_progs + NOps + (flags & Transactional || flags & Queued ? 1 : 0));
        run.step();
        if (c < n_progs) {
            MC_LOG(run, "dispatch action " << w->progs.size() << ", " << names[progs[c]]);
            if (i % 2)
                handle->ctx.dispatch(w->fresh(progs[c]));
            else
                store.dispatch(w->fresh(progs[c]));
        } else if (c < n_progs + NOps) {
            int op = c - n_progs;
            typename D::action a;
            int node = 0;
            if (op == OGoto) {
                node = run.choose(int(cursors.size()));
                if (node && cursors[node].empty())
                    run.prune();
                MC_LOG(run, "goto the step of action " << ref.nodes[node].action.id << " " << show(cursors[node]));
                a = typename D::goto_action{cursors[node]};
            } else
                MC_LOG(run, op_names[op]);
            if (op == OUndo)
                a = typename D::undo_action{};
            if (op == OPause)
                a = typename D::pause_action{};
            if (op == OResume)
                a = typename D::resume_action{};
            if (op == OBad) {
                int at  = run.choose(int(cursors.size()));
                auto bc = cursors[at];
                // right beyond what there is, when that is known
                bool known = !transactional && sent.empty();
                std::vector<C> there;
                if (known)
                    walk(store.get().branches, C{}, there);
                auto beyond = [&](const C& c) {
                    if (std::find(there.begin(), there.end(), c) != there.end())
                        run.prune();
                    return c;
                };
                switch (run.choose(known ? 6 : 3)) {
                case 3: // the next step
                    if (bc.empty())
                        run.prune();
                    bc = beyond(bc.set(bc.size() - 1, {bc.back().branch, bc.back().step + 1}));
                    break;
                case 4: // the next branch
                    if (bc.empty())
                        run.prune();
                    bc = beyond(bc.set(bc.size() - 1, {bc.back().branch + 1, 0}));
                    break;
                case 5: { // the next branch of this step
                    std::size_t n = 0;
                    while (std::find(there.begin(), there.end(), bc.push_back({n, 0})) != there.end())
                        ++n;
                    bc = bc.push_back({n, 0});
                    break;
                }
                case 0: bc = bc.push_back({999, 0}); break;
                case 1: bc = bc.push_back({0, 999}); break;
                case 2:
                    if (bc.empty())
                        run.prune();
                    bc = bc.set(bc.size() - 1, {bc.back().branch, 999}).push_back({0, 0});
                    break;
                }
                MC_LOG(run, "... " << show(bc));
                a = typename D::goto_action{bc};
            }
            sent.push_back({op, {}, node});
            if (i % 2)
                handle->ctx.dispatch(a);
            else
                store.dispatch(a);
        } else if (flags & Transactional) {
            MC_LOG(run, "commit");
            commit();
            continue;
        } else {
            if (sent.empty())
                run.prune();
            MC_LOG(run, "run the event loop");
            settle();
            continue;
        }
        if (!(flags & Queued))
            settle();
    }
    settle();
    if (flags & Transactional)
        commit();
    for (std::size_t i = 0; i < w->effects.size(); ++i)
        run.outcome(mc::mix(i, w->effects[i]));
    handle->ctx  = {};
    handle->data = {};
}

struct MakeAutomatic
{
    lager::deps<> deps;
    auto operator()(Server& s) const
    {
        return lager::make_store<Action, lager::automatic_tag>(
            Model{{-1}}, Loop{}, lager::with_reducer(Paired{}),
            lager::with_debugger<lager::tree_debugger>(s));
    }
};
struct MakeTransactional
{
    lager::deps<lager::dep::val<int>> deps;
    auto operator()(Server& s) const
    {
        return lager::make_store<Action, lager::transactional_tag>(
            Model{{-1}}, Loop{}, lager::with_deps(42), lager::with_futures,
            lager::with_reducer(WithResult{}), lager::with_debugger<lager::tree_debugger>(s));
    }
};

MC_SCENARIO(tree, 3) { drive(run, MakeAutomatic{}, 0, run.bound(5, 6)); }
MC_SCENARIO(tree_deep, 4) { drive(run, MakeAutomatic{}, NoEffects, run.bound(6, 8)); }
MC_SCENARIO(tree_queued, 3) { drive(run, MakeAutomatic{}, Queued, run.bound(6, 7)); }
MC_SCENARIO(tree_transactional, 3) { drive(run, MakeTransactional{}, Transactional, run.bound(6, 7)); }

} // namespace
