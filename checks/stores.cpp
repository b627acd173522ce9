// C10 (reduction, visibility), C11 (effects), C12 (futures of dispatch):
// histories of dispatches on stores over the passive event loops.
// The scenarios c10_*, c11_*, c12_* drive the same histories and judge
// different aspects.  PART selects the event loop.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <cassert> // (safe_queue.hpp relies on it)

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

namespace {

enum Prog {
    Plain,
    Void,         // effect returning nothing
    VoidDispatch, // effect dispatching, ignoring the future
    Fut,          // effect returning the future of a nested dispatch
    Seq2,         // sequence(dispatch, dispatch)
    NoChange,     // the model stays the same
    FutChain,     // ... whose effect does the same
    Seq3,         // sequence(dispatch, noop, empty, void, dispatch)
    Post,         // effect posting to the event loop
    Also,         // effect returning dispatch.also(dispatch)
    Ext,          // effect returning the future of a promise fulfilled later
    Empty,        // empty effect
    Noop,         // lager::noop as an effect
    SeqExt,       // sequence(external promise, dispatch)
    ThrowReduce,
    ThrowEffect,
    NProgs
};
const char* names[] = {"plain", "void", "dispatch", "future", "sequence2", "nochange",
                       "chain", "sequence3", "post", "also", "external", "empty", "noop",
                       "sequence-external", "throwing reducer", "throwing effect"};

struct Action
{
    mc::num id; // (shows when it has been moved away)
    Prog prog;
};

struct Model
{
    std::vector<int> trace;
    bool operator==(const Model& o) const { return trace == o.trace; }
};

struct Boom
{};

std::string str(const std::vector<int>& v)
{
    std::string s = "[";
    for (int x : v)
        s += (s.size() > 1 ? " " : "") + std::to_string(x);
    return s + "]";
}

enum Aspect { Reduction = 1, Effects = 2, Futures = 4 };

struct Rec // what is known about one dispatched action
{
    Prog prog;
    bool reduced = false;
    int effects  = 0;              // times its effect ran
    bool all_started = false;      // every part of its effect ran
    std::vector<int> awaits;       // actions its effect waits for
    std::shared_ptr<bool> ext;     // external promise: fulfilled
    bool threw = false;
};

struct World
{
    mc::Run& run;
    int aspects;
    bool automatic, futures;
    std::vector<Rec> recs;
    std::vector<int> dispatched; // ids in the order of dispatch
    std::vector<int> reduced;    // ids in the order of reduction
    std::vector<int> effect_order;
    std::vector<lager::promise> promises;
    std::vector<std::shared_ptr<bool>> promise_done;
    std::vector<std::vector<int>> calls; // watcher calls
    std::vector<int> shown;              // last known visible value
    std::vector<int> committed;
    std::function<std::vector<int>()> get;
    std::function<void(std::function<void()>)> post;

    int fresh(Prog p)
    {
        Rec r;
        r.prog = p;
        recs.push_back(r);
        return int(recs.size()) - 1;
    }
    // everything that has to precede the resolution of the future
    bool complete(int id)
    {
        auto& r = recs[id];
        if (!r.reduced)
            return false;
        if (!has_effect(r.prog))
            return true;
        if (!r.effects || !r.all_started || r.threw)
            return false;
        for (int a : r.awaits)
            if (!complete(a))
                return false;
        return !r.ext || *r.ext;
    }
    static bool has_effect(Prog p)
    {
        return p != Plain && p != NoChange && p != Empty && p != Noop && p != ThrowReduce;
    }
    static bool changes(Prog p) { return p != NoChange && p != ThrowReduce; }
    std::vector<int> fold()
    {
        std::vector<int> t;
        for (int id : reduced)
            if (changes(recs[id].prog))
                t.push_back(id);
        return t;
    }
};

World* w;

template <typename Ctx>
lager::future send(const Ctx& ctx, Prog p)
{
    int id = w->fresh(p);
    w->dispatched.push_back(id);
    return ctx.dispatch(Action{id, p});
}

// the effect of an action starts
void started(int id, bool first = true)
{
    auto& r = w->recs[id];
    if (!first)
        return;
    ++r.effects;
    if (w->aspects & Effects) {
        MC_CHECK(w->run, r.reduced, "the effect of action " << id << " ran before its reduction");
        MC_CHECK(w->run, r.effects == 1,
                 "the effect of action " << id << " ran " << r.effects << " times");
        w->effect_order.push_back(id);
        auto now = w->get();
        if (w->automatic) {
            MC_CHECK(w->run, std::count(now.begin(), now.end(), id) == 1,
                     "the effect of action " << id << " ran while the store showed " << str(now)
                                             << ": the action is not visible");
            MC_CHECK(w->run, w->calls.size() && w->calls.back() == now,
                     "the effect of action " << id << " ran before the watchers were told about " << str(now));
        } else
            MC_CHECK(w->run, now == w->committed,
                     "uncommitted changes are visible to an effect: " << str(now));
    }
}

template <typename Deps>
lager::effect<Action, Deps> make_effect(int id, Prog p)
{
    using ctx_t    = lager::context<Action, Deps>;
    using effect_t = lager::effect<Action, Deps>;
    auto deps_ok   = [](const ctx_t& ctx) {
        if constexpr (!std::is_same_v<Deps, lager::deps<>>)
            MC_CHECK(w->run, ctx.template get<int>() == 42, "the effect got a wrong dependency");
    };
    auto await = [](int id, int nested) { w->recs[id].awaits.push_back(nested); };
    switch (p) {
    case Void:
        return [=](const ctx_t& ctx) -> void {
            started(id);
            deps_ok(ctx);
            w->recs[id].all_started = true;
        };
    case VoidDispatch:
        return [=](const ctx_t& ctx) -> void {
            started(id);
            w->recs[id].all_started = true;
            send(ctx, Void);
            send(ctx, Plain);
        };
    case Fut:
    case FutChain:
        return [=](const ctx_t& ctx) -> lager::future {
            started(id);
            deps_ok(ctx);
            await(id, int(w->recs.size()));
            w->recs[id].all_started = true;
            return send(ctx, p == Fut ? Plain : Fut);
        };
    case Seq2: {
        effect_t a = [=](const ctx_t& ctx) {
            started(id);
            await(id, int(w->recs.size()));
            return send(ctx, Fut);
        };
        effect_t b = [=](const ctx_t& ctx) {
            if (w->aspects & Effects && w->futures)
                MC_CHECK(w->run, w->complete(w->recs[id].awaits[0]),
                         "the second effect of a sequence ran before the first completed");
            MC_CHECK(w->run, !w->recs[id].all_started, "the second effect of a sequence ran twice");
            w->recs[id].all_started = true;
            deps_ok(ctx);
            await(id, int(w->recs.size()));
            return send(ctx, Void);
        };
        return lager::sequence(a, b);
    }
    case Seq3: {
        auto stage = std::make_shared<int>(0);
        effect_t a = [=](const ctx_t& ctx) {
            started(id);
            MC_CHECK(w->run, (*stage)++ == 0, "sequence out of order");
            await(id, int(w->recs.size()));
            return send(ctx, Plain);
        };
        effect_t n = lager::noop;
        effect_t b = [=](const ctx_t&) -> void {
            MC_CHECK(w->run, (*stage)++ == 1, "sequence out of order");
            if (w->aspects & Effects && w->futures)
                MC_CHECK(w->run, w->complete(w->recs[id].awaits[0]),
                         "the second effect of a sequence ran before the first completed");
        };
        effect_t c = [=](const ctx_t& ctx) {
            MC_CHECK(w->run, (*stage)++ == 2, "sequence out of order");
            w->recs[id].all_started = true;
            await(id, int(w->recs.size()));
            return send(ctx, Fut);
        };
        return lager::sequence(a, n, effect_t{}, b, c);
    }
    case Post:
        return [=](const ctx_t& ctx) -> void {
            started(id);
            w->recs[id].all_started = true;
            ctx.loop().post([=] { send(ctx, Plain); });
        };
    case Also:
        return [=](const ctx_t& ctx) -> lager::future {
            started(id);
            w->recs[id].all_started = true;
            await(id, int(w->recs.size()));
            auto a = send(ctx, Plain);
            await(id, int(w->recs.size()));
            return std::move(a).also(send(ctx, Fut));
        };
    case Ext:
        return [=](const ctx_t& ctx) -> lager::future {
            started(id);
            w->recs[id].all_started = true;
            auto [pr, f]            = lager::promise::with_post([ctx](auto fn) { ctx.loop().post(fn); });
            w->promises.push_back(pr);
            w->promise_done.push_back(std::make_shared<bool>(false));
            w->recs[id].ext = w->promise_done.back();
            return std::move(f);
        };
    case SeqExt: {
        effect_t a = [=](const ctx_t& ctx) -> lager::future {
            started(id);
            auto [pr, f] = lager::promise::with_post([ctx](auto fn) { ctx.loop().post(fn); });
            w->promises.push_back(pr);
            w->promise_done.push_back(std::make_shared<bool>(false));
            w->recs[id].ext = w->promise_done.back();
            return std::move(f);
        };
        effect_t b = [=](const ctx_t& ctx) {
            if (w->aspects & Effects)
                MC_CHECK(w->run, *w->recs[id].ext,
                         "the second effect of a sequence ran before the promise of the first was fulfilled");
            MC_CHECK(w->run, !w->recs[id].all_started, "the second effect of a sequence ran twice");
            w->recs[id].all_started = true;
            await(id, int(w->recs.size()));
            return send(ctx, Plain);
        };
        return lager::sequence(a, b);
    }
    case ThrowEffect:
        return [=](const ctx_t& ctx) -> void {
            started(id);
            w->recs[id].threw = true;
            send(ctx, Plain);
            throw Boom{};
        };
    case Noop: return lager::noop;
    case Empty:
    default: return effect_t{};
    }
}

void reduce(Model& m, Action a)
{
    if (w->aspects & Reduction)
        MC_CHECK(w->run, m.trace == w->fold(),
                 "the reducer received " << str(m.trace) << " instead of " << str(w->fold()));
    auto& r = w->recs[a.id];
    MC_CHECK(w->run, !r.reduced, "action " << a.id << " was reduced twice");
    MC_CHECK(w->run, r.prog == a.prog, "action " << a.id << " arrived changed");
    r.reduced = true;
    w->reduced.push_back(a.id);
    if (a.prog == ThrowReduce)
        throw Boom{};
    if (World::changes(a.prog))
        m.trace.push_back(a.id);
}

using Deps = lager::deps<int>;

// reducers that return a pair, a result, and a result with dependencies
struct Paired
{
    std::pair<Model, lager::effect<Action>> operator()(Model m, Action a) const
    {
        reduce(m, a);
        if (World::has_effect(a.prog) || a.prog == Empty || a.prog == Noop)
            return {m, make_effect<lager::deps<>>(a.id, a.prog)};
        return {m, lager::noop};
    }
};
struct Resulted
{
    lager::result<Model, Action> operator()(Model m, Action a) const
    {
        reduce(m, a);
        if (World::has_effect(a.prog) || a.prog == Empty || a.prog == Noop)
            return {m, make_effect<lager::deps<>>(a.id, a.prog)};
        return m;
    }
};
struct WithDeps
{
    lager::result<Model, Action, Deps> operator()(Model m, Action a) const
    {
        reduce(m, a);
        if (World::has_effect(a.prog) || a.prog == Empty || a.prog == Noop)
            return {m, make_effect<Deps>(a.id, a.prog)};
        return m;
    }
};
struct Pure // without effects
{
    Model operator()(Model m, Action a) const
    {
        reduce(m, a);
        return m;
    }
};

#if PART == 1
struct LoopT
{
    static constexpr bool immediate = true;
    auto make() { return lager::with_manual_event_loop{}; }
    void step() {}
};
#elif PART == 2
struct LoopT
{
    static constexpr bool immediate = false;
    lager::queue_event_loop q;
    auto make() { return lager::with_queue_event_loop{q}; }
    void step() { q.step(); }
};
#else
struct LoopT
{
    static constexpr bool immediate = false;
    lager::safe_queue_event_loop q;
    auto make() { return lager::with_safe_queue_event_loop{q}; }
    void step() { q.step(); }
};
#endif

template <typename Reducer, typename Tag, bool HasFutures>
void history(mc::Run& run, int aspects, const std::vector<Prog>& progs, int depth,
             bool watcher_dispatches = true)
{
    constexpr bool automatic = !std::is_same_v<Tag, lager::transactional_tag>;
    World world{run, aspects, automatic, HasFutures};
    w = &world;
    LoopT loop;
    auto store = [&] {
        auto l = loop.make();
        if constexpr (std::is_same_v<Reducer, WithDeps>) {
            if constexpr (HasFutures)
                return lager::make_store<Action, Tag>(Model{}, l, lager::with_reducer(Reducer{}),
                                                      lager::with_deps(42), lager::with_futures);
            else
                return lager::make_store<Action, Tag>(Model{}, l, lager::with_deps(42),
                                                      lager::with_reducer(Reducer{}));
        } else if constexpr (HasFutures)
            return lager::make_store<Action, Tag>(Model{}, l, lager::with_futures,
                                                  lager::with_reducer(Reducer{}));
        else
            return lager::make_store<Action, Tag>(Model{}, l, lager::with_reducer(Reducer{}));
    }();
    world.get = [&] { return store->trace; };
    auto dispatch = [&](Prog p) { return send(store, p); };
    bool dispatching = watcher_dispatches && run.flip();
    bool dispatched  = false;
    lager::watch(store, [&](const Model& m) {
        if (aspects & Reduction) {
            MC_CHECK(run, store->trace == m.trace, "a watcher got " << str(m.trace) << " while the store shows "
                                                           << str(store->trace));
            MC_CHECK(run, m.trace != (world.calls.empty() ? std::vector<int>{} : world.calls.back()),
                     "a watcher was called without a change");
        }
        world.calls.push_back(m.trace);
        if (dispatching && !dispatched) {
            dispatched = true;
            dispatch(Plain);
        }
    });

    struct Then
    {
        int id;
        int called = 0;
        int second = -1; // action dispatched by the callback
        int called2 = 0;
        bool chain = false;
    };
    std::vector<std::unique_ptr<Then>> thens;
    bool quiet = true; // nothing waits in the loop

    auto check = [&] {
        auto now = store->trace;
        if (aspects & Reduction) {
            // reduced in the order of dispatch
            MC_CHECK(run,
                     std::equal(world.reduced.begin(), world.reduced.end(), world.dispatched.begin()),
                     "actions were dispatched in the order " << str(world.dispatched)
                                                             << " and reduced in the order " << str(world.reduced));
            if (quiet) {
                MC_CHECK(run, world.reduced.size() == world.dispatched.size(),
                         "the event loop is idle but only " << str(world.reduced) << " of "
                                                            << str(world.dispatched) << " were reduced");
                if (automatic)
                    MC_CHECK(run, now == world.fold(),
                             "the store shows " << str(now) << " instead of " << str(world.fold()));
            }
            if (automatic)
                MC_CHECK(run, now == (world.calls.empty() ? std::vector<int>{} : world.calls.back()),
                         "the store shows " << str(now) << " but the watchers were not told");
            else
                MC_CHECK(run, now == world.committed,
                         "the store shows " << str(now) << " but " << str(world.committed) << " was committed");
            if (!automatic)
                MC_CHECK(run, world.calls.empty() || world.calls.back() == now,
                         "the watchers were told " << str(world.calls.back()) << " but the store shows " << str(now));
        }
        if (aspects & Effects) {
            std::vector<int> want;
            for (int id : world.reduced)
                if (World::has_effect(world.recs[id].prog))
                    want.push_back(id);
            MC_CHECK(run, std::equal(world.effect_order.begin(), world.effect_order.end(), want.begin()) &&
                              world.effect_order.size() <= want.size(),
                     "effects ran in the order " << str(world.effect_order) << " instead of " << str(want));
            if (quiet)
                MC_CHECK(run, world.effect_order == want,
                         "the event loop is idle but only the effects " << str(world.effect_order) << " of "
                                                                        << str(want) << " ran");
            // sequences go on as soon as they can
            if (quiet)
                for (size_t id = 0; id < world.recs.size(); ++id) {
                    auto& r = world.recs[id];
                    if (!r.effects || r.all_started || r.threw)
                        continue;
                    bool stuck = !r.ext || *r.ext;
                    if (HasFutures)
                        for (int a : r.awaits)
                            stuck = stuck && world.complete(a);
                    MC_CHECK(run, !stuck, "the sequence of effects of action " << id << " stopped half way");
                }
        }
        if (aspects & Futures)
            for (auto& t : thens) {
                MC_CHECK(run, t->called <= 1, "the callback of the future of action " << t->id << " ran twice");
                if (quiet && HasFutures && world.complete(t->id))
                    MC_CHECK(run, t->called == 1,
                             "the future of action " << t->id << " (" << names[world.recs[t->id].prog]
                                                     << ") was not resolved although everything completed");
                if (t->chain && t->called && quiet && world.complete(t->second))
                    MC_CHECK(run, t->called2 == 1, "the chained callback was not called");
            }
    };
    // runs an operation that may throw what the reducers and effects throw
    bool threw   = false;
    auto guarded = [&](auto&& fn) {
        threw = false;
        try {
            fn();
        } catch (Boom) {
            threw = true;
        }
    };
    auto has_throws = [&] {
        return std::find(progs.begin(), progs.end(), ThrowReduce) != progs.end();
    }();

    for (int d = 0; d < depth; ++d) {
        enum Op { Step, Commit, Fulfil, Disp, DispThen };
        std::vector<std::pair<Op, int>> ops;
        if (!LoopT::immediate && !quiet)
            ops.push_back({Step, 0});
        if (!automatic)
            ops.push_back({Commit, 0});
        for (size_t i = 0; i < world.promises.size(); ++i)
            if (!*world.promise_done[i])
                ops.push_back({Fulfil, int(i)});
        for (Prog p : progs)
            ops.push_back({Disp, p});
        if (aspects & Futures)
            for (Prog p : progs)
                for (int chain : {0, 1})
                    ops.push_back({DispThen, p * 2 + chain});
        auto [op, x] = ops[run.choose(int(ops.size()))];
        switch (op) {
        case Step:
            MC_LOG(run, "step");
            guarded([&] { loop.step(); });
            quiet = !threw;
            break;
        case Commit: {
            MC_LOG(run, "commit");
            auto n          = world.calls.size();
            auto before     = world.committed;
            world.committed = world.fold();
            lager::commit(store);
            bool changed = before != world.committed;
            if (aspects & Reduction)
                MC_CHECK(run, world.calls.size() - n == size_t(changed),
                         "commit() called the watcher " << world.calls.size() - n << " times");
            // (the watcher may have dispatched)
            if (!LoopT::immediate && dispatching && dispatched)
                quiet = quiet && world.reduced.size() == world.dispatched.size();
            break;
        }
        case Fulfil:
            MC_LOG(run, "fulfil promise " << x);
            *world.promise_done[x] = true;
            world.promises[x]();
            if (!LoopT::immediate)
                quiet = false;
            break;
        case Disp:
            MC_LOG(run, "dispatch " << world.recs.size() << " (" << names[x] << ")");
            guarded([&] { dispatch(Prog(x)); });
            quiet = LoopT::immediate && !threw;
            break;
        case DispThen: {
            MC_LOG(run, "dispatch " << world.recs.size() << " (" << names[x / 2] << ") and then"
                                    << (x % 2 ? " dispatch and then" : ""));
            thens.push_back(std::make_unique<Then>());
            auto t   = thens.back().get();
            t->id    = int(world.recs.size());
            t->chain = x % 2;
            auto f   = dispatch(Prog(x / 2));
            MC_CHECK(run, bool(f) == HasFutures, "dispatch() returned an unexpected kind of future");
            auto on = [&run, t, &world] {
                ++t->called;
                if (HasFutures)
                    MC_CHECK(run, world.complete(t->id),
                             "the future of action " << t->id << " (" << names[world.recs[t->id].prog]
                                                     << ") was resolved too early");
            };
            if (t->chain)
                std::move(f)
                    .then([on, t, &dispatch, &world] {
                        on();
                        t->second = int(world.recs.size());
                        return dispatch(std::is_same_v<Reducer, Pure> ? Plain : Fut);
                    })
                    .then([&run, t, &world] {
                        ++t->called2;
                        if (HasFutures)
                            MC_CHECK(run, world.complete(t->second),
                                     "a chained callback ran before the future it waits for was resolved");
                    });
            else
                std::move(f).then(on);
            if (!HasFutures && (aspects & Futures))
                MC_CHECK(run, t->called == 1, "the callback of an empty future was not called at once");
            quiet = LoopT::immediate;
            break;
        }
        }
        if (has_throws && threw && LoopT::immediate)
            quiet = false;
        check();
        run.step();
        mc::u64 h = mc::mix(quiet * 2 + automatic, world.promises.size());
        for (auto& r : world.recs)
            h = mc::mix(h, r.prog * 8 + r.reduced * 4 + (r.effects > 0) * 2 + r.all_started);
        for (auto& t : thens)
            h = mc::mix(h, t->id * 8 + t->called);
        run.state(h);
    }
    // let it come to rest
    for (int i = 0; i < 20 && !quiet; ++i) {
        guarded([&] {
            if (LoopT::immediate)
                dispatch(Plain);
            else
                loop.step();
        });
        quiet = !threw;
        check();
    }
    mc::u64 h = world.calls.size();
    for (int id : world.reduced)
        h = mc::mix(h, world.recs[id].prog);
    for (int id : world.effect_order)
        h = mc::mix(h, id);
    run.outcome(h);
}

const std::vector<Prog> all    = {Plain, Void, VoidDispatch, Fut, Seq2, NoChange, FutChain, Seq3,
                               Post, Also, Ext, Empty, Noop, SeqExt};
const std::vector<Prog> some   = {Plain, VoidDispatch, Fut, Seq2, NoChange, Ext, SeqExt};
const std::vector<Prog> values = {Plain, NoChange, VoidDispatch, Post, Empty};
const std::vector<Prog> waits  = {Plain, Void, Fut, Seq2, Seq3, Also, Ext, SeqExt};
const std::vector<Prog> throws = {Plain, ThrowReduce, ThrowEffect, VoidDispatch, NoChange};

using automatic     = lager::automatic_tag;
using transactional = lager::transactional_tag;

} // namespace

// ---- C10
MC_SCENARIO(c10_pure_automatic, 3) { history<Pure, automatic, false>(run, Reduction, {Plain, NoChange}, run.bound(10, 12)); }
MC_SCENARIO(c10_pure_transactional, 3) { history<Pure, transactional, false>(run, Reduction, {Plain, NoChange}, run.bound(9, 11)); }
MC_SCENARIO(c10_default_tag, 3) { history<Resulted, void, false>(run, Reduction, values, run.bound(7, 8)); }
MC_SCENARIO(c10_automatic, 3) { history<Resulted, automatic, true>(run, Reduction, some, run.bound(6, 7)); }
MC_SCENARIO(c10_transactional, 3) { history<Resulted, transactional, true>(run, Reduction, some, run.bound(6, 7)); }
MC_SCENARIO(c10_pairs, 3) { history<Paired, automatic, false>(run, Reduction, values, run.bound(7, 8)); }
MC_SCENARIO(c10_exceptions_automatic, 3) { history<Resulted, automatic, false>(run, Reduction, throws, run.bound(7, 8)); }
MC_SCENARIO(c10_exceptions_transactional, 3) { history<Resulted, transactional, false>(run, Reduction, throws, run.bound(6, 7)); }
// ---- C11
MC_SCENARIO(c11_default_tag, 3) { history<Resulted, void, false>(run, Effects, all, run.bound(5, 6)); }
MC_SCENARIO(c11_automatic, 3) { history<Resulted, automatic, true>(run, Effects, all, run.bound(5, 6)); }
MC_SCENARIO(c11_transactional, 3) { history<Resulted, transactional, true>(run, Effects, all, run.bound(5, 6)); }
MC_SCENARIO(c11_deps, 3) { history<WithDeps, automatic, true>(run, Effects, some, run.bound(5, 6)); }
MC_SCENARIO(c11_deps_no_futures, 3) { history<WithDeps, transactional, false>(run, Effects, some, run.bound(5, 6)); }
MC_SCENARIO(c11_pairs, 3) { history<Paired, void, true>(run, Effects, some, run.bound(5, 6)); }
MC_SCENARIO(c11_exceptions, 3) { history<Resulted, automatic, false>(run, Effects, throws, run.bound(6, 7)); }
// ---- C12
MC_SCENARIO(c12_default_tag, 3) { history<Resulted, void, true>(run, Futures, waits, run.bound(4, 5), false); }
MC_SCENARIO(c12_automatic, 3) { history<Resulted, automatic, true>(run, Futures, waits, run.bound(4, 5)); }
MC_SCENARIO(c12_transactional, 3) { history<Resulted, transactional, true>(run, Futures, waits, run.bound(4, 5)); }
MC_SCENARIO(c12_deps, 3) { history<WithDeps, automatic, true>(run, Futures, waits, run.bound(4, 5), false); }
MC_SCENARIO(c12_pure, 3) { history<Pure, automatic, true>(run, Futures, {Plain, NoChange}, run.bound(6, 7)); }
MC_SCENARIO(c12_no_futures, 3) { history<Paired, automatic, false>(run, Futures, waits, run.bound(4, 4), false); }
