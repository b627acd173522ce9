// C18: the time travelling debugger.  Histories of actions and debugger
// actions against stores with one or two debuggers; the reference is a generic
// specification of a debugger, which can debug itself.
// PART selects the store.
#include "debugger.hpp"

#include <lager/debug/debugger.hpp>

namespace {

enum Kind { Act, Goto, Undo, Redo, Pause, Resume };

template <typename B>
struct Dbg
{
    struct A
    {
        Kind kind;
        typename B::A action{};
        std::size_t cursor = 0;
    };
    struct M
    {
        typename B::M init{};
        std::vector<std::pair<typename B::A, typename B::M>> history{};
        std::size_t cursor = 0;
        bool paused        = false;
        std::vector<typename B::A> pending{};
        const typename B::M& shown() const { return cursor ? history[cursor - 1].second : init; }
    };
    static void apply(M& m, const typename B::A& a)
    {
        auto next = B::reduce(m.shown(), a);
        m.history.resize(m.cursor);
        m.history.push_back({a, next});
        ++m.cursor;
    }
    static M reduce(M m, const A& a)
    {
        switch (a.kind) {
        case Act:
            if (m.paused)
                m.pending.push_back(a.action);
            else
                apply(m, a.action);
            break;
        case Goto:
            if (a.cursor <= m.history.size())
                m.cursor = a.cursor;
            break;
        case Undo:
            if (m.cursor)
                --m.cursor;
            break;
        case Redo:
            if (m.cursor < m.history.size())
                ++m.cursor;
            break;
        case Pause:
            m.paused = true;
            ++expect->pauses;
            break;
        case Resume: {
            m.paused = false;
            ++expect->resumes;
            auto pending = m.pending;
            m.pending.clear();
            auto before = expect->effects.size();
            for (auto& p : pending)
                apply(m, p);
            expect->together.push_back(
                {expect->effects.begin() + std::ptrdiff_t(before), expect->effects.end()});
            break;
        }
        }
        return m;
    }
};

template <typename M>
mc::u64 hash(const M& m)
{
    auto h = mc::mix(m.cursor * 2 + m.paused, hash(m.init));
    for (auto& s : m.history)
        h = mc::mix(h, hash(s.second));
    return mc::mix(h, m.pending.size());
}

// --- comparison of a debugger with the reference ------------------------------

void compare(const Model& a, const Model& b, const char* what)
{
    MC_CHECK(w->run, a == b, what << ": " << str(a.trace) << " instead of " << str(b.trace));
}
void compare_action(const Action& a, const Action& b)
{
    MC_CHECK(w->run, a == b, "the history has action " << a.id << " instead of " << b.id);
}
template <typename B>
struct Compare;

template <>
struct Compare<Base>
{
    static void model(const Model& a, const Model& b, const char* what) { compare(a, b, what); }
    static void action(const Action& a, const Action& b) { compare_action(a, b); }
};

template <typename B>
struct Compare<Dbg<B>>
{
    using R = Dbg<B>;
    template <typename A>
    static void action(const A& a, const typename R::A& b)
    {
        MC_CHECK(w->run, int(a.index()) == int(b.kind),
                 "the history has a debugger action of kind " << a.index() << " instead of " << b.kind);
        if (b.kind == Kind::Act)
            Compare<B>::action(std::get<0>(a), b.action);
        if (b.kind == Kind::Goto)
            MC_CHECK(w->run, std::get<1>(a).cursor == b.cursor, "the history has a wrong goto");
    }
    template <typename M>
    static void model(const M& a, const typename R::M& b, const char*)
    {
        auto& run = w->run;
        MC_CHECK(run, a.cursor == b.cursor,
                 "the debugger is at " << a.cursor << " instead of " << b.cursor);
        MC_CHECK(run, a.paused == b.paused,
                 "the debugger is " << (a.paused ? "" : "not ") << "paused");
        MC_CHECK(run, a.summary() == b.history.size(),
                 "the debugger has " << a.summary() << " steps instead of " << b.history.size());
        MC_CHECK(run, a.pending.size() == b.pending.size(),
                 a.pending.size() << " actions are pending instead of " << b.pending.size());
        for (std::size_t i = 0; i < b.pending.size(); ++i)
            Compare<B>::action(a.pending[i], b.pending[i]);
        auto&& zero = a.lookup(0);
        MC_CHECK(run, !zero.first, "the initial step has an action");
        Compare<B>::model(zero.second, b.init, "initial model");
        for (std::size_t i = 1; i <= b.history.size(); ++i) {
            auto&& s = a.lookup(i);
            MC_CHECK(run, s.first, "step " << i << " has no action");
            Compare<B>::action(*s.first, b.history[i - 1].first);
            Compare<B>::model(s.second, b.history[i - 1].second, "step");
        }
        for (std::size_t i : {b.history.size() + 1, std::size_t(-1)}) {
            bool threw = false;
            try {
                a.lookup(i);
            } catch (const std::runtime_error&) {
                threw = true;
            }
            MC_CHECK(run, threw, "looking up step " << i << " did not fail");
        }
        using inner = std::decay_t<decltype(a.init)>;
        Compare<B>::model(static_cast<const inner&>(a), b.shown(), "shown model");
    }
};

template <typename Ref, typename Store>
struct Driver
{
    mc::Run& run;
    Store store;
    typename Ref::M ref;
    typename Ref::M committed;
    std::vector<typename Ref::A> sent; // dispatched and not reduced yet
    Expect exp;
    bool transactional;
    bool overtake = false;

    void fold()
    {
        expect = &exp;
        for (auto& a : sent)
            ref = Ref::reduce(ref, a);
        sent.clear();
        if (!transactional)
            committed = ref;
    }
    void check()
    {
        auto& r = store.get();
        Compare<Ref>::model(r, committed, "model");
        MC_CHECK(run, w->calls.size() == exp.calls.size(),
                 "the reducer was called " << w->calls.size() << " times instead of "
                                           << exp.calls.size());
        for (std::size_t i = 0; i < exp.calls.size(); ++i)
            MC_CHECK(run, w->calls[i] == exp.calls[i],
                     "the reducer received action " << w->calls[i].action.id << " and "
                                                    << str(w->calls[i].input) << " instead of action "
                                                    << exp.calls[i].action.id << " and "
                                                    << str(exp.calls[i].input));
        // the effects that a resume runs may wait for the futures of the ones before them, so
        // with futures, others may run in between
        auto sorted = [&](auto v) {
            if (overtake)
                std::sort(v.begin(), v.end());
            return v;
        };
        MC_CHECK(run, sorted(w->effects) == sorted(exp.effects),
                 "effects " << str(w->effects) << " ran instead of " << str(exp.effects));
        for (auto& group : exp.together) {
            std::vector<int> ran;
            std::copy_if(w->effects.begin(), w->effects.end(), std::back_inserter(ran), [&](int id) {
                return std::count(group.begin(), group.end(), id);
            });
            MC_CHECK(run, ran == group,
                     "resuming ran the effects " << str(ran) << " instead of " << str(group));
        }
        MC_CHECK(run, w->pauses == exp.pauses && w->resumes == exp.resumes,
                 "the event loop was paused " << w->pauses << " and resumed " << w->resumes
                                              << " times instead of " << exp.pauses << " and "
                                              << exp.resumes);
        run.state(mc::mix(hash(ref), w->calls.size()));
    }
};

template <typename Ref, int Level>
struct Wrap; // the reference action for an action of the application

template <>
struct Wrap<Base, 0>
{
    static Action go(Action a) { return a; }
};
template <typename B, int L>
struct Wrap<Dbg<B>, L>
{
    static typename Dbg<B>::A go(Action a) { return {Act, Wrap<B, L - 1>::go(a)}; }
};

// one debugger operation; level 0 is the inner debugger
template <typename R>
typename R::A choose_debugger_op(mc::Run& run, std::size_t history, int k)
{
    // 0 undo, 1 redo, 2 pause, 3 resume, 4.. goto
    switch (k) {
    case 0: return {Undo};
    case 1: return {Redo};
    case 2: return {Pause};
    case 3: return {Resume};
    case 4: {
        int n = int(history) + 2;
        int c = run.choose(n + 1);
        return {Goto, {}, c == n ? std::size_t(-1) : std::size_t(c)};
    }
    }
    std::abort();
}

const char* op_names[] = {"undo", "redo", "pause", "resume", "goto"};

template <typename D, typename RefAct>
typename D::action to_real(const RefAct& a)
{
    switch (a.kind) {
    case Goto: return typename D::goto_action{a.cursor};
    case Undo: return typename D::undo_action{};
    case Redo: return typename D::redo_action{};
    case Pause: return typename D::pause_action{};
    case Resume: return typename D::resume_action{};
    default: std::abort();
    }
}

#ifndef PART
#define PART 1
#endif

enum Flags { Queued = 1, Transactional = 2, WithEffects = 4, Futures = 8 };

// one debugger
template <typename MakeStore>
void single(mc::Run& run, MakeStore&& make, int flags, int depth)
{
    World world{run};
    w = &world;
    w->sent = [](Action) {};
    Server server;
    auto store    = make(server);
    using store_t = decltype(store);
    using D       = lager::debugger<Action, Model, typename std::decay_t<decltype(make.deps)>>;
    using R       = Dbg<Base>;
    MC_CHECK(run, server.makes == 1, "the server made " << server.makes << " handles");
    auto* handle = static_cast<Handle<D>*>(server.handle.get());
    MC_CHECK(run, handle->inits == 1, "the handle was initialized " << handle->inits << " times");
    Driver<R, store_t> d{run, std::move(store)};
    d.transactional = flags & Transactional;
    d.overtake      = flags & Futures;
    d.ref.init      = Model{{-1}};
    d.committed     = d.ref;
    w->sent         = [&](Action a) { d.sent.push_back({Act, a}); };
    int notified    = 0;
    auto last       = std::vector<int>{-1};
    // the application watches what the debugger shows
    auto shown = d.store.xform(zug::map([](const typename D::model& m) -> Model { return m; })).make();
    lager::watch(shown, [&](const Model& m) {
        ++notified;
        MC_CHECK(run, m.trace != last, "watchers notified about an unchanged model");
        last = m.trace;
    });
    d.check();
    auto settle = [&] {
        w->first_of_drain.clear();
        w->drain();
        d.fold();
        d.check();
        Compare<R>::model(handle->data.get(), d.committed, "server");
        MC_CHECK(run, last == d.committed.shown().trace,
                 "watchers were last told about " << str(last) << " instead of "
                                                  << str(d.committed.shown().trace));
    };
    int used_progs = flags & WithEffects ? (flags & Queued ? int(Throw) : int(NProgs)) : int(Void);
    for (int i = 0; i < depth; ++i) {
        int n_other = (flags & Queued ? 1 : 0) + (flags & Transactional ? 1 : 0);
        int c       = run.choose(used_progs + 5 + n_other);
        run.step();
        bool resume = false;
        if (c < used_progs) {
            MC_LOG(run, "dispatch action " << w->progs.size() << ", " << names[c]);
            if (Prog(c) == Throw) {
                // a throwing reducer leaves the debugger as it was
                w->progs.push_back(Throw);
                auto a     = Action{int(w->progs.size()) - 1, Throw};
                bool threw = false;
                if (d.ref.paused)
                    run.prune(); // it would throw on resume
                d.store.dispatch(a);
                try {
                    w->drain();
                } catch (const Boom&) {
                    threw = true;
                }
                MC_CHECK(run, threw, "the exception of the reducer was swallowed");
            } else if (w->progs.size() % 2)
                handle->ctx.dispatch(w->fresh(Prog(c)));
            else
                d.store.dispatch(w->fresh(Prog(c)));
        } else if (c < used_progs + 5) {
            auto a = choose_debugger_op<R>(run, d.ref.history.size(), c - used_progs);
            MC_LOG(run, op_names[c - used_progs] << " " << a.cursor);
            d.sent.push_back(a);
            resume = a.kind == Resume;
            if (i % 2)
                handle->ctx.dispatch(to_real<D>(a));
            else
                d.store.dispatch(to_real<D>(a));
        } else if (c == used_progs + 5 && flags & Transactional) {
            MC_LOG(run, "commit");
            if (flags & Queued && d.sent.size())
                settle();
            lager::commit(d.store);
            d.committed = d.ref;
            settle();
            continue;
        } else {
            if (d.sent.empty())
                run.prune();
            MC_LOG(run, "run the event loop");
            settle();
            continue;
        }
        if (!(flags & Queued)) {
            settle();
            if (resume)
                MC_CHECK(run, w->first_of_drain.size() && w->first_of_drain[0] == 'R',
                         "the effects of the pending actions ran before the event loop was resumed");
            else
                MC_CHECK(run, std::count(w->first_of_drain.begin(), w->first_of_drain.end(), 'R') == 0,
                         "the event loop was resumed");
        }
    }
    settle();
    if (d.transactional) {
        lager::commit(d.store);
        d.committed = d.ref;
        settle();
    }
    // once resumed, nothing stays pending
    d.sent.push_back({Resume});
    d.store.dispatch(typename D::resume_action{});
    settle();
    if (d.transactional) {
        lager::commit(d.store);
        d.committed = d.ref;
        settle();
    }
    for (std::size_t i = 0; i < w->effects.size(); ++i)
        run.outcome(mc::mix(i, w->effects[i]));
    // the handle refers to the store, which owns the handle
    handle->ctx  = {};
    handle->data = {};
}

#if PART == 1
struct MakeAutomatic
{
    lager::deps<> deps;
    auto operator()(Server& s) const
    {
        return lager::make_store<Action, lager::automatic_tag>(
            Model{{-1}}, Loop{}, lager::with_reducer(Paired{}), lager::with_debugger(s));
    }
};
MC_SCENARIO(automatic, 3) { single(run, MakeAutomatic{}, WithEffects, run.bound(5, 6)); }
MC_SCENARIO(automatic_queued, 3)
{
    single(run, MakeAutomatic{}, WithEffects | Queued, run.bound(5, 6));
}
#elif PART == 2
struct MakeTransactional
{
    lager::deps<> deps;
    auto operator()(Server& s) const
    {
        return lager::make_store<Action, lager::transactional_tag>(
            Model{{-1}}, Loop{}, lager::with_reducer(Paired{}), lager::with_debugger(s));
    }
};
struct MakePure
{
    lager::deps<> deps;
    auto operator()(Server& s) const
    {
        return lager::make_store<Action, lager::automatic_tag>(
            Model{{-1}}, Loop{}, lager::with_reducer(Pure{}), lager::with_debugger(s));
    }
};
MC_SCENARIO(transactional, 3)
{
    single(run, MakeTransactional{}, WithEffects | Transactional, run.bound(5, 6));
}
MC_SCENARIO(pure, 3) { single(run, MakePure{}, 0, run.bound(6, 7)); }
#elif PART == 3
struct MakeDeps
{
    lager::deps<lager::dep::val<int>> deps;
    auto operator()(Server& s) const
    {
        return lager::make_store<Action, lager::automatic_tag>(
            Model{{-1}}, Loop{}, lager::with_deps(42), lager::with_futures,
            lager::with_reducer(WithResult{}), lager::with_debugger(s));
    }
};
MC_SCENARIO(deps_futures, 3) { single(run, MakeDeps{}, WithEffects | Futures, run.bound(5, 6)); }
#elif PART == 4
// a debugger that debugs a debugger
MC_SCENARIO(meta, 3)
{
    World world{run};
    w = &world;
    w->sent = [](Action) {};
    Server inner_server, meta_server;
    auto store = lager::make_store<Action, lager::automatic_tag>(
        Model{{-1}}, Loop{}, lager::with_reducer(Paired{}), lager::with_debugger(inner_server),
        lager::with_debugger(meta_server));
    using D1      = lager::debugger<Action, Model, lager::deps<>>;
    using H1      = std::shared_ptr<Handle<D1>>;
    using D2      = lager::debugger<typename D1::action, typename D1::model, lager::deps<H1>>;
    using R1      = Dbg<Base>;
    using R2      = Dbg<R1>;
    using store_t = decltype(store);
    MC_CHECK(run, inner_server.makes == 1 && meta_server.makes == 1, "handles");
    auto* h1 = static_cast<Handle<D1>*>(inner_server.handle.get());
    auto* h2 = static_cast<Handle<D2>*>(meta_server.handle.get());
    MC_CHECK(run, h1->inits == 1 && h2->inits == 1, "the handles were initialized " << h1->inits << ", " << h2->inits);
    Driver<R2, store_t> d{run, std::move(store)};
    d.transactional  = false;
    d.ref.init.init  = Model{{-1}};
    d.committed      = d.ref;
    w->sent          = [&](Action a) { d.sent.push_back({Act, {Act, a}}); };
    d.check();
    auto settle = [&] {
        w->drain();
        d.fold();
        d.check();
        Compare<R2>::model(h2->data.get(), d.committed, "meta server");
        Compare<R1>::model(h1->data.get(), d.committed.shown(), "server");
        auto& m = unwrap(d.store.get());
        compare(m, d.committed.shown().shown(), "unwrapped");
    };
    static const Prog progs[] = {Plain, Void, Nested};
    int depth                 = run.bound(4, 5);
    for (int i = 0; i < depth; ++i) {
        int c = run.choose(3 + 5 + 5);
        run.step();
        if (c < 3) {
            MC_LOG(run, "dispatch action " << w->progs.size() << ", " << names[progs[c]]);
            if (i % 2)
                h1->ctx.dispatch(w->fresh(progs[c]));
            else
                d.store.dispatch(w->fresh(progs[c]));
        } else if (c < 8) {
            auto a = choose_debugger_op<R1>(run, d.ref.shown().history.size(), c - 3);
            MC_LOG(run, op_names[c - 3] << " " << a.cursor);
            d.sent.push_back({Act, a});
            h1->ctx.dispatch(to_real<D1>(a));
        } else {
            auto a = choose_debugger_op<R2>(run, d.ref.history.size(), c - 8);
            MC_LOG(run, "meta " << op_names[c - 8] << " " << a.cursor);
            d.sent.push_back(a);
            h2->ctx.dispatch(to_real<D2>(a));
        }
        settle();
    }
    h1->ctx  = {};
    h1->data = {};
    h2->ctx  = {};
    h2->data = {};
}
#endif

} // namespace

