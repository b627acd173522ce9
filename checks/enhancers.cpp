// C23: stores made with several enhancers, in every order that makes sense.
// Histories of actions and thunks; the reference knows what each enhancer
// contributes.
// PART selects the combinations.
#include "../engine/mc.hpp"
#include "value.hpp"

#include <lager/commit.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/store.hpp>

#include <algorithm>
#include <deque>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>

#ifndef PART
#define PART 1
#endif

namespace {

enum Prog { Plain, Void, Fut, Same, NProgs };
const char* prog_names[] = {"plain", "with an effect that dispatches",
                            "with an effect that returns the future of a dispatch", "without a change"};
enum ThunkProg { TVoid, TDispatch, TFut, TEmpty, TEffect, NThunks };
const char* thunk_names[] = {"nothing", "dispatch", "dispatch and return the future", "(empty)",
                             "(an effect object) dispatch"};

struct Action
{
    mc::num id;
    Prog prog;
};
struct Model
{
    std::vector<int> trace;
    bool operator==(const Model& o) const { return trace == o.trace; }
    bool operator!=(const Model& o) const { return !(*this == o); }
};

std::string str(const std::vector<int>& v)
{
    std::string s = "[";
    for (int x : v)
        s += (s.size() > 1 ? " " : "") + std::to_string(x);
    return s + "]";
}

struct World
{
    int next = 0;
    std::vector<int> log; // effects and thunks that ran, and what they saw
    std::set<int> reduced; // actions that were reduced
    std::set<int> acted;   // effects and thunks that ran
    std::function<bool(int)> shows; // whether the store shows that action
    std::set<int> early;   // dispatches that were finished before their work
    void finish(int id, bool reduces, bool acts, bool waits)
    {
        if ((reduces && !reduced.count(id)) || (acts && !acted.count(id)) ||
            (waits && !(reduced.count(id + 100) && shows(id + 100))))
            early.insert(id);
    }
    Action fresh(Prog p) { return {++next, p}; }
};
World* w;

Model step(Model m, const Action& a, int which)
{
    w->reduced.insert(a.id);
    if (a.prog != Same)
        m.trace.push_back(a.id + which);
    return m;
}
// the default reducer
Model update(Model m, Action a) { return step(std::move(m), a, 0); }

constexpr int child_offset = 100; // (see also World::finish)

// what the effect of an action or a thunk does
template <typename Ctx>
lager::future act(Ctx& ctx, int id, int dep, bool dispatch, bool wait)
{
    w->log.push_back(id);
    w->log.push_back(dep);
    w->acted.insert(id);
    if (!dispatch)
        return {};
    auto f = ctx.dispatch(Action{id + child_offset, Plain});
    return wait ? std::move(f) : lager::future{};
}

struct PureReducer
{
    Model operator()(Model m, Action a) const { return step(std::move(m), a, 1000); }
};
template <typename Deps>
struct EffectReducer
{
    using result = lager::result<Model, Action, Deps>;
    result operator()(Model m, Action a) const
    {
        int id = a.id;
        auto n = step(std::move(m), a, 2000);
        if (a.prog != Void && a.prog != Fut)
            return n;
        bool wait = a.prog == Fut;
        return {n, lager::effect<Action, Deps>{[=](const lager::context<Action, Deps>& ctx) -> lager::future {
                    int dep = 0;
                    if constexpr (!std::is_same_v<Deps, lager::deps<>>)
                        dep = lager::get<int>(ctx);
                    return act(ctx, id, dep, true, wait);
                }}};
    }
};

enum Enh {
    Rp, // with_reducer(pure)
    Re, // with_reducer(with effects)
    Rd, // with_reducer(with effects that need an int)
    D1, // with_deps(1)
    D2, // with_deps(2, string)
    F,  // with_futures
    T,  // with_tags<transactional_tag>
    K,  // with_thunk()
};
const char* enh_names[] = {"reducer(pure)", "reducer(effects)", "reducer(effects with deps)",
                           "deps(1)", "deps(2,string)", "futures", "tags<transactional>", "thunk"};

template <Enh E>
auto enhancer()
{
    if constexpr (E == Rp)
        return lager::with_reducer(PureReducer{});
    else if constexpr (E == Re)
        return lager::with_reducer(EffectReducer<lager::deps<>>{});
    else if constexpr (E == Rd)
        return lager::with_reducer(EffectReducer<lager::deps<int>>{});
    else if constexpr (E == D1)
        return lager::with_deps(1);
    else if constexpr (E == D2)
        return lager::with_deps(2, std::string{"two"});
    else if constexpr (E == F)
        return lager::with_futures;
    else if constexpr (E == T)
        return lager::with_tags<lager::transactional_tag>;
    else
        return lager::with_thunk();
}

template <bool Queue, Enh... Es>
void drive(mc::Run& run, int depth)
{
    constexpr int n      = sizeof...(Es);
    constexpr Enh es[]   = {Es..., F}; // (never empty)
    constexpr auto count = [](std::initializer_list<Enh> which) {
        constexpr Enh es[] = {Es..., F};
        int r              = 0;
        for (int i = 0; i < n; ++i)
            for (auto x : which)
                r += es[i] == x;
        return r;
    };
    constexpr bool futures       = count({F}) > 0;
    constexpr bool transactional = count({T}) > 0;
    constexpr bool thunks        = count({K}) > 0;
    constexpr bool has_int       = count({D1, D2}) > 0;
    constexpr bool has_string    = count({D2}) > 0;
    constexpr auto last          = [](std::initializer_list<Enh> which, int before) {
        constexpr Enh es[] = {Es..., F};
        int r              = -1;
        for (int i = 0; i < before; ++i)
            for (auto x : which)
                if (es[i] == x)
                    r = i;
        return r;
    };
    // the last reducer is the one
    constexpr int reducer  = last({Rp, Re, Rd}, n);
    constexpr int mark     = reducer < 0 ? 0 : es[reducer] == Rp ? 1000 : 2000;
    constexpr bool effects = mark == 2000;
    // and so is the last of two values
    constexpr int dep_at      = last({D1, D2}, n);
    constexpr int dep         = dep_at < 0 ? 0 : es[dep_at] == D1 ? 1 : 2;
    constexpr int effect_dep  = reducer >= 0 && es[reducer] == Rd ? dep : 0;
    constexpr bool thunk_deps = [&] { // the thunks see those before with_thunk
        int k = last({K}, n);
        return k >= 0 && last({D1, D2}, k) >= 0;
    }();
    {
        std::string s;
        for (int i = 0; i < n; ++i)
            s += std::string(i ? ", " : "") + enh_names[es[i]];
        MC_LOG(run, "store with " << s << (Queue ? " on a queue" : ""));
    }

    World world;
    w = &world;
    lager::queue_event_loop q;
    auto make = [&](auto&& loop) {
        return lager::make_store<Action>(Model{{-1}}, std::move(loop), enhancer<Es>()...);
    };
    auto store = [&] {
        if constexpr (Queue)
            return make(lager::with_queue_event_loop{q});
        else
            return make(lager::with_manual_event_loop{});
    }();
    world.shows = [&](int id) {
        auto trace = store->trace;
        return transactional || std::count_if(trace.begin(), trace.end(), [&](int x) {
                                    return x % 1000 == id;
                                });
    };
    std::vector<Model> seen;
    store.watch([&](const Model& m) { seen.push_back(m); });
    std::multiset<int> done;

    // ---- reference
    Model r{{-1}}, visible{{-1}};
    std::vector<int> log;
    std::multiset<int> want_done, want_done_ever;
    std::deque<std::function<void()>> jobs;
    std::vector<Model> changes;
    auto propagate = [&] {
        if (visible != r) {
            visible = r;
            changes.push_back(r);
        }
    };
    std::function<void(Action, std::function<void()>)> ref_dispatch =
        [&](Action a, std::function<void()> then) {
            jobs.push_back([&, a, then] {
                r              = step(r, a, mark);
                bool effectful = effects && (a.prog == Void || a.prog == Fut);
                jobs.push_back([&, a, then, effectful] {
                    if (!transactional)
                        propagate();
                    if (effectful) {
                        log.push_back(a.id);
                        log.push_back(effect_dep);
                        bool wait = a.prog == Fut;
                        ref_dispatch({a.id + child_offset, Plain}, wait ? then : std::function<void()>{});
                        if (wait)
                            return;
                    }
                    if (then)
                        then();
                });
            });
        };
    auto ref_thunk = [&](int id, ThunkProg p, std::function<void()> then) {
        jobs.push_back([&, id, p, then] {
            jobs.push_back([&, id, p, then] {
                if (!transactional)
                    propagate();
                if (p != TEmpty) {
                    log.push_back(id);
                    log.push_back(thunk_deps ? dep : 0);
                }
                if (p == TDispatch || p == TFut || p == TEffect) {
                    bool wait = p != TDispatch;
                    ref_dispatch({id + child_offset, Plain}, wait ? then : std::function<void()>{});
                    if (wait)
                        return;
                }
                then();
            });
        });
    };
    auto settle = [&] {
        while (!jobs.empty()) {
            auto j = std::move(jobs.front());
            jobs.pop_front();
            j();
        }
    };
    auto check = [&] {
        MC_CHECK(run, store.get() == visible,
                 "the store shows " << str(store->trace) << " instead of " << str(visible.trace));
        MC_CHECK(run, w->log == log,
                 "the effects were " << str(w->log) << " (actions and dependencies) instead of " << str(log));
        if (futures)
            MC_CHECK(run, done == want_done,
                     done.size() << " dispatches are finished instead of " << want_done.size());
        if (futures)
            MC_CHECK(run, w->early.empty(),
                     "dispatch " << *w->early.begin() << " was finished before its work was done");
        // the watcher sees the models in order and in the end the last one
        // (whether it sees intermediate ones depends on the loop)
        std::size_t at = 0;
        for (auto& m : seen) {
            while (at < changes.size() && changes[at] != m)
                ++at;
            MC_CHECK(run, at++ < changes.size(), "the watcher was called with " << str(m.trace) << " out of order");
        }
        MC_CHECK(run, seen.empty() == changes.empty() && (seen.empty() || seen.back() == visible),
                 "the watcher was not called with the last model");
        if constexpr (has_int) {
            lager::context<Action, lager::deps<int>> c = store;
            MC_CHECK(run, lager::get<int>(store) == dep && lager::get<int>(c) == dep,
                     "the int dependency is " << lager::get<int>(store) << " instead of " << dep);
        }
        if constexpr (has_string)
            MC_CHECK(run, lager::get<std::string>(store) == "two", "the string dependency is wrong");
    };
    check();
    std::function<void()> noted;
    for (int i = 0; i < depth; ++i) {
        int c = run.choose(NProgs + (thunks ? NThunks : 0) + (transactional || Queue));
        run.step();
        int id   = w->next + 1;
        auto end = [&, id] { want_done.insert(id); };
        if (c < NProgs) {
            MC_LOG(run, "dispatch an action " << prog_names[c]);
            auto a = w->fresh(Prog(c));
            bool effectful = effects && (a.prog == Void || a.prog == Fut);
            store.dispatch(a).then([&done, id, effectful, waits = effectful && a.prog == Fut] {
                done.insert(id);
                w->finish(id, true, effectful, waits);
            });
            ref_dispatch(a, end);
        } else if (thunks && c < NProgs + NThunks) {
            auto p = ThunkProg(c - NProgs);
            MC_LOG(run, "dispatch a thunk: " << thunk_names[p]);
            if constexpr (thunks) {
                ++w->next;
                using ctx_t =
                    std::conditional_t<thunk_deps, lager::context<Action, lager::deps<int>>, lager::context<Action>>;
                auto seen_dep = [](const ctx_t& ctx) {
                    if constexpr (thunk_deps)
                        return lager::get<int>(ctx);
                    else
                        return (void) ctx, 0;
                };
                auto dispatch = [&](auto&& t) {
                    store.dispatch(LAGER_FWD(t)).then([&done, id, p] {
                        done.insert(id);
                        w->finish(id, false, p != TEmpty, p == TFut || p == TEffect);
                    });
                };
                using effect_t =
                    std::conditional_t<thunk_deps, lager::effect<Action, lager::deps<int>>, lager::effect<Action>>;
                switch (p) {
                case TVoid: dispatch([=](ctx_t ctx) { act(ctx, id, seen_dep(ctx), false, false); }); break;
                case TDispatch: dispatch([=](ctx_t ctx) { act(ctx, id, seen_dep(ctx), true, false); }); break;
                case TFut:
                    dispatch([=](ctx_t ctx) -> lager::future { return act(ctx, id, seen_dep(ctx), true, true); });
                    break;
                case TEmpty: dispatch(effect_t{}); break;
                default:
                    dispatch(effect_t{[=](const ctx_t& ctx) -> lager::future {
                        return act(ctx, id, seen_dep(ctx), true, true);
                    }});
                }
            }
            ref_thunk(id, p, end);
        } else {
            if (Queue) {
                MC_LOG(run, "run the event loop" << (transactional ? ", commit" : ""));
                q.step();
                settle();
            } else
                MC_LOG(run, "commit");
            if (transactional) {
                lager::commit(store);
                propagate();
                check();
            }
        }
        if (!Queue) {
            settle();
            check();
        } else if (jobs.empty())
            check();
        mc::u64 h = mc::mix(mc::hash_str(str(r.trace)), jobs.size());
        run.state(mc::mix(h, mc::hash_str(str(log))));
    }
    if (Queue) {
        q.step();
        settle();
    }
    check();
    run.outcome(mc::hash_str(str(log)));
}

using Drive = void (*)(mc::Run&, int);
#define S(...) &drive<false, __VA_ARGS__>
#define Q(...) &drive<true, __VA_ARGS__>

const Drive all[] = {
#if PART == 1 // order of reducers, dependencies, futures
    S(Rp), S(Re), Q(Re, F), S(Rp, Re), S(Re, Rp), S(D1, D2), S(D2, D1),
    S(Rd, D1, F), S(F, D1, Rd), S(D2, D1, Rd), Q(D1, Rd, D2),
#elif PART == 2 // tags
    S(T), S(T, Re, F), S(F, Re, T), S(Re, T, D2), Q(Rd, D1, T, F), S(T, K), S(Re, K, T), Q(K, F, T), S(F, Re, F), S(T, Re, T),
#elif PART == 3 // thunks
    S(K), S(Rp, K), S(Re, K), Q(Re, K, F), S(F, Re, K), S(K, F),
#else // thunks and dependencies
    S(D1, K), S(K, D2), S(D1, K, D2), S(Rd, D1, F, K), S(Re, K, D2, F), Q(F, D1, Rd, K),
#endif
};

} // namespace

MC_SCENARIO(enhancers, 2)
{
    constexpr int n = sizeof(all) / sizeof(*all);
    all[run.choose(n)](run, run.bound(6, 7));
}
