// debugger.hpp - the application, the event loop and the server that the
// checks of the debuggers (C18, C19) use.
#pragma once

#include "../engine/mc.hpp"

#include <cassert>

#include <lager/commit.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <algorithm>
#include <deque>
#include <memory>
#include <optional>
#include <vector>

namespace {

enum Prog {
    Plain,
    NoChange, // the model stays the same
    Void,     // an effect that dispatches nothing
    Nested,   // an effect that dispatches
    Fut,      // an effect that returns the future of a dispatch
    Throw,    // the reducer throws
    NProgs
};
const char* names[] = {"plain", "nochange", "effect", "dispatching effect", "future", "throwing"};

struct Boom
{};

struct Action
{
    int id;
    Prog prog;
    bool operator==(const Action& o) const { return id == o.id && prog == o.prog; }
};
struct Model
{
    std::vector<int> trace;
    bool operator==(const Model& o) const { return trace == o.trace; }
};

std::string str(const std::vector<int>& v)
{
    std::string s = "[";
    for (int x : v)
        s += (s.size() > 1 ? " " : "") + std::to_string(x);
    return s + "]";
}

// --- reference --------------------------------------------------------------

struct Call // one invocation of the reducer
{
    Action action;
    std::vector<int> input;
    bool operator==(const Call& o) const { return action == o.action && input == o.input; }
};

struct Expect // what the reference expects to happen
{
    std::vector<Call> calls;
    std::vector<int> effects; // ids
    std::vector<std::vector<int>> together; // those of the actions that a resume applies
    int pauses = 0, resumes = 0;
};
Expect* expect;

struct Base
{
    using A = Action;
    using M = Model;
    static bool throws(const A& a) { return a.prog == Throw; }
    static M reduce(const M& m, const A& a)
    {
        expect->calls.push_back({a, m.trace});
        auto r = m;
        if (a.prog != NoChange)
            r.trace.push_back(a.id);
        if (a.prog == Void || a.prog == Nested || a.prog == Fut)
            expect->effects.push_back(a.id);
        return r;
    }
};

mc::u64 hash(const Model& m)
{
    mc::u64 h = m.trace.size();
    for (int x : m.trace)
        h = mc::mix(h, x);
    return h;
}

// --- world ------------------------------------------------------------------

struct World
{
    mc::Run& run;
    std::vector<Call> calls;
    std::vector<int> effects;
    int pauses = 0, resumes = 0;
    std::vector<Prog> progs; // by id
    std::deque<std::function<void()>> queue;
    std::function<void(Action)> sent; // an action has been dispatched
    std::function<std::vector<int>()> shown;
    std::vector<char> first_of_drain; // what the last drain did
    bool automatic = true;

    void drain()
    {
        while (!queue.empty()) {
            auto f = std::move(queue.front());
            queue.pop_front();
            f();
        }
    }
    Action fresh(Prog p)
    {
        progs.push_back(p);
        auto a = Action{int(progs.size()) - 1, p};
        sent(a);
        return a;
    }
};
World* w;

struct Loop
{
    template <typename Fn>
    void post(Fn&& fn)
    {
        auto p = std::make_shared<std::decay_t<Fn>>(std::forward<Fn>(fn));
        w->queue.push_back([p] { (*p)(); });
    }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() {}
    void pause()
    {
        ++w->pauses;
        w->first_of_drain.push_back('P');
    }
    void resume()
    {
        ++w->resumes;
        w->first_of_drain.push_back('R');
    }
};

template <typename Deps>
lager::effect<Action, Deps> make_effect(Action a)
{
    using ctx_t  = lager::context<Action, Deps>;
    auto started = [a](const ctx_t& ctx) {
        w->effects.push_back(a.id);
        w->first_of_drain.push_back('E');
        if constexpr (!std::is_same_v<Deps, lager::deps<>>)
            MC_CHECK(w->run, ctx.template get<int>() == 42, "the effect got a wrong dependency");
        bool reduced = false;
        for (auto& c : w->calls)
            reduced |= c.action == a;
        MC_CHECK(w->run, reduced, "the effect of action " << a.id << " ran before its reduction");
        (void) ctx;
    };
    switch (a.prog) {
    case Void: return [=](const ctx_t& ctx) { started(ctx); };
    case Nested:
        return [=](const ctx_t& ctx) {
            started(ctx);
            ctx.dispatch(w->fresh(Plain));
            ctx.dispatch(w->fresh(Void));
        };
    case Fut:
        return [=](const ctx_t& ctx) -> lager::future {
            started(ctx);
            return ctx.dispatch(w->fresh(Void));
        };
    default: return lager::noop;
    }
}

Model reduce(Model m, Action a)
{
    if (a.prog == Throw)
        throw Boom{};
    w->calls.push_back({a, m.trace});
    if (a.prog != NoChange)
        m.trace.push_back(a.id);
    return m;
}

struct Paired
{
    std::pair<Model, lager::effect<Action>> operator()(Model m, Action a) const
    {
        return {reduce(std::move(m), a), make_effect<lager::deps<>>(a)};
    }
};
struct WithResult
{
    lager::result<Model, Action, lager::deps<int>> operator()(Model m, Action a) const
    {
        auto r = reduce(std::move(m), a);
        if (a.prog == Plain || a.prog == NoChange)
            return r;
        return {r, make_effect<lager::deps<int>>(a)};
    }
};
struct Pure
{
    Model operator()(Model m, Action a) const { return reduce(std::move(m), a); }
};

// the server only keeps what it was given
template <typename Debugger>
struct Handle
{
    using debugger = Debugger;
    lager::context<typename Debugger::action> ctx;
    lager::reader<typename Debugger::model> data;
    int inits = 0;
    void init(lager::context<typename Debugger::action> c, lager::reader<typename Debugger::model> r)
    {
        ++inits;
        ctx  = std::move(c);
        data = std::move(r);
    }
};

struct Server
{
    std::shared_ptr<void> handle;
    int makes = 0;
    template <typename Debugger>
    auto make(Debugger)
    {
        ++makes;
        auto r = std::make_shared<Handle<Debugger>>();
        handle = r;
        return r;
    }
};

} // namespace
