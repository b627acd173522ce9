// C14: events posted to the thread safe queue from any thread.
#include "../engine/mc.hpp"
#include "../engine/sched.hpp"

#include <lager/effect.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>

#include <memory>
#include <stdexcept>
#include <thread>
#include <variant>
#include <vector>

namespace {

struct Ev
{
    int thread, seq;
};

struct Checker
{
    mc::Run& run;
    std::vector<Ev> ran;
    std::string err;
    std::thread::id owner;
    int posted = 0; // posts that returned

    template <typename Fn>
    void post(lager::safe_queue_event_loop& loop, int t, int s, Fn fn)
    {
        loop.post([this, t, s, fn] {
            event(t, s);
            fn();
        });
        sched::Quiet q;
        ++posted;
    }
    // everything posted before the step runs in the step
    void step(lager::safe_queue_event_loop& loop)
    {
        int before;
        {
            sched::Quiet q;
            before = posted;
        }
        loop.step();
        if (int(ran.size()) < before)
            err = "step() left events unprocessed that were posted before it";
    }

    // called by the events, on whichever thread runs them
    void event(int t, int s)
    {
        if (std::this_thread::get_id() != owner)
            err = "an event ran on a thread that does not own the loop";
        ran.push_back({t, s});
    }
    void check(int nthreads, const std::vector<int>& expected)
    {
        MC_CHECK(run, err.empty(), err);
        std::vector<int> next(nthreads, 0);
        for (auto& e : ran) {
            MC_CHECK(run, e.seq == next[e.thread],
                     "event " << e.seq << " of thread " << e.thread
                              << " ran when event " << next[e.thread]
                              << " was next");
            ++next[e.thread];
        }
        for (int t = 0; t < nthreads; ++t)
            MC_CHECK(run, next[t] == expected[t],
                     "of thread " << t << " " << next[t] << " events ran, "
                                  << expected[t] << " were posted");
    }
    mc::u64 hash() const
    {
        mc::u64 h = 1;
        for (auto& e : ran)
            h = mc::mix(h, e.thread * 10 + e.seq);
        return h;
    }
};

void step_all(lager::safe_queue_event_loop& loop, int& thrown)
{
    try {
        loop.step();
    } catch (std::runtime_error&) {
        ++thrown;
    }
}

} // namespace

// producers post, the owner posts and steps concurrently
MC_SCENARIO(posts, 3)
{
    int nprod   = 1 + run.choose(2);
    int each    = nprod == 1 ? 1 + run.choose(3) : 1 + run.choose(2);
    int steps   = 1 + run.choose(2);
    bool nested = run.flip(); // the first event of each producer posts again
    auto loop   = std::make_unique<lager::safe_queue_event_loop>();
    Checker c{run};
    // adopt() must not race with posts: producers start after it
    std::vector<int> expected{1 + steps};
    bool adopted = false;
    std::vector<std::function<void()>> bodies;
    bodies.push_back([&] {
        c.owner = std::this_thread::get_id();
        loop->adopt();
        adopted = true;
        c.post(*loop, 0, 0, [] {});
        for (int i = 0; i < steps; ++i) {
            c.step(*loop);
            c.post(*loop, 0, i + 1, [] {});
        }
    });
    for (int p = 1; p <= nprod; ++p) {
        bodies.push_back([&, p] {
            sched::wait_until([&] { return adopted; });
            for (int s = 0; s < each; ++s)
                c.post(*loop, p, s, [&, p, s] {
                    if (nested && s == 0 && p == 1)
                        c.post(*loop, nprod + 1, 0, [] {});
                });
        });
        expected.push_back(each);
    }
    expected.push_back(nested ? 1 : 0);
    // the last thread waits for all and steps as the owner would
    int done = 0;
    for (auto& b : bodies) {
        auto f = b;
        b      = [f, &done] {
            f();
            sched::Quiet q;
            ++done;
        };
    }
    auto owner = bodies[0];
    int total  = int(bodies.size());
    bodies[0]  = [&, owner] {
        owner();
        sched::wait_until([&] { return done == total; });
        c.step(*loop);
    };
    sched::run(run, bodies, run.bound(4, 6));
    run.outcome(c.hash());
    c.check(nprod + 2, expected);
}

// an event throws: step() propagates it, the rest runs in the next steps
MC_SCENARIO(throwing, 3)
{
    int which = run.choose(3); // who throws: own event, foreign 0, foreign 1
    auto loop = std::make_unique<lager::safe_queue_event_loop>();
    Checker c{run};
    bool adopted = false;
    int done     = 0;
    int thrown   = 0;
    std::vector<std::function<void()>> bodies{
        [&] {
            c.owner = std::this_thread::get_id();
            loop->adopt();
            adopted = true;
            loop->post([&] {
                c.event(0, 0);
                if (which == 0)
                    throw std::runtime_error{"0"};
            });
            loop->post([&] { c.event(0, 1); });
            step_all(*loop, thrown);
            loop->post([&] { c.event(0, 2); });
            step_all(*loop, thrown);
            sched::wait_until([&] { return done == 1; });
            for (int i = 0; i < 3; ++i)
                step_all(*loop, thrown);
        },
        [&] {
            sched::wait_until([&] { return adopted; });
            for (int s = 0; s < 2; ++s)
                loop->post([&, s] {
                    c.event(1, s);
                    if (which == s + 1)
                        throw std::runtime_error{"1"};
                });
            sched::Quiet q;
            ++done;
        }};
    sched::run(run, bodies, run.bound(3, 5));
    run.outcome(c.hash());
    c.check(2, {3, 2});
    MC_CHECK(run, thrown == 1, thrown << " steps threw instead of one");
}

// a store on the thread safe loop, actions dispatched from several threads,
// continuations attached by the dispatching threads
namespace {
struct Model
{
    std::vector<int> log;
    bool operator==(const Model& o) const { return log == o.log; }
};
using Action = int;
Model update(Model m, Action a)
{
    m.log.push_back(a);
    return m;
}
} // namespace

MC_SCENARIO(store, 3)
{
    int nprod = 1 + run.choose(2);
    int each  = nprod == 1 ? 1 + run.choose(2) : 1;
    bool chain = run.flip();
    auto loop = std::make_unique<lager::safe_queue_event_loop>();
    std::string err;
    std::vector<int> continued; // only on the owner
    std::vector<int> effects;
    bool ready = false;
    int done   = 0;
    std::thread::id owner;
    std::unique_ptr<lager::context<Action>> ctx;
    int seen = 0; // length at the last notification
    std::vector<std::function<void()>> bodies{[&] {
        owner = std::this_thread::get_id();
        loop->adopt();
        auto st = lager::make_store<Action>(
            Model{}, lager::with_safe_queue_event_loop{*loop},
            lager::with_futures,
            lager::with_reducer([&](Model m, Action a) {
                return std::pair<Model, lager::effect<Action>>{
                    update(m, a), [&, a](auto&&) {
                        if (std::this_thread::get_id() != owner)
                            err = "an effect ran on a foreign thread";
                        effects.push_back(a);
                    }};
            }));
        st.watch([&](auto&& m) {
            if (std::this_thread::get_id() != owner)
                err = "a watcher ran on a foreign thread";
            seen = int(m.log.size());
        });
        ctx   = std::make_unique<lager::context<Action>>(st);
        ready = true;
        st.dispatch(1);
        loop->step();
        sched::wait_until([&] { return done == nprod; });
        for (int i = 0; i < 4; ++i)
            loop->step();
        // fold of all actions, each thread in order
        auto log   = st->log;
        int total  = 1 + nprod * each;
        mc::u64 h  = 1;
        for (int a : log)
            h = mc::mix(h, a);
        {
            sched::Quiet q;
            run.outcome(h);
        }
        if (int(log.size()) != total)
            err = "the store handled " + std::to_string(log.size()) +
                  " actions of " + std::to_string(total);
        std::vector<int> next(nprod + 1, 0);
        for (int a : log) {
            int t = a / 10, s = a % 10;
            if (t == 0)
                continue;
            if (s != next[t]++)
                err = "actions of one thread were reordered";
        }
        if (seen != total)
            err = "the last notification had " + std::to_string(seen) +
                  " actions of " + std::to_string(total);
        if (effects != log)
            err = "the effects did not run once each in the order of the "
                  "actions";
        if (int(continued.size()) != nprod * each * (chain ? 2 : 1))
            err = "of " + std::to_string(nprod * each * (chain ? 2 : 1)) +
                  " continuations " + std::to_string(continued.size()) + " ran";
        ctx.reset();
    }};
    for (int p = 1; p <= nprod; ++p)
        bodies.push_back([&, p] {
            sched::wait_until([&] { return ready; });
            for (int s = 0; s < each; ++s) {
                int a  = p * 10 + s;
                auto f = ctx->dispatch(a).then([&, a] {
                    if (std::this_thread::get_id() != owner)
                        err = "a continuation ran on a foreign thread";
                    bool handled = false;
                    for (int x : effects)
                        handled = handled || x == a;
                    if (!handled)
                        err = "a continuation ran before the effect of its "
                              "action";
                    continued.push_back(a);
                });
                if (chain)
                    std::move(f).then([&, a] { continued.push_back(a); });
            }
            sched::Quiet q;
            ++done;
        });
    sched::run(run, bodies, nprod == 1 ? run.bound(3, 4) : run.bound(2, 3));
    MC_CHECK(run, err.empty(), err);
}

MC_SCENARIO(two_producers_two_each, 3)
{
    // more contention at a smaller bound
    auto loop = std::make_unique<lager::safe_queue_event_loop>();
    Checker c{run};
    bool adopted = false;
    int done     = 0;
    std::vector<std::function<void()>> bodies{[&] {
        c.owner = std::this_thread::get_id();
        loop->adopt();
        adopted = true;
        c.step(*loop);
        c.step(*loop);
        sched::wait_until([&] { return done == 3; });
        c.step(*loop);
    }};
    for (int p = 1; p <= 3; ++p)
        bodies.push_back([&, p] {
            sched::wait_until([&] { return adopted; });
            for (int s = 0; s < 2; ++s)
                c.post(*loop, p, s, [] {});
            sched::Quiet q;
            ++done;
        });
    sched::run(run, bodies, run.bound(3, 4));
    run.outcome(c.hash());
    c.check(4, {0, 2, 2, 2});
}
