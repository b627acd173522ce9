// C15: sequential histories of an event loop: posts from outside, events that
// post, throw, and events posted later.  Oracle: a FIFO queue.
#pragma once
#include "../engine/mc.hpp"

#include <lager/context.hpp>

#include <algorithm>
#include <chrono>
#include <deque>
#include <functional>
#include <memory>
#include <stdexcept>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace loops {

struct Err : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// An event that is so small that std::function stores it inline: it must stay
// where it is while it runs, whatever it posts (also run under ASan).
template <typename Fn>
struct SmallEvent
{
    Fn* fn;
    int id;
    void operator()()
    {
        int before = id;
        (*fn)(before);
        volatile int* after = &id;
        if (*after != before)
            fn->err = "event " + std::to_string(before) + " was overwritten while it ran";
    }
};

// Adapter: post(fn), step() (process what can be processed; exceptions of
// events propagate), static constexpr bool immediate (post() from outside
// processes events itself), throws (events may throw)
template <typename Adapter>
void history(mc::Run& run, int depth, int max_events)
{
    auto a = std::make_unique<Adapter>();
    struct Token
    {
        int& n;
        Token(int& x)
            : n(x)
        {
            ++n;
        }
        ~Token() { --n; }
    };
    int alive = 0;
    std::deque<int> model; // posted and not run
    int next_id  = 0;
    bool running = false;
    std::string err;
    std::vector<int> ran;
    std::function<void(bool)> post;
    int expect_throw = 0;
    bool calm        = false; // at the end events do nothing
    auto event       = [&](int id) {
        if (running)
            err = "an event ran inside another one";
        running = true;
        if (model.empty() || model.front() != id)
            err = "event " + std::to_string(id) + " ran, " +
                  (model.empty() ? std::string("none")
                                       : std::to_string(model.front())) +
                  " was next";
        else
            model.pop_front();
        ran.push_back(id);
        MC_LOG(run, "  event " << id << " runs");
        // what does it do?
        int left  = max_events - next_id;
        int nopts = 1 + (left > 0) + (left > 1) + (Adapter::throws ? 1 + (left > 0) : 0);
        int c     = err.empty() && !calm ? run.choose(nopts) : 0;
        int posts = 0;
        bool thr  = false;
        if (c == 0)
            ;
        else if (left > 0 && c == 1)
            posts = 1;
        else if (left > 1 && c == 2)
            posts = 2;
        else {
            int k = c - 1 - (left > 0) - (left > 1);
            thr   = true;
            posts = k;
        }
        for (int i = 0; i < posts; ++i)
            post(true);
        running = false;
        if (thr) {
            ++expect_throw;
            MC_LOG(run, "  event " << id << " throws");
            throw Err{std::to_string(id)};
        }
    };
    struct Event
    {
        std::function<void(int)> run;
        std::string& err;
        void operator()(int id) { run(id); }
    };
    Event small_event{event, err};
    auto small = [](int id) { return id % 3 == 2; };
    post       = [&](bool inside) {
        int id = next_id++;
        MC_LOG(run, (inside ? "    posts event " : "post event ") << id);
        model.push_back(id);
        auto give = [&](auto f) {
            if (id & 1) // lvalue
                a->post(f);
            else
                a->post(std::move(f));
        };
        if (small(id))
            give(SmallEvent<Event>{&small_event, id});
        else {
            auto t = std::make_shared<Token>(alive);
            auto f = [&event, id, t] { event(id); };
            t.reset();
            give(std::move(f));
        }
    };
    auto guarded = [&](auto&& fn) {
        int want_before = expect_throw;
        bool threw      = false;
        try {
            fn();
        } catch (Err& e) {
            threw = true;
            MC_CHECK(run, e.what() == std::to_string(ran.back()),
                     "the wrong exception came out");
        }
        MC_CHECK(run, err.empty(), err);
        MC_CHECK(run, expect_throw - want_before == (threw ? 1 : 0),
                 (threw ? "more than one event was run after a throw"
                        : "the exception of an event was swallowed"));
        running = false;
        return threw;
    };
    auto check_alive = [&] {
        int pending = int(std::count_if(model.begin(), model.end(), [&](int i) { return !small(i); }));
        MC_CHECK(run, alive == pending,
                 alive << " events are stored but " << pending << " are pending");
    };
    for (int d = 0; d < depth; ++d) {
        bool can_post = next_id < max_events;
        int nopts     = can_post + 1;
        int c         = run.choose(nopts);
        if (can_post && c == 0) {
            bool threw = guarded([&] { post(false); });
            if (Adapter::immediate)
                MC_CHECK(run, threw || model.empty(),
                         model.size() << " events were not run by post()");
            else
                MC_CHECK(run, !threw, "post() ran an event");
        } else {
            if (Adapter::immediate)
                break;
            MC_LOG(run, "step");
            bool threw = guarded([&] { a->step(); });
            MC_CHECK(run, threw || model.empty(),
                     model.size() << " events were not run by the step");
        }
        check_alive();
        run.step();
        mc::u64 h = mc::mix(next_id, ran.size());
        for (int i : model)
            h = mc::mix(h, i);
        run.state(h);
    }
    // everything runs in the end
    calm = true;
    if (!model.empty()) {
        if (Adapter::immediate)
            guarded([&] {
                model.push_back(next_id);
                int id = next_id++;
                a->post([&event, id] { event(id); });
            });
        else
            guarded([&] { a->step(); });
    }
    MC_CHECK(run, model.empty(), "events were never run");
    check_alive();
    mc::u64 h = 1;
    for (int i : ran)
        h = mc::mix(h, i);
    run.outcome(mc::mix(h, expect_throw));
    // what is pending when the loop goes away is released
    a.reset();
    MC_CHECK(run, alive == 0 || Adapter::persistent, "events leaked");
}

// async(): functions given as temporaries or lvalues (which the caller goes on
// using), to the loop itself or to the loop of a context, run exactly once per
// call, on another thread; what they post comes back to the loop.
// Adapter: l, run_all() (runs the loop until all is done)
template <typename Adapter>
void async_history(mc::Run& run, int max_calls)
{
    auto a = std::make_unique<Adapter>();
    lager::context<int> ctx{
        [](int) { return lager::future{}; }, a->l, lager::deps<>{}};
    auto main_id = std::this_thread::get_id();
    std::mutex mx;
    std::vector<int> calls, back;
    bool other = true, same = true;
    int alive  = 0;
    struct Token
    {
        std::mutex& mx;
        int& n;
        Token(std::mutex& m, int& x)
            : mx(m)
            , n(x)
        {
            std::lock_guard<std::mutex> g{mx};
            ++n;
        }
        ~Token()
        {
            std::lock_guard<std::mutex> g{mx};
            --n;
        }
    };
    auto make = [&](int i, bool posts) {
        auto t = std::make_shared<Token>(mx, alive);
        return [&, i, posts, t] {
            {
                std::lock_guard<std::mutex> g{mx};
                ++calls[i];
                if (std::this_thread::get_id() == main_id)
                    other = false;
            }
            if (posts)
                a->l.post([&, i] {
                    ++back[i];
                    if (std::this_thread::get_id() != main_id)
                        same = false;
                });
        };
    };
    std::vector<int> want_calls, want_back;
    mc::u64 h = 0;
    int n     = 1 + run.choose(max_calls);
    {
        std::vector<std::function<void()>> kept;
        for (int i = 0; i < n; ++i) {
            // temporary; lvalue; const lvalue; lvalue std::function, each
            // given once or twice
            int form     = run.choose(4);
            bool context = run.flip();
            bool posts   = run.flip();
            bool twice   = form > 0 && run.flip();
            MC_LOG(run, "async function " << i << " given as "
                                          << (form == 0   ? "a temporary"
                                              : form == 1 ? "an lvalue"
                                              : form == 2 ? "a const lvalue"
                                                          : "a std::function")
                                          << (twice ? ", twice" : "")
                                          << (context ? ", to the loop of a context" : "")
                                          << (posts ? "; it posts an event" : ""));
            {
                std::lock_guard<std::mutex> g{mx};
                calls.push_back(0);
                back.push_back(0);
            }
            int times = twice ? 2 : 1;
            auto give = [&](auto&& f) {
                if (context)
                    ctx.loop().async(std::forward<decltype(f)>(f));
                else
                    a->l.async(std::forward<decltype(f)>(f));
            };
            if (form == 0)
                give(make(i, posts));
            else if (form == 1) {
                auto f = make(i, posts);
                for (int k = 0; k < times; ++k)
                    give(f);
            } else if (form == 2) {
                const auto f = make(i, posts);
                for (int k = 0; k < times; ++k)
                    give(f);
            } else {
                std::function<void()> f = make(i, posts);
                for (int k = 0; k < times; ++k) {
                    give(f);
                    MC_CHECK(run, bool(f), "async() took the caller's function away");
                }
            }
            want_calls.push_back(times);
            want_back.push_back(posts ? times : 0);
            h = mc::mix(h, form * 8 + context * 4 + posts * 2 + twice);
            run.step();
            run.state(h);
        }
    }
    a->run_all();
    run.outcome(h);
    {
        std::lock_guard<std::mutex> g{mx};
        for (int i = 0; i < n; ++i) {
            MC_CHECK(run, calls[i] == want_calls[i],
                     "async function " << i << " ran " << calls[i]
                                       << " times instead of " << want_calls[i]);
            MC_CHECK(run, back[i] == want_back[i],
                     "of " << want_back[i] << " events posted by function " << i
                           << ", " << back[i] << " ran");
        }
    }
    MC_CHECK(run, other, "an async function ran on the thread of the loop");
    MC_CHECK(run, same, "a posted event ran outside of the loop");
    // the functions are released (their threads may still be about to)
    for (int i = 0; i < 2000; ++i) {
        {
            std::lock_guard<std::mutex> g{mx};
            if (!alive)
                break;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    std::lock_guard<std::mutex> g{mx};
    MC_CHECK(run, alive == 0, "async functions were never released");
}

// posts through the loop of a context
template <typename Adapter>
struct via_context : Adapter
{
    lager::context<int> ctx{
        [](int) { return lager::future{}; }, this->l, lager::deps<>{}};
    template <typename F>
    void post(F&& f)
    {
        ctx.loop().post(std::forward<F>(f));
    }
};

} // namespace loops
