// C13: promises and futures shared by several threads.
#include "../engine/mc.hpp"
#include "../engine/sched.hpp"

#include <lager/future.hpp>

#include <deque>
#include <memory>
#include <mutex>
#include <vector>

namespace {

// a thread safe event loop, run by the bodies
struct Loop
{
    std::mutex m;
    std::deque<std::function<void()>> q;
    std::size_t posted = 0; // only for wait conditions

    std::function<void(std::function<void()>)> poster()
    {
        return [this](std::function<void()> f) {
            std::lock_guard<std::mutex> l{m};
            q.push_back(std::move(f));
        };
    }
    bool one()
    {
        std::function<void()> f;
        {
            std::lock_guard<std::mutex> l{m};
            if (q.empty())
                return false;
            f = std::move(q.front());
            q.pop_front();
        }
        f();
        return true;
    }
    void drain()
    {
        while (one())
            ;
    }
};

} // namespace

MC_SCENARIO(fulfil_vs_then, 3)
{
    // one thread fulfils, another attaches a chain of callbacks; either or
    // both also run the loop
    int chain    = 1 + run.choose(3);
    int who_runs = run.choose(3);
    Loop loop;
    std::mutex cm;
    std::vector<int> calls;
    auto record = [&](int i) {
        std::lock_guard<std::mutex> l{cm};
        calls.push_back(i);
    };
    auto [p, f] = lager::promise::with_post(loop.poster());
    std::vector<std::function<void()>> bodies{
        [&, p = std::move(p)]() mutable {
            p();
            if (who_runs != 1)
                loop.drain();
        },
        [&, f = std::move(f)]() mutable {
            auto g = std::move(f).then([&] { record(1); });
            if (chain > 1)
                g = std::move(g).then([&] { record(2); });
            if (chain > 2)
                g = std::move(g).then([&] { record(3); });
            if (who_runs != 0)
                loop.drain();
        },
    };
    sched::run(run, bodies, run.bound(4, 6));
    std::size_t before = calls.size();
    loop.drain();
    run.outcome(before);
    std::vector<int> want;
    for (int i = 1; i <= chain; ++i)
        want.push_back(i);
    MC_CHECK(run, calls == want,
             "of a chain of " << chain << " callbacks, " << calls.size()
                              << " calls happened");
}

MC_SCENARIO(nested_future, 3)
{
    // the callback of the first future returns a second one that a third
    // thread fulfils
    bool also = run.flip();
    Loop loop;
    std::mutex cm;
    std::vector<int> calls;
    bool done0 = false, done2 = false;
    std::string err;
    auto record = [&](int i) {
        std::lock_guard<std::mutex> l{cm};
        calls.push_back(i);
    };
    auto [p0, f0] = lager::promise::with_post(loop.poster());
    auto [p2, f2] = lager::promise::with_post(loop.poster());
    std::mutex dm;
    std::vector<std::function<void()>> bodies{
        [&, p0 = std::move(p0)]() mutable {
            {
                std::lock_guard<std::mutex> l{dm};
                done0 = true;
            }
            p0();
        },
        [&, f0 = std::move(f0), f2 = std::move(f2)]() mutable {
            auto last = [&] {
                {
                    std::lock_guard<std::mutex> l{dm};
                    if (!done0 || !done2)
                        err = "continuation ran before both were fulfilled";
                }
                record(2);
            };
            if (also)
                std::move(f0).also(std::move(f2)).then(last);
            else
                std::move(f0)
                    .then([&record, f2 = std::move(f2)]() mutable {
                        record(1);
                        return f2;
                    })
                    .then(last);
            loop.drain();
        },
        [&, p2 = std::move(p2)]() mutable {
            {
                std::lock_guard<std::mutex> l{dm};
                done2 = true;
            }
            p2();
        },
    };
    sched::run(run, bodies, run.bound(3, 5));
    std::size_t before = calls.size();
    loop.drain();
    run.outcome(before);
    std::vector<int> want = also ? std::vector<int>{2} : std::vector<int>{1, 2};
    MC_CHECK(run, err.empty(), err);
    MC_CHECK(run, calls == want,
             "nested continuation: " << calls.size() << " calls instead of "
                                     << want.size());
}

MC_SCENARIO(two_chains, 3)
{
    // two independent futures on one loop, drained by a thread of its own
    Loop loop;
    std::vector<int> calls; // only touched by the loop thread
    int finished = 0;
    std::mutex fm;
    auto [p0, f0] = lager::promise::with_post(loop.poster());
    auto [p1, f1] = lager::promise::with_post(loop.poster());
    auto finish   = [&] {
        std::lock_guard<std::mutex> l{fm};
        ++finished;
    };
    std::vector<std::function<void()>> bodies{
        [&, p0 = std::move(p0), f1 = std::move(f1)]() mutable {
            std::move(f1).then([&] { calls.push_back(10); });
            p0();
            finish();
        },
        [&, p1 = std::move(p1), f0 = std::move(f0)]() mutable {
            std::move(f0).then([&] { calls.push_back(1); }).then([&] {
                calls.push_back(2);
            });
            p1();
            finish();
        },
        [&] {
            loop.drain();
            sched::wait_until([&] { return finished == 2; });
            loop.drain();
        },
    };
    sched::run(run, bodies, run.bound(3, 5));
    int n1 = 0, n2 = 0, n10 = 0;
    bool order = true;
    for (int c : calls) {
        n1 += c == 1;
        n2 += c == 2;
        n10 += c == 10;
        if (c == 2 && !n1)
            order = false;
    }
    run.outcome(calls.empty() ? 0 : calls[0]);
    MC_CHECK(run, calls.size() == 3 && n1 == 1 && n2 == 1 && n10 == 1 && order,
             "callbacks ran " << n1 << "," << n2 << "," << n10
                              << " times (order " << order << ")");
}
