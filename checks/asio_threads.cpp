// C14: the Boost.Asio event loop: events posted from any thread, and from
// functions run with async().
#include "../engine/mc.hpp"
#include "../engine/sched.hpp"

#include <lager/event_loop/boost_asio.hpp>

#include <boost/asio/io_context.hpp>

#include <memory>
#include <thread>
#include <vector>

namespace {
using executor_t = boost::asio::io_context::executor_type;
}

// foreign posts and async functions against an owner that polls
MC_SCENARIO(asio, 3)
{
    int kind = run.choose(3); // 0: posts, 1: one async, 2: two asyncs
    boost::asio::io_context io{1};
    lager::with_boost_asio_event_loop<executor_t> loop{io.get_executor()};
    std::vector<int> ran;
    std::string err;
    std::thread::id owner;
    int async_done = 0; // async functions that finished
    int nasync     = kind;
    auto event     = [&](int i) {
        if (std::this_thread::get_id() != owner)
            err = "an event ran on a thread that does not run the loop";
        ran.push_back(i);
    };
    // the loop may stop only when no async function is pending and all their
    // events ran
    auto after_poll = [&] {
        sched::Quiet q;
        if (kind && io.stopped() && err.empty()) {
            int n = 0;
            for (int i : ran)
                n += i >= 100;
            if (async_done < nasync || n < nasync * 2)
                err = "the loop ran out of work while an async function was "
                      "pending";
        }
    };
    std::vector<std::function<void()>> bodies{[&] {
        owner = std::this_thread::get_id();
        for (int a = 0; a < nasync; ++a)
            loop.async([&, a] {
                loop.post([&, a] { event(100 + a * 10); });
                loop.post([&, a] { event(101 + a * 10); });
                sched::Quiet q;
                ++async_done;
            });
        loop.post([&] {
            event(0);
            loop.post([&] { event(1); });
        });
        io.poll();
        after_poll();
        if (!kind) {
            io.restart();
            io.poll();
        }
    }};
    if (kind == 0)
        for (int p = 1; p <= 2; ++p)
            bodies.push_back([&, p] {
                for (int s = 0; s < 2; ++s)
                    loop.post([&, p, s] { event(p * 10 + s); });
            });
    sched::run(run, bodies, kind == 1 ? run.bound(4, 6) : run.bound(3, 4));
    owner = std::this_thread::get_id();
    // everything else, on this thread
    MC_CHECK(run, !kind || async_done == nasync, "async functions did not run");
    io.restart();
    io.poll();
    MC_CHECK(run, err.empty(), err);
    mc::u64 h = 1;
    std::vector<int> next(12, 0);
    for (int i : ran) {
        h     = mc::mix(h, i);
        int t = i / 10, s = i % 10;
        MC_CHECK(run, next[t] == s, "events of one thread out of order");
        ++next[t];
    }
    run.outcome(h);
    MC_CHECK(run, next[0] == 2, "own events ran " << next[0] << " times");
    for (int t = 1; t < 12; ++t) {
        int want = kind == 0 ? (t <= 2 ? 2 : 0)
                             : (t >= 10 && t < 10 + nasync ? 2 : 0);
        MC_CHECK(run, next[t] == want,
                 "of the events of thread " << t << " " << next[t] << " ran, "
                                            << want << " were posted");
    }
    MC_CHECK(run, io.stopped(), "the loop has work left");
}
