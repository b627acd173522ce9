// C15: see loops.hpp
#include "loops.hpp"

#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <cassert>
#include <lager/event_loop/safe_queue.hpp>

#include <boost/asio/io_context.hpp>

namespace {

struct Manual
{
    static constexpr bool immediate = true, throws = true, persistent = false;
    lager::with_manual_event_loop l;
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    void step() {}
};
struct Queue
{
    static constexpr bool immediate = false, throws = true, persistent = false;
    lager::queue_event_loop q;
    lager::with_queue_event_loop l{q};
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    void step() { q.step(); }
};
struct SafeQueue
{
    static constexpr bool immediate = false, throws = true, persistent = false;
    lager::safe_queue_event_loop q;
    lager::with_safe_queue_event_loop l{q};
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    void step() { q.step(); }
};
struct Asio
{
    static constexpr bool immediate = false, throws = true, persistent = false;
    boost::asio::io_context io;
    lager::with_boost_asio_event_loop<boost::asio::io_context::executor_type> l{
        io.get_executor()};
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    void step()
    {
        io.restart();
        io.poll();
    }
};
struct AsioStrand
{
    static constexpr bool immediate = false, throws = true, persistent = false;
    boost::asio::io_context io;
    using strand_t =
        boost::asio::strand<boost::asio::io_context::executor_type>;
    lager::with_boost_asio_event_loop<strand_t> l{strand_t{io.get_executor()}};
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    void step()
    {
        io.restart();
        io.poll();
    }
};

} // namespace

MC_SCENARIO(manual, 2)
{
    loops::history<Manual>(run, run.bound(7, 9), run.bound(8, 10));
}
MC_SCENARIO(queue, 2)
{
    loops::history<Queue>(run, run.bound(8, 9), run.bound(7, 9));
}
MC_SCENARIO(safe_queue, 2)
{
    loops::history<SafeQueue>(run, run.bound(8, 9), run.bound(7, 9));
}
// the same under AddressSanitizer
MC_SCENARIO(manual_mem, 2) { loops::history<Manual>(run, run.bound(5, 7), run.bound(5, 7)); }
MC_SCENARIO(queue_mem, 2) { loops::history<Queue>(run, run.bound(5, 7), run.bound(5, 7)); }
MC_SCENARIO(safe_queue_mem, 2) { loops::history<SafeQueue>(run, run.bound(5, 7), run.bound(5, 7)); }
MC_SCENARIO(asio_mem, 2) { loops::history<Asio>(run, run.bound(5, 7), run.bound(5, 7)); }
MC_SCENARIO(asio, 2)
{
    loops::history<Asio>(run, run.bound(7, 8), run.bound(6, 8));
}
MC_SCENARIO(asio_strand, 2)
{
    loops::history<AsioStrand>(run, run.bound(7, 8), run.bound(6, 8));
}

MC_SCENARIO(manual_context, 2)
{
    loops::history<loops::via_context<Manual>>(run, run.bound(5, 7), run.bound(6, 8));
}
MC_SCENARIO(queue_context, 2)
{
    loops::history<loops::via_context<Queue>>(run, run.bound(6, 8), run.bound(5, 7));
}
MC_SCENARIO(safe_queue_context, 2)
{
    loops::history<loops::via_context<SafeQueue>>(run, run.bound(6, 8), run.bound(5, 7));
}
MC_SCENARIO(asio_context, 2)
{
    loops::history<loops::via_context<Asio>>(run, run.bound(6, 8), run.bound(5, 7));
}

// the loop of a context is the loop of the store: what is asked of one is asked
// of the other, once and in order
namespace {
struct Recorder
{
    std::string& log;
    template <typename F>
    void post(F&& f)
    {
        log += 'p';
        f();
    }
    template <typename F>
    void async(F&& f)
    {
        log += 'a';
        f();
    }
    void finish() { log += 'f'; }
    void pause() { log += 'z'; }
    void resume() { log += 'r'; }
};
} // namespace
MC_SCENARIO(context_controls, 1)
{
    std::string log, want;
    Recorder loop{log};
    lager::context<int> c1{
        [](int) { return lager::future{}; }, loop, lager::deps<>{}};
    lager::context<char> c2 = c1;
    lager::context<> c3{c2, [](auto x) { return x; }};
    for (int d = 0; d < run.bound(4, 5); ++d) {
        int who  = run.choose(3);
        auto& l  = who == 0 ? c1.loop() : who == 1 ? c2.loop() : c3.loop();
        int what = run.choose(5);
        MC_LOG(run, "context " << who << " op " << what);
        if (what == 0)
            l.post([&] { log += 'P'; }), want += "pP";
        else if (what == 1)
            l.async([&] { log += 'A'; }), want += "aA";
        else if (what == 2)
            l.finish(), want += 'f';
        else if (what == 3)
            l.pause(), want += 'z';
        else
            l.resume(), want += 'r';
        run.step();
        run.state(mc::hash_str(want));
        MC_CHECK(run, log == want, "the loop was asked " << log << " instead of " << want);
    }
    run.outcome(mc::hash_str(log));
}

namespace {
struct AsioAsync : Asio
{
    // async work keeps the loop running
    void run_all()
    {
        io.restart();
        io.run();
    }
};
} // namespace
MC_SCENARIO(asio_async, 2) { loops::async_history<AsioAsync>(run, run.bound(2, 3)); }

// finish() stops the loop through the given function, exactly once
MC_SCENARIO(asio_finish, 1)
{
    boost::asio::io_context io;
    int stops = 0;
    lager::with_boost_asio_event_loop<boost::asio::io_context::executor_type> l{
        io.get_executor(), [&] {
            ++stops;
            io.stop();
        }};
    int n        = 1 + run.choose(3);
    int finisher = run.choose(n + 1); // n: nobody
    int ran      = 0;
    for (int i = 0; i < n; ++i)
        l.post([&, i] {
            ++ran;
            if (i == finisher)
                l.finish();
        });
    io.poll();
    run.step();
    run.state(n * 10 + finisher);
    run.outcome(ran);
    MC_CHECK(run, stops == (finisher < n ? 1 : 0), "stop was called " << stops << " times");
    MC_CHECK(run, ran == (finisher < n ? finisher + 1 : n),
             ran << " events ran of " << n);
}
