// C15: the SDL event loop, see loops.hpp; plus the control of its main loops
// by handler, tick, finish(), pause() and resume().
#include "loops.hpp"

#include <lager/event_loop/sdl.hpp>

#include <sys/types.h>
#include <unistd.h>

namespace {

lager::sdl_event_loop& the_loop()
{
    // SDL has a limited number of event types: one loop per process, except
    // for the scenarios that finish it
    static pid_t owner                  = 0;
    static lager::sdl_event_loop* l = nullptr;
    if (owner != getpid()) {
        owner = getpid();
        SDL_SetHint(SDL_HINT_NO_SIGNAL_HANDLERS, "1");
        SDL_Init(SDL_INIT_EVENTS);
        l = new lager::sdl_event_loop;
    }
    return *l;
}
void push_user(int code)
{
    SDL_Event e;
    SDL_zero(e);
    e.type      = SDL_USEREVENT + 1000;
    e.user.code = code;
    SDL_PushEvent(&e);
}

template <bool Tick>
struct Sdl
{
    static constexpr bool immediate = false, throws = Tick, persistent = true;
    lager::sdl_event_loop& loop;
    lager::with_sdl_event_loop l;
    Sdl()
        : loop(the_loop())
        , l{loop}
    {}
    ~Sdl() { SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT); }
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    void step()
    {
        // SDL may leave what events post for a later round
        if (Tick)
            for (int i = 0; i < 10; ++i)
              loop.run([](const SDL_Event&) { return true; },
                     [](float) { return false; },
                     1000000);
        else
            // events posted by events come after the sentinel: run again
            for (int i = 0; i < 10; ++i) {
                push_user(0);
                loop.run([](const SDL_Event& e) {
                    return e.type != SDL_USEREVENT + 1000;
                });
            }
    }
};

} // namespace

MC_SCENARIO(sdl_tick, 2)
{
    loops::history<Sdl<true>>(run, run.bound(6, 8), run.bound(6, 7));
}
MC_SCENARIO(sdl_wait, 2)
{
    loops::history<Sdl<false>>(run, run.bound(5, 6), run.bound(5, 6));
}

// a script of events: posts that pause, resume, finish; window events; ticks
namespace {
struct Script
{
    enum Op { Nothing, Pause, Resume, Finish };
};
} // namespace

MC_SCENARIO(sdl_control, 2)
{
    auto& base = the_loop();
    (void) base;
    // finish() is final: a fresh loop object that reuses the event type would
    // need a new registration, so build it over the registered number
    static pid_t owner = 0;
    static int made    = 0;
    if (owner != getpid()) {
        owner = getpid();
        made  = 0;
    }
    (void) made;
    auto loop = std::make_unique<lager::sdl_event_loop>();
    int n     = run.bound(4, 5);
    bool tick = run.flip();
    // the script
    struct E
    {
        bool posted;
        int op; // for posted: what it does; for window events: handler result
    };
    std::vector<E> es;
    for (int i = 0; i < n; ++i) {
        int c = run.choose(6);
        if (c < 4)
            es.push_back({true, c});
        else
            es.push_back({false, c == 4});
    }
    if (!tick)
        for (auto& e : es)
            if (e.posted && (e.op == Script::Pause || e.op == Script::Resume))
                run.prune();
    // a final event that ends the waiting loop in any case
    std::vector<int> got;
    for (int i = 0; i < n; ++i) {
        if (es[i].posted)
            loop->post([&, i] {
                got.push_back(i);
                if (es[i].op == Script::Pause)
                    loop->pause();
                if (es[i].op == Script::Resume)
                    loop->resume();
                if (es[i].op == Script::Finish)
                    loop->finish();
            });
        else
            push_user(i);
    }
    // model
    std::vector<int> want;
    bool paused = false, done = false, stopped = false;
    int ticks_want = 0;
    std::size_t at_least = 0; // what must be processed when finish() is called
    for (int i = 0; i < n && !stopped; ++i) {
        if (es[i].posted) {
            want.push_back(i);
            if (es[i].op == Script::Pause)
                paused = true;
            if (es[i].op == Script::Resume)
                paused = false;
            if (es[i].op == Script::Finish)
                done = true;
            if (done && !at_least)
                at_least = want.size();
        } else if (!paused) {
            want.push_back(i);
            if (!es[i].op)
                stopped = true;
        }
    }
    if (tick && !stopped && !done && paused) {
        // the loop would wait for ever for somebody to resume it
        loop->post([&] { loop->resume(); });
        paused = false;
    }
    if (!tick && !stopped && !done)
        push_user(n); // handled by returning false
    auto handler = [&](const SDL_Event& e) {
        if (e.type != SDL_USEREVENT + 1000)
            return true;
        if (e.user.code == n)
            return false;
        got.push_back(e.user.code);
        return es[e.user.code].op != 0;
    };
    int ticks = 0;
    MC_LOG(run, "run with " << (tick ? "tick" : "wait"));
    for (auto& e : es)
        MC_LOG(run, (e.posted ? "posted " : "window ") << e.op);
    if (tick)
        loop->run(handler, [&](float) { return ++ticks, false; }, 1000000);
    else
        loop->run(handler);
    ticks_want = tick && !stopped && !paused ? 1 : 0;
    run.step();
    mc::u64 h = tick;
    for (int i : got)
        h = mc::mix(h, i * 10 + es[i].op);
    run.state(h);
    run.outcome(h);
    SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT);
    // after finish() the loop may or may not process what is still pending
    if (done && got.size() >= at_least && got.size() <= want.size())
        want.resize(got.size());
    MC_CHECK(run, got == want,
             "the loop processed " << got.size() << " of the events, "
                                   << want.size() << " were expected");
    if (!done)
        MC_CHECK(run, ticks == ticks_want, "tick ran " << ticks << " times");
}
