// C15: the Qt and QML event loops, see loops.hpp
#include "loops.hpp"

#include <QCoreApplication>
#include <lager/event_loop/qml.hpp>
#include <lager/event_loop/qt.hpp>

#include <unistd.h>

namespace {

// one per process: the application must not survive a fork
void app()
{
    static int argc        = 1;
    static char name[]     = "check";
    static char* argv[]    = {name, nullptr};
    static pid_t owner     = 0;
    static QCoreApplication* a = nullptr;
    if (owner != getpid()) {
        owner = getpid();
        a     = new QCoreApplication{argc, argv};
    }
}

struct Qt_
{
    static constexpr bool immediate = false, throws = false, persistent = false;
    Qt_() { app(); }
    QObject obj;
    lager::with_qt_event_loop l{obj};
    template <typename F>
    void post(F&& f)
    {
        l.post(std::forward<F>(f));
    }
    // Qt may leave what events post for a later round
    void step()
    {
        for (int i = 0; i < 12; ++i)
            QCoreApplication::processEvents();
    }
};

struct Item : lager::event_loop_quick_item
{};

struct Qml
{
    static constexpr bool immediate = false, throws = true, persistent = false;
    Qml()
    {
        app();
        item = std::make_unique<Item>();
        l    = std::make_unique<lager::with_qml_event_loop>(
            lager::with_qml_event_loop{*item});
    }
    std::unique_ptr<Item> item;
    std::unique_ptr<lager::with_qml_event_loop> l;
    template <typename F>
    void post(F&& f)
    {
        l->post(std::forward<F>(f));
    }
    void step() { item->step(); }
};

} // namespace

MC_SCENARIO(qt, 2)
{
    loops::history<Qt_>(run, run.bound(6, 8), run.bound(6, 7));
}
MC_SCENARIO(qml, 2)
{
    loops::history<Qml>(run, run.bound(6, 7), run.bound(5, 6));
}

// async functions run exactly once, on another thread, and what they post runs
// on the loop; the loop waits for them when it goes away
MC_SCENARIO(qt_async, 1)
{
    app();
    int n = 1 + run.choose(2);
    std::vector<int> calls(n, 0), back(n, 0);
    bool other = true, same = true;
    auto main_id = std::this_thread::get_id();
    bool inner_scope = run.flip();
    QObject obj;
    {
        QThreadPool pool;
        {
            lager::with_qt_event_loop l{obj, pool};
            for (int i = 0; i < n; ++i)
                l.async([&, i] {
                    ++calls[i];
                    if (std::this_thread::get_id() == main_id)
                        other = false;
                    QMetaObject::invokeMethod(
                        &obj,
                        [&, i] {
                            ++back[i];
                            if (std::this_thread::get_id() != main_id)
                                same = false;
                        },
                        Qt::QueuedConnection);
                });
            if (!inner_scope)
                pool.waitForDone();
        }
        // the destructor waited
        for (int i = 0; i < n; ++i)
            MC_CHECK(run, calls[i] == 1, "an async function ran " << calls[i] << " times");
    }
    QCoreApplication::processEvents();
    run.step();
    run.state(n * 2 + inner_scope);
    run.outcome(n);
    MC_CHECK(run, other, "an async function ran on the thread of the loop");
    for (int i = 0; i < n; ++i)
        MC_CHECK(run, back[i] == 1 && same, "a posted event was lost or ran elsewhere");
}

namespace {
struct QtAsync
{
    QtAsync() { app(); }
    QObject obj;
    QThreadPool pool;
    lager::with_qt_event_loop l{obj, pool};
    void run_all()
    {
        pool.waitForDone();
        for (int i = 0; i < 12; ++i)
            QCoreApplication::processEvents();
    }
};
} // namespace
namespace {
struct QmlContext : Qml
{
    lager::context<int> ctx{
        [](int) { return lager::future{}; }, *l, lager::deps<>{}};
    template <typename F>
    void post(F&& f)
    {
        ctx.loop().post(std::forward<F>(f));
    }
};
} // namespace
MC_SCENARIO(qt_async_forms, 2) { loops::async_history<QtAsync>(run, run.bound(2, 3)); }
MC_SCENARIO(qt_context, 2)
{
    loops::history<loops::via_context<Qt_>>(run, run.bound(5, 7), run.bound(5, 6));
}
MC_SCENARIO(qml_context, 2)
{
    loops::history<QmlContext>(run, run.bound(5, 6), run.bound(5, 6));
}

// posts from other threads (each thread is joined before the next operation)
namespace {
template <typename Adapter>
void foreign(mc::Run& run, int depth)
{
    auto a       = std::make_unique<Adapter>();
    auto main_id = std::this_thread::get_id();
    std::vector<int> ran;
    int posted[2] = {0, 0};
    std::string err;
    auto event = [&](int id) {
        if (std::this_thread::get_id() != main_id)
            err = "an event ran on a thread that does not own the loop";
        ran.push_back(id);
    };
    auto step = [&] {
        for (int i = 0; i < 4; ++i) {
            QCoreApplication::processEvents();
            a->step();
        }
        MC_CHECK(run, int(ran.size()) == posted[0] + posted[1],
                 ran.size() << " events ran, " << posted[0] + posted[1]
                            << " were posted");
    };
    for (int d = 0; d < depth; ++d) {
        int c = run.choose(3);
        if (c == 2) {
            MC_LOG(run, "step");
            step();
        } else {
            int id = c * 100 + posted[c]++;
            MC_LOG(run, "post " << id << (c ? " from a thread" : ""));
            if (c)
                std::thread([&] { a->post([&, id] { event(id); }); }).join();
            else
                a->post([&, id] { event(id); });
        }
        run.step();
    }
    step();
    run.state(mc::mix(posted[0], posted[1]));
    int next[2] = {0, 0};
    mc::u64 h   = 1;
    for (int id : ran) {
        h = mc::mix(h, id);
        MC_CHECK(run, id % 100 == next[id / 100], "events of one thread were reordered");
        ++next[id / 100];
    }
    run.outcome(h);
    MC_CHECK(run, err.empty(), err);
}
} // namespace
MC_SCENARIO(qt_foreign, 1) { foreign<Qt_>(run, run.bound(5, 6)); }
MC_SCENARIO(qml_foreign, 1) { foreign<Qml>(run, run.bound(5, 6)); }

// driven by the polish/paint cycle of the window, as in an application
namespace {
struct QmlPolish : Qml
{
    static constexpr bool throws = false;
    void step()
    {
        item->updatePolish();
        item->updatePaintNode(nullptr, nullptr);
    }
};
} // namespace
MC_SCENARIO(qml_polish, 2)
{
    loops::history<QmlPolish>(run, run.bound(6, 7), run.bound(5, 6));
}
