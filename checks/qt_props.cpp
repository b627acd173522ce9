// C24: properties of Qt objects on readers and cursors (lager/extra/qt.hpp),
// through Qt's own reflection and QML bindings. Histories of writes of the
// properties and of the model, commits, connections and destructions.
#include "../engine/mc.hpp"
#include "qt_props.hpp"

#include "moc_qt_props.cpp"

#include <lager/commit.hpp>
#include <lager/state.hpp>

#include <QCoreApplication>
#include <QMetaProperty>
#include <QQmlComponent>
#include <QQmlContext>
#include <QQmlEngine>

#include <map>
#include <memory>
#include <unistd.h>
#include <vector>

namespace {

using props::Model;
using props::Object;

std::string str(const QString& s) { return s.toStdString(); }
std::string str(const QVariant& v) { return str(v.toString()); }
std::string str(const Model& m)
{
    return std::to_string(m.a) + " " + std::to_string(m.b) + " '" + str(m.text) + "'";
}

// the value of the property for a model
QVariant expect(const char* name, const Model& m)
{
    std::string n = name;
    return n == "a" ? QVariant(m.a) : n == "b" ? QVariant(m.b) : n == "text" ? QVariant(m.text)
           : n == "sum" ? QVariant(m.a + m.b)
                        : QVariant(m.a < m.b);
}
const char* names[] = {"a", "b", "text", "sum", "less"};

struct Event
{
    const char* name;
    QVariant value;
    Model at; // what the properties were when the signal came
};

struct Probe
{
    int id;
    std::unique_ptr<Object> obj;
    std::vector<Event> events;
    void note(const char* name, QVariant v)
    {
        auto& o = *obj;
        events.push_back({name, std::move(v), {o.property("a").toInt(), o.property("b").toInt(), o.property("text").toString()}});
        for (auto n : names)
            if (o.property(n) != expect(n, events.back().at))
                events.back().name = "(inconsistent)";
    }
    Probe(int id, lager::cursor<Model> m)
        : id{id}
        , obj{std::make_unique<Object>(id, std::move(m))}
    {
        connect();
    }
    void connect()
    {
        QObject::connect(obj.get(), &Object::aChanged, [this](const int& v) { note("a", v); });
        QObject::connect(obj.get(), &Object::bChanged, [this](const int& v) { note("b", v); });
        QObject::connect(obj.get(), &Object::textChanged, [this](const QString& v) { note("text", v); });
        QObject::connect(obj.get(), &Object::sumChanged, [this](const int& v) { note("sum", v); });
        QObject::connect(obj.get(), &Object::lessChanged, [this](const bool& v) { note("less", v); });
    }
};

template <typename Tag>
void drive(mc::Run& run, int depth)
{
    constexpr bool transactional = std::is_same_v<Tag, lager::transactional_tag>;
    auto state                   = lager::make_state(Model{}, Tag{});
    lager::cursor<Model> root    = state;
    std::vector<std::unique_ptr<Probe>> probes;
    Model pending, seen;
    auto change = [&](auto f) {
        f(pending);
        if (!transactional && pending != seen)
            seen = pending;
    };
    auto make = [&] { probes.push_back(std::make_unique<Probe>(int(probes.size()) + 7, root)); };
    make();
    // what the object says about itself
    auto mo = probes[0]->obj->metaObject();
    for (auto n : {"id", "a", "b", "text", "sum", "less"}) {
        auto p        = mo->property(mo->indexOfProperty(n));
        std::string s = n;
        MC_CHECK(run, p.isValid() && p.isReadable(), "no property " << n);
        MC_CHECK(run, p.isWritable() == (s == "a" || s == "b" || s == "text"), n << " is writable: " << p.isWritable());
        MC_CHECK(run, p.isConstant() == (s == "id") && p.hasNotifySignal() == (s != "id"), n << " has a wrong signal");
        if (s != "id")
            MC_CHECK(run, p.notifySignal().name() == QByteArray(n) + "Changed", n << " has the wrong signal");
    }
    for (int i = 0; i < depth; ++i) {
        Model before = seen;
        for (auto& p : probes)
            if (p)
                p->events.clear();
        int c = run.choose(8 + transactional);
        run.step();
        auto alive = [&]() -> Object* {
            for (auto& p : probes)
                if (p)
                    return p->obj.get();
            return nullptr;
        };
        if (c < 4) {
            const char* n = c == 0 || c == 3 ? "a" : c == 1 ? "b" : "text";
            QVariant v    = c == 2 ? QVariant(pending.text.isEmpty() ? "x" : "") : QVariant(c == 3 ? seen.a : (c == 0 ? pending.a : pending.b) + 1);
            auto o        = alive();
            if (!o)
                run.prune();
            MC_LOG(run, "set the property " << n << " to " << str(v));
            MC_CHECK(run, o->setProperty(n, v), "cannot set the property");
            change([&](Model& m) {
                if (c == 0 || c == 3)
                    m.a = v.toInt();
                if (c == 1)
                    m.b = v.toInt();
                if (c == 2)
                    m.text = v.toString();
            });
        } else if (c == 4) {
            Model m{pending.b, pending.a, pending.text.isEmpty() ? "y" : ""};
            MC_LOG(run, "set the model to " << str(m));
            root.set(m);
            change([&](Model& o) { o = m; });
        } else if (c == 5) {
            MC_LOG(run, "set a property that can only be read");
            auto o = alive();
            if (!o)
                run.prune();
            MC_CHECK(run, !o->setProperty("sum", 5) && !o->setProperty("id", 5), "a property that can only be read was set");
        } else if (c == 6) {
            if (probes.size() >= 3)
                run.prune();
            MC_LOG(run, "make another object");
            make();
        } else if (c == 7) {
            std::size_t k = 0;
            while (k < probes.size() && !probes[k])
                ++k;
            if (k == probes.size())
                run.prune();
            MC_LOG(run, "delete an object");
            probes[k].reset();
        } else {
            MC_LOG(run, "commit");
            lager::commit(state);
            seen = pending;
        }
        for (auto& p : probes) {
            if (!p)
                continue;
            auto& o = *p->obj;
            MC_CHECK(run, o.property("id") == p->id && o.id() == p->id, "the constant changed");
            for (auto n : names)
                MC_CHECK(run, o.property(n) == expect(n, seen),
                         "the property " << n << " is " << str(o.property(n)) << " with " << str(seen));
            MC_CHECK(run, o.a() == seen.a && o.b() == seen.b && o.text() == seen.text && o.sum() == seen.a + seen.b &&
                              o.less() == (seen.a < seen.b),
                     "a getter is wrong");
            for (auto n : names) {
                int calls = 0;
                for (auto& e : p->events)
                    if (std::string(e.name) == n) {
                        ++calls;
                        MC_CHECK(run, e.value == expect(n, seen),
                                 n << "Changed came with " << str(e.value) << " instead of " << str(expect(n, seen)));
                    }
                int must = expect(n, seen) != expect(n, before);
                MC_CHECK(run, calls == must,
                         n << "Changed came " << calls << " times when the model went from " << str(before) << " to "
                           << str(seen));
            }
            for (auto& e : p->events) {
                MC_CHECK(run, std::string(e.name) != "(inconsistent)", "the properties did not fit together in a signal");
                MC_CHECK(run, e.at == seen, "in " << e.name << "Changed the properties were " << str(e.at) << " instead of "
                                                  << str(seen));
            }
        }
        mc::u64 h = mc::mix(mc::hash_str(str(seen)), mc::hash_str(str(pending)));
        for (auto& p : probes)
            h = mc::mix(h, !!p);
        run.state(h);
    }
    run.outcome(mc::hash_str(str(seen)));
}

// ---- QML: bindings on the properties

const char* qml = R"(
import QtQml 2.0
QtObject {
    property int mix: o.a * 10 + o.b
    property string label: o.text + ":" + o.sum
    property bool swapped: o.less
    property int mine: 0
    function put(a, b) { o.a = a; o.b = b }
    function putText(s) { o.text = s }
    property var _mixes: []
    onMixChanged: _mixes.push(mix)
    function mixes() { return _mixes.join(" ") }
}
)";

struct Qml
{
    QCoreApplication* app;
    QQmlEngine* engine;
    QQmlComponent* component;
};

// one per process: the application must not survive a fork
Qml& world()
{
    static int argc      = 1;
    static char name[]   = "check";
    static char* argv[]  = {name, nullptr};
    static pid_t owner   = 0;
    static Qml* q        = nullptr;
    if (owner != getpid()) {
        owner        = getpid();
        q            = new Qml{};
        q->app       = new QCoreApplication{argc, argv};
        q->engine    = new QQmlEngine{};
        q->component = new QQmlComponent{q->engine};
        q->component->setData(qml, {});
        for (auto& e : q->component->errors())
            std::fprintf(stderr, "%s\n", str(e.toString()).c_str());
    }
    return *q;
}

template <typename Tag>
void drive_qml(mc::Run& run, int depth)
{
    constexpr bool transactional = std::is_same_v<Tag, lager::transactional_tag>;
    auto state                   = lager::make_state(Model{}, Tag{});
    lager::cursor<Model> root    = state;
    auto& q                      = world();
    QQmlContext context{q.engine};
    auto obj = std::make_unique<Object>(7, root);
    context.setContextProperty("o", obj.get());
    std::unique_ptr<QObject> view{q.component->create(&context)};
    MC_CHECK(run, view, "QML does not load");
    Model pending, seen;
    std::string mixes;
    auto commit = [&] {
        seen = pending;
    };
    auto change = [&](auto f) {
        int before = seen.a * 10 + seen.b;
        f();
        if (!transactional)
            commit();
        if (seen.a * 10 + seen.b != before)
            mixes += (mixes.empty() ? "" : " ") + std::to_string(seen.a * 10 + seen.b);
    };
    auto check = [&] {
        MC_CHECK(run, view->property("mix").toInt() == seen.a * 10 + seen.b,
                 "a binding to a and b shows " << str(view->property("mix")) << " with " << str(seen));
        MC_CHECK(run, str(view->property("label")) == str(seen.text) + ":" + std::to_string(seen.a + seen.b),
                 "a binding to text and sum shows " << str(view->property("label")) << " with " << str(seen));
        MC_CHECK(run, view->property("swapped").toBool() == (seen.a < seen.b), "a binding to less is wrong");
        QVariant r;
        QMetaObject::invokeMethod(view.get(), "mixes", Q_RETURN_ARG(QVariant, r));
        MC_CHECK(run, str(r) == mixes, "the binding to a and b went through " << str(r) << " instead of " << mixes);
    };
    check();
    for (int i = 0; i < depth; ++i) {
        int c = run.choose(4 + transactional);
        run.step();
        if (c == 0) {
            MC_LOG(run, "QML: o.a = ..; o.b = ..");
            int a = pending.a + 1, b = pending.b + 1;
            QMetaObject::invokeMethod(view.get(), "put", Q_ARG(QVariant, a), Q_ARG(QVariant, b));
            change([&] { pending.a = a; });
            change([&] { pending.b = b; });
        } else if (c == 1) {
            MC_LOG(run, "QML: o.text = ..");
            auto t = pending.text + "x";
            QMetaObject::invokeMethod(view.get(), "putText", Q_ARG(QVariant, t));
            change([&] { pending.text = t; });
        } else if (c == 2) {
            MC_LOG(run, "set the model");
            Model m{pending.b, pending.a + 2, "m"};
            root.set(m);
            change([&] { pending = m; });
        } else if (c == 3) {
            MC_LOG(run, "C++: setProperty");
            obj->setProperty("b", pending.b + 1);
            change([&] { ++pending.b; });
        } else {
            MC_LOG(run, "commit");
            lager::commit(state);
            change([&] { commit(); });
        }
        check();
        run.state(mc::mix(mc::hash_str(str(seen)), mc::hash_str(str(pending))));
    }
    run.outcome(mc::hash_str(mixes));
}

} // namespace

MC_SCENARIO(automatic, 2) { drive<lager::automatic_tag>(run, run.bound(7, 8)); }
MC_SCENARIO(transactional, 2) { drive<lager::transactional_tag>(run, run.bound(7, 8)); }
MC_SCENARIO(qml_automatic, 2) { drive_qml<lager::automatic_tag>(run, run.bound(5, 7)); }
MC_SCENARIO(qml_transactional, 2) { drive_qml<lager::transactional_tag>(run, run.bound(5, 7)); }
