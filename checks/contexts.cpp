// C11: conversions of contexts, effects, results and stores.  Every chain of
// conversions up to a depth is walked and what is dispatched at the end must
// reach the store unchanged, with the right dependencies.
// C12: what dispatching through them and evaluating them returns is ready when
// the work is done (*_futures).
#include "../engine/mc.hpp"

#include <lager/context.hpp>
#include <lager/effect.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/store.hpp>

#include <algorithm>
#include <memory>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

namespace {

struct A
{
    int v;
};
struct B
{
    int v;
};
struct C
{
    int v;
};
struct Sub // reaches the store only through a converter
{
    int v;
};
using Any  = std::variant<A, B, C>;
using AB   = lager::actions<A, B>;
using BA   = lager::actions<B, A>;
using CAB  = lager::actions<C, A, B>;
struct VAB // some other type of action, convertible from and to others
{
    std::variant<A, B> v;
    VAB(A a)
        : v{a}
    {}
    VAB(B b)
        : v{b}
    {}
    operator Any() const
    {
        return std::visit([](auto x) -> Any { return x; }, v);
    }
};
using AnyC = lager::actions<Any, C>;
using D0 = lager::deps<>;
using D1 = lager::deps<int>;
using D2 = lager::deps<int, std::string&>;
using D3 = lager::deps<std::string&, lager::dep::opt<double>>;

std::string str(const Any& a)
{
    static const char* n[] = {"A", "B", "C"};
    return n[a.index()] + std::to_string(std::visit([](auto x) { return x.v; }, a));
}

std::vector<std::string>* log_;

template <typename Deps>
void check_deps(mc::Run& run, const Deps& d, std::string& s)
{
    if constexpr (std::is_convertible_v<Deps, D1>)
        MC_CHECK(run, d.template get<int>() == 42, "wrong dependency: " << d.template get<int>());
    if constexpr (std::is_convertible_v<Deps, lager::deps<std::string&>>)
        MC_CHECK(run, &d.template get<std::string>() == &s, "a reference dependency refers to another object");
    if constexpr (std::is_same_v<Deps, D3>)
        MC_CHECK(run, !d.template has<double>(), "an optional dependency came from nowhere");
}

template <typename... Ts>
struct types
{};
template <typename... Ts>
constexpr int count(types<Ts...>)
{
    return sizeof...(Ts);
}
template <typename... Ts, typename Fn>
void each(types<Ts...>, Fn&& fn)
{
    (fn(static_cast<Ts*>(nullptr)), ...);
}

// ---- contexts ---------------------------------------------------------------

template <typename Ctx>
struct ctx_of;
template <typename As, typename Ds>
struct ctx_of<lager::context<As, Ds>>
{
    using actions = As;
    using deps    = Ds;
};

using contexts = types<lager::context<Any, D2>,
                            lager::context<AB, D2>,
                            lager::context<BA, D1>,
                            lager::context<A, D1>,
                            lager::context<B, D0>,
                            lager::context<C, D3>,
                            lager::context<CAB, D2>,
                            lager::context<VAB, D2>,
                            lager::context<lager::actions<C, VAB>, D2>,
                            lager::context<void, D1>,
                            lager::context<lager::actions<>, D0>>;
const char* context_names[] = {"Any,D2", "actions<A,B>,D2", "actions<B,A>,D1", "A,D1", "B", "C,D3",
                               "actions<C,A,B>,D2", "VAB,D2", "actions<C,VAB>,D2",
                               "void,D1", "actions<>"};
// with a converter of their own
using sub_contexts = types<lager::context<Sub, D1>, lager::context<lager::actions<Sub, B>, D1>>;

struct Conv
{
    int add;
    Any operator()(Sub s) const { return A{s.v + add}; }
    Any operator()(B b) const { return B{b.v + add}; }
};

template <typename T, typename Actions>
struct handles : std::false_type
{};
template <typename T, typename... As>
struct handles<T, lager::actions<As...>>
    : std::bool_constant<((std::is_same_v<T, As> ||
                           (std::is_convertible_v<T, As> && sizeof...(As) == 1)) ||
                          ...)>
{};
template <typename T, typename Ctx>
constexpr bool can_v = handles<T, lager::as_actions_t<typename ctx_of<Ctx>::actions>>::value;

struct World
{
    mc::Run& run;
    std::string text = "k";
    int next         = 0;
    int sub_add      = 0;
    // with futures
    lager::queue_event_loop* queue = nullptr;
    bool late                      = false; // chained once the work is done
    void step()
    {
        if (queue)
            queue->step();
    }
};

template <typename Ctx, typename T>
void send(World& w, const Ctx& ctx, T&& x)
{
    if (!w.queue) {
        ctx.dispatch(std::forward<T>(x));
        return;
    }
    auto pre       = log_->size();
    auto f         = ctx.dispatch(std::forward<T>(x));
    std::size_t at = 0;
    int ran        = 0;
    if (w.late)
        w.step();
    std::move(f).then([&] {
        ++ran;
        at = log_->size();
    });
    MC_CHECK(w.run, w.late || log_->size() == pre, "an action was processed outside of the loop");
    w.step();
    MC_CHECK(w.run, ran == 1, "the continuation of a dispatch ran " << ran << " times");
    MC_CHECK(w.run, at == pre + 1, "the continuation of a dispatch ran before the action was processed");
}

template <typename T, typename Ctx>
void try_dispatch(World& w, const Ctx& ctx, int add = 0)
{
    if constexpr (can_v<T, Ctx>) {
        int v    = ++w.next;
        auto pre = log_->size();
        if (w.run.flip()) {
            T lv{v};
            send(w, ctx, lv);
        } else
            send(w, ctx, T{v});
        Any want = [&]() -> Any {
            if constexpr (std::is_same_v<T, Sub>)
                return A{v + w.sub_add};
            else
                return T{v + add};
        }();
        MC_CHECK(w.run, log_->size() == pre + 1 && log_->back() == str(want),
                 "dispatched " << str(want) << ", and the store received " << log_->size() - pre
                               << " actions" << (log_->size() > pre ? ", last " + log_->back() : ""));
    }
}
template <typename Ctx>
void dispatch_all(World& w, const Ctx& ctx, int add = 0)
{
    check_deps(w.run, static_cast<const typename ctx_of<Ctx>::deps&>(ctx), w.text);
    try_dispatch<A>(w, ctx, add);
    try_dispatch<B>(w, ctx, add);
    try_dispatch<C>(w, ctx, add);
    try_dispatch<Sub>(w, ctx);
    bool posted = false;
    ctx.loop().post([&] { posted = true; });
    w.step();
    MC_CHECK(w.run, posted, "a converted context lost its event loop");
    if constexpr (can_v<Sub, Ctx>) { // nested converter
        if constexpr (can_v<B, Ctx>) {
            lager::context<B, D0> sub{ctx};
            try_dispatch<B>(w, sub, add);
        }
        lager::context<C, D0> odd{ctx, [](C c) { return Sub{c.v}; }};
        int v = ++w.next;
        send(w, odd, C{v});
        MC_CHECK(w.run, log_->back() == str(A{v + w.sub_add}), "a nested converter was lost");
    }
}

template <typename Ctx>
void walk(World& w, const Ctx& ctx, int depth)
{
    w.run.step();
    if (depth == 0 || w.run.flip()) {
        dispatch_all(w, ctx);
        w.run.outcome(mc::mix(log_->size(), typeid(Ctx).hash_code()));
        return;
    }
    int n = w.run.choose(int(count(contexts{})) + 2);
    w.run.state(mc::mix(mc::mix(depth, n), typeid(Ctx).hash_code()));
    int i = 0;
    auto one = [&](auto* p) {
        using To = std::decay_t<decltype(*p)>;
        if (i++ != n)
            return;
        if constexpr (std::is_convertible_v<Ctx, To>) {
            MC_LOG(w.run, "convert to context<" << context_names[n] << ">");
            if (w.run.flip()) {
                To to = ctx;
                walk(w, to, depth - 1);
            } else {
                auto copy = std::make_unique<Ctx>(ctx);
                To to{*copy};
                copy.reset(); // the source may go away
                To again{to};
                again = to;
                walk(w, again, depth - 1);
            }
        } else
            w.run.prune();
    };
    each(contexts{}, one);
    if (n >= int(count(contexts{}))) {
        // through a converter, to a leaf
        auto sub = [&](auto* p) {
            using To = std::decay_t<decltype(*p)>;
            if (i++ != n)
                return;
            // (converted to whole actions of the store)
            if constexpr (can_v<Any, Ctx> && std::is_convertible_v<typename ctx_of<Ctx>::deps, D1>) {
                MC_LOG(w.run, "convert with a converter");
                w.sub_add = 100 * (depth + 1);
                dispatch_all(w, To{ctx, Conv{w.sub_add}}, w.sub_add);
                w.run.outcome(n);
            } else
                w.run.prune();
        };
        each(sub_contexts{}, sub);
    }
}

struct Model
{
    int n = 0;
};

template <typename Fn>
void with_store(mc::Run& run, Fn&& fn)
{
    World w{run};
    std::vector<std::string> log;
    log_       = &log;
    auto store = lager::make_store<Any>(Model{}, lager::with_manual_event_loop{},
                                        lager::with_reducer([&](Model m, Any a) {
                                            log.push_back(str(a));
                                            ++m.n;
                                            return m;
                                        }),
                                        lager::with_deps(42, std::ref(w.text)));
    fn(w, store);
}
template <typename Fn>
void with_future_store(mc::Run& run, Fn&& fn)
{
    World w{run};
    std::vector<std::string> log;
    log_ = &log;
    lager::queue_event_loop queue;
    w.queue    = &queue;
    w.late     = run.flip();
    auto store = lager::make_store<Any>(Model{}, lager::with_queue_event_loop{queue},
                                        lager::with_reducer([&](Model m, Any a) {
                                            log.push_back(str(a));
                                            ++m.n;
                                            return m;
                                        }),
                                        lager::with_deps(42, std::ref(w.text)),
                                        lager::with_futures);
    fn(w, store);
}

// ---- effects ----------------------------------------------------------------

// an effect together with what it is expected to dispatch
template <typename Eff>
struct Expected
{
    Eff eff;
    std::vector<std::string> want;
    std::vector<std::string> awaited = {}; // by the future it returns
    void append(const std::vector<std::string>& w, const std::vector<std::string>& a)
    {
        want.insert(want.end(), w.begin(), w.end());
        awaited.insert(awaited.end(), a.begin(), a.end());
    }
};

using effects = types<lager::effect<A, D1>,
                           lager::effect<B, D0>,
                           lager::effect<AB, D1>,
                           lager::effect<CAB, D2>,
                           lager::effect<VAB, D0>,
                           lager::effect<Any, D2>,
                           lager::effect<lager::actions<C, VAB>, D2>>;
const char* effect_names[] = {"A,D1", "B", "actions<A,B>,D1", "actions<C,A,B>,D2", "VAB", "Any,D2",
                              "actions<C,VAB>,D2"};

template <typename Eff>
Expected<Eff> atom(World& w, int kind)
{
    using ctx_t = typename Eff::context_t;
    auto* wp    = &w;
    int v       = ++w.next;
    switch (kind) {
    case 0: return {Eff{}, {}};
    case 1: return {Eff{lager::noop}, {}};
    case 2: {
        Expected<Eff> e;
        auto add = [&](auto a) {
            using T = decltype(a);
            if constexpr (handles<T, lager::as_actions_t<typename Eff::action_t>>::value)
                e.want.push_back(str(Any{T{v}}));
        };
        add(A{}), add(B{}), add(C{});
        e.eff = [wp, v](const ctx_t& ctx) -> void {
            check_deps(wp->run, static_cast<const typename Eff::deps_t&>(ctx), wp->text);
            auto go = [&](auto a) {
                using T = decltype(a);
                if constexpr (handles<T, lager::as_actions_t<typename Eff::action_t>>::value)
                    ctx.dispatch(T{v});
            };
            go(A{}), go(B{}), go(C{});
        };
        return e;
    }
    default: {
        using As = lager::as_actions_t<typename Eff::action_t>;
        using T  = std::conditional_t<handles<A, As>::value, A, std::conditional_t<handles<B, As>::value, B, C>>;
        return {[v](const ctx_t& ctx) -> lager::future { return ctx.dispatch(T{v}); }, {str(Any{T{v}})}, {str(Any{T{v}})}};
    }
    }
}

template <typename Ctx, typename Eff>
void finish_effect(World& w, const Ctx& ctx, Expected<Eff>& e)
{
    if constexpr (std::is_convertible_v<Ctx, typename Eff::context_t>) {
        auto pre = log_->size();
        int ran  = 0;
        std::vector<std::string> before; // the continuation
        if (e.eff) {
            auto f = e.eff(ctx);
            if (w.queue) {
                if (w.late)
                    w.step();
                std::move(f).then([&] {
                    ++ran;
                    before = *log_;
                });
                w.step();
                MC_CHECK(w.run, ran == 1, "the continuation of an effect ran " << ran << " times");
                for (auto& a : e.awaited)
                    MC_CHECK(w.run,
                             std::count(before.begin(), before.end(), a) == 1,
                             "the continuation of an effect did not wait for " << a);
            }
        } else
            MC_CHECK(w.run, e.want.empty(), "an effect was lost in a conversion");
        std::vector<std::string> got(log_->begin() + pre, log_->end());
        if (got != e.want) {
            std::string g, s;
            for (auto& x : got)
                g += x + " ";
            for (auto& x : e.want)
                s += x + " ";
            w.run.fail("the effect dispatched " + g + "instead of " + s);
        }
        w.run.outcome(mc::mix(typeid(Eff).hash_code(), got.size()));
    } else
        w.run.prune();
}

template <typename Fn>
void pick_effect(World& w, int n, Fn&& fn)
{
    int i = 0;
    each(effects{}, [&](auto* p) {
        if (i++ == n)
            fn(p);
    });
}

template <typename Ctx, typename Eff>
void walk_effect(World& w, const Ctx& ctx, Expected<Eff> e, int depth)
{
    w.run.step();
    int op = depth == 0 ? 0 : w.run.choose(3);
    w.run.state(mc::mix(mc::mix(op, depth), mc::mix(typeid(Eff).hash_code(), e.want.size())));
    if (op == 0) {
        finish_effect(w, ctx, e);
    } else if (op == 1) { // convert
        int n = w.run.choose(int(count(effects{})));
        pick_effect(w, n, [&](auto* p) {
            using To = std::decay_t<decltype(*p)>;
            if constexpr (std::is_convertible_v<Eff, To>) {
                MC_LOG(w.run, "convert to effect<" << effect_names[n] << ">");
                walk_effect(w, ctx, Expected<To>{To{e.eff}, e.want, e.awaited}, depth - 1);
            } else
                w.run.prune();
        });
    } else { // sequence with another one, in this type
        bool first = w.run.flip();
        auto o     = atom<Eff>(w, w.run.choose(4));
        MC_LOG(w.run, "sequence with another effect of the same type, "
                          << (first ? "before" : "after"));
        Eff seq = first ? Eff{lager::sequence(o.eff, e.eff)} : Eff{lager::sequence(e.eff, o.eff)};
        auto& a = first ? o : e;
        auto& b = first ? e : o;
        Expected<Eff> both{seq, a.want, a.awaited};
        both.append(b.want, b.awaited);
        walk_effect(w, ctx, both, depth - 1);
    }
}

// sequences of effects of different types
template <typename Ctx>
void mixed_sequence(World& w, const Ctx& ctx)
{
    int i = w.run.choose(int(count(effects{})));
    int j = w.run.choose(int(count(effects{})));
    int k = w.run.choose(4), l = w.run.choose(4);
    MC_LOG(w.run, "sequence(effect<" << effect_names[i] << ">, effect<" << effect_names[j] << ">)");
    pick_effect(w, i, [&](auto* p) {
        using E1 = std::decay_t<decltype(*p)>;
        auto a   = atom<E1>(w, k);
        pick_effect(w, j, [&](auto* q) {
            using E2 = std::decay_t<decltype(*q)>;
            auto b   = atom<E2>(w, l);
            auto s   = lager::sequence(a.eff, b.eff);
            using S  = decltype(s);
            Expected<lager::effect<Any, D2>> e;
            if constexpr (std::is_convertible_v<S, lager::effect<Any, D2>>) {
                e.eff = s;
                e.append(a.want, a.awaited);
                if (w.run.flip()) {
                    auto c = atom<lager::effect<Any, D2>>(w, 3);
                    e.eff  = lager::sequence(a.eff, c.eff, b.eff);
                    e.append(c.want, c.awaited);
                }
                e.append(b.want, b.awaited);
                w.run.step();
                w.run.state(mc::mix(i * 10 + j, k * 4 + l));
                finish_effect(w, ctx, e);
            } else
                w.run.fail("a sequence of effects is not convertible to an effect with all actions and deps");
        });
    });
}

// ---- results of nested reducers ---------------------------------------------

struct Inner
{
    int n;
};

} // namespace

MC_SCENARIO(contexts, 3)
{
    with_store(run, [&](World& w, auto& store) {
        lager::context<Any, D2> ctx = store;
        walk(w, ctx, run.bound(5, 6));
    });
}
MC_SCENARIO(contexts_futures, 3)
{
    with_future_store(run, [&](World& w, auto& store) {
        lager::context<Any, D2> ctx = store;
        walk(w, ctx, run.bound(5, 6));
    });
}
MC_SCENARIO(effects_futures, 4)
{
    with_future_store(run, [&](World& w, auto& store) {
        int n = run.choose(int(count(effects{}))), k = run.choose(4);
        lager::context<Any, D2> ctx = store;
        pick_effect(w, n, [&](auto* p) {
            using E = std::decay_t<decltype(*p)>;
            walk_effect(w, ctx, atom<E>(w, k), run.bound(3, 4));
        });
    });
}
MC_SCENARIO(sequences_futures, 2)
{
    with_future_store(run, [&](World& w, auto& store) {
        lager::context<Any, D2> ctx = store;
        mixed_sequence(w, ctx);
    });
}
MC_SCENARIO(effects_converted, 4)
{
    with_store(run, [&](World& w, auto& store) {
        int n = run.choose(int(count(effects{}))), k = run.choose(4);
        lager::context<Any, D2> ctx = store;
        pick_effect(w, n, [&](auto* p) {
            using E = std::decay_t<decltype(*p)>;
            walk_effect(w, ctx, atom<E>(w, k), run.bound(4, 6));
        });
    });
}
MC_SCENARIO(effects_sequenced, 2)
{
    with_store(run, [&](World& w, auto& store) {
        lager::context<Any, D2> ctx = store;
        mixed_sequence(w, ctx);
    });
}
// a tree of reducers, whose results are converted on the way up
MC_SCENARIO(results_converted, 3)
{
    World w{run};
    std::vector<std::string> log;
    log_ = &log;
    struct M
    {
        int n = 0;
    };
    // effects only for the first action (theirs reach the same reducers)
    int k1 = run.choose(4), k2 = run.choose(4), shape = run.choose(5);
    std::vector<std::string> want;
    auto leaf = [&](Inner m, A a) -> lager::result<Inner, A, D1> {
        m.n += a.v;
        if (a.v != 1000)
            return m;
        auto e = atom<lager::effect<A, D1>>(w, k1);
        want.insert(want.end(), e.want.begin(), e.want.end());
        return {m, e.eff};
    };
    auto middle = [&](Inner m, A a) -> lager::result<Inner, AB, D1> {
        auto r = leaf(m, a);
        if (shape == 0 || a.v != 1000)
            return r;
        if (shape == 1)
            return {r.first, r.second};
        auto e = atom<lager::effect<B, D0>>(w, k2);
        want.insert(want.end(), e.want.begin(), e.want.end());
        return {r.first, lager::sequence(r.second, e.eff)};
    };
    auto store = lager::make_store<Any>(
        M{}, lager::with_manual_event_loop{},
        lager::with_reducer([&](M m, Any a) -> lager::result<M, Any, D2> {
            log.push_back(str(a));
            if (std::holds_alternative<A>(a)) {
                auto [in, eff] = middle(Inner{m.n}, std::get<A>(a));
                m.n            = in.n;
                if (shape == 3)
                    return {m, lager::effect<CAB, D2>{eff}};
                if (shape == 4)
                    return lager::result<M, CAB, D1>{m, eff};
                return {m, eff};
            }
            return m;
        }),
        lager::with_deps(42, std::ref(w.text)));
    want.push_back("A1000");
    store.dispatch(A{1000});
    run.step();
    run.state(mc::mix(shape, k1 * 4 + k2));
    std::string g, s;
    for (auto& x : log)
        g += x + " ";
    for (auto& x : want)
        s += x + " ";
    run.outcome(mc::hash_str(g));
    MC_CHECK(run, g == s, "the store received " << g << "instead of " << s);
}
