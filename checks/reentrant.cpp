// C06: watchers may do things while notifications are being delivered.
#include "../engine/mc.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>

#include <memory>
#include <vector>

namespace {

struct Entry
{
    std::unique_ptr<lager::reader<int>> h;
    int src = -1;               // which function of (R, Q)
    int old = -1;               // ... before it was reassigned
    std::vector<int> ids;       // ids of watchers connected
};

// functions of (r,q)
int fn(int src, int r, int q)
{
    switch (src) {
    case 0: return r;
    case 1: return r / 2;
    case 2: return r + q;
    case 3: return q;
    case 4: return (r / 2) * 10; // derived from 1
    }
    return 0;
}

template <typename TagR>
struct World
{
    mc::Run& run;
    bool automatic = std::is_same_v<TagR, lager::automatic_tag>;
    lager::state<int, TagR> R{4};
    lager::state<int, lager::automatic_tag> Q{100};
    int r = 4, q = 100; // latest values committed
    std::vector<int> rs, qs; // those committed during an outer change
    std::vector<Entry> e;
    struct Call
    {
        int id, value;
    };
    std::vector<Call> calls;
    int next_id = 0;
    int running = 0; // depth of watcher calls
    std::string error;

    struct Action
    {
        int kind, arg;
    };
    std::vector<std::vector<Action>> script; // per watcher id (only first ones)
    std::vector<char> done;

    World(mc::Run& x)
        : run(x)
    {}

    lager::reader<int> make(int src)
    {
        switch (src) {
        case 0: return R;
        case 1: return R.map([](int x) { return x / 2; });
        case 2: return lager::with(R, Q).map([](int a, int b) { return a + b; });
        case 3: return Q;
        case 4:
            return R.map([](int x) { return x / 2; })
                .make()
                .map([](int x) { return x * 10; });
        }
        std::abort();
    }

    void connect(int i)
    {
        int id = next_id++;
        e[i].ids.push_back(id);
        e[i].h->watch([this, id](int v) { called(id, v); });
    }

    int owner(int id)
    {
        for (int i = 0; i < int(e.size()); ++i)
            for (int x : e[i].ids)
                if (x == id)
                    return i;
        return -1;
    }

    void called(int id, int v)
    {
        if (owner(id) < 0 && error.empty())
            error = "watcher #" + std::to_string(id) +
                    " was called after it had been disposed";
        calls.push_back({id, v});
        if (int o = owner(id); o >= 0 && error.empty()) {
            bool known = false;
            for (int a : rs)
                for (int b : qs)
                    known = known || fn(e[o].src, a, b) == v || fn(e[o].old, a, b) == v;
            if (!known)
                error = "watcher #" + std::to_string(id) + " was called with " + std::to_string(v) +
                        ", which no committed state has";
        }
        if (calls.size() > 200) {
            error = "endless notifications";
            return;
        }
        if (id < int(script.size()) && !done[id]) {
            done[id] = 1;
            auto todo = script[id];
            for (auto& a : todo)
                act(a);
        }
    }

    void set_r(int x)
    {
        r = x;
        rs.push_back(r);
        R.set(x);
    }
    void set_q(int x)
    {
        q = x;
        qs.push_back(q);
        Q.set(x);
    }

    void act(Action a)
    {
        int j = a.arg;
        switch (a.kind) {
        case 0: break;
        case 1:
            set_q(200 + j);
            break;
        case 2: set_r(40 + j); break;
        case 3: // new derived reader with a watcher
            e.push_back({});
            e.back().h   = std::make_unique<lager::reader<int>>(make(j));
            e.back().src = j;
            connect(int(e.size()) - 1);
            break;
        case 4: { // derive from an existing handle and drop
            lager::reader<int> tmp = make(j);
            (void) tmp.get();
            break;
        }
        case 5: // destroy another handle
            e[j].ids.clear();
            e[j].h.reset();
            e[j].src = -1;
            break;
        case 6:
            if (!e[j].h)
                return;
            e[j].ids.clear();
            e[j].h->unbind();
            break;
        case 7:
            if (!e[j].h)
                return;
            connect(j);
            break;
        case 8: // reassign another handle to Q
            if (!e[j].h)
                return;
            *e[j].h  = make(3);
            if (e[j].src != 3)
                e[j].old = e[j].src;
            e[j].src = 3;
            break;
        case 13: // replace all watchers of a handle by a new one
            if (!e[j].h)
                return;
            e[j].ids.clear();
            e[j].h->unbind();
            connect(j);
            break;
        case 14: // replace a handle by a copy of itself
            if (!e[j].h)
                return;
            e[j].ids.clear();
            e[j].h = std::make_unique<lager::reader<int>>(*e[j].h);
            connect(j);
            break;
        case 9: // write back the same value
            R.set(r);
            break;
        case 10: // write and commit (transactional roots)
            set_r(60 + j);
            lager::commit(R);
            break;
        case 15: // write and leave it pending
            R.set(70 + j);
            break;
        case 11: // nudge another handle
            if (!e[j].h)
                return;
            e[j].h->nudge();
            break;
        case 12: // assign another handle to itself
            if (!e[j].h)
                return;
            *e[j].h = *e[j].h;
            break;
        }
    }
};

template <typename Tag>
void history(mc::Run& run, int nact, int nscripts)
// nscripts watchers do nact actions each
{
    World<Tag> w{run};
    static const int layouts[][4] = {
        {0, 0, 1, 2}, {1, 4, 2, 0}, {0, 2, 2, 3}, {4, 4, 1, 0}, {0, 1, 4, 3}};
    // (pending values and merged readers: see C01)
    int layout = run.choose(w.automatic ? 4 : 5);
    auto& lay  = layouts[layout];
    int n     = 4;
    w.e.reserve(64);
    // share: 0 separate nodes, 1: entries 1 share the node of entry 0
    for (int i = 0; i < n; ++i) {
        w.e.push_back({});
        w.e.back().h   = std::make_unique<lager::reader<int>>(w.make(lay[i]));
        w.e.back().src = lay[i];
    }
    for (int i = 0; i < n; ++i)
        w.connect(i);
    w.connect(0); // two watchers in the first handle
    // which watchers act (others do nothing)
    w.script.assign(n + 1, {});
    w.done.assign(n + 1, 0);
    struct A
    {
        int kind, arg;
    };
    std::vector<A> acts;
    for (int j = 0; j < 2; ++j)
        acts.push_back({1, j});
    if (w.automatic)
        acts.push_back({2, 0}), acts.push_back({2, 1});
    else
        acts.push_back({10, 0}), acts.push_back({10, 1});
    for (int j : {0, 1, 2, 3, 4})
        if (layout != 4 || j != 2)
            acts.push_back({3, j});
    acts.push_back({4, 4});
    if (layout != 4)
        acts.push_back({4, 2});
    else
        acts.push_back({15, 0});
    for (int j = 0; j < n; ++j) {
        acts.push_back({5, j});
        acts.push_back({6, j});
        acts.push_back({7, j});
        acts.push_back({8, j});
        acts.push_back({11, j});
        acts.push_back({12, j});
        acts.push_back({13, j});
        acts.push_back({14, j});
    }
    acts.push_back({9, 0});
    int first = -1;
    for (int k = 0; k < nscripts; ++k) {
        int id = run.choose(n + 1);
        if (id <= first)
            run.prune();
        first = id;
        for (int i = 0; i < nact; ++i) {
            auto a = acts[run.choose(int(acts.size()))];
            w.script[id].push_back({a.kind, a.arg});
            MC_LOG(run, "watcher #" << id << " does action " << a.kind << "/" << a.arg);
        }
    }
    auto outer = [&](int what, int value, bool quiet) {
        w.calls.clear();
        w.rs = {w.r};
        w.qs = {w.q};
        // survivors: watchers connected before with their entry
        struct Before
        {
            int id, entry, value, src;
        };
        std::vector<Before> before;
        for (int i = 0; i < int(w.e.size()); ++i)
            for (int id : w.e[i].ids)
                before.push_back({id, i, fn(w.e[i].src, w.r, w.q), w.e[i].src});
        if (what == 0) {
            MC_LOG(run, "R.set(" << value << ")" << (w.automatic ? "" : ";commit"));
            w.set_r(value);
            if (!w.automatic)
                lager::commit(w.R);
        } else {
            MC_LOG(run, "Q.set(" << value << ")");
            w.set_q(value);
        }
        run.step();
        MC_CHECK(run, w.error.empty(), w.error);
        MC_CHECK(run, w.R.get() == w.r, "R reads " << w.R.get() << " expected " << w.r);
        MC_CHECK(run, w.Q.get() == w.q, "Q reads " << w.Q.get() << " expected " << w.q);
        for (int i = 0; i < int(w.e.size()); ++i)
            if (w.e[i].h) {
                int v = w.e[i].h->get();
                MC_CHECK(run, v == fn(w.e[i].src, w.r, w.q),
                         "handle " << i << " reads " << v << ", expected "
                                   << fn(w.e[i].src, w.r, w.q));
            }
        for (auto& b : before) {
            if (w.owner(b.id) != b.entry)
                continue; // disposed meanwhile
            if (w.e[b.entry].src != b.src)
                continue; // reassigned meanwhile
            int nv = fn(b.src, w.r, w.q), c = 0, last = 0;
            for (auto& x : w.calls)
                if (x.id == b.id)
                    ++c, last = x.value;
            if (nv != b.value) {
                MC_CHECK(run, c >= 1, "watcher #" << b.id << " missed the change "
                                                  << b.value << "->" << nv);
                MC_CHECK(run, last == nv, "the last value seen by watcher #"
                                              << b.id << " is " << last
                                              << " but it is " << nv);
            }
            if (quiet)
                MC_CHECK(run, c == (nv != b.value ? 1 : 0),
                         "watcher #" << b.id << " called " << c
                                     << " times for one plain change");
        }
        mc::u64 h = 0;
        for (auto& c : w.calls)
            h = mc::mix(h, c.id * 1000 + c.value);
        run.state(h);
        run.outcome(h);
    };
    outer(0, 10, false);
    outer(1, 300, false);
    for (size_t i = 0; i < w.done.size(); ++i)
        w.done[i] = 1; // no more actions
    outer(0, 20, true);
    outer(1, 400, true);
    outer(0, 30, true);
}

} // namespace

MC_SCENARIO(automatic1, 2) { history<lager::automatic_tag>(run, 1, 1); }
MC_SCENARIO(transactional1, 2) { history<lager::transactional_tag>(run, 1, 1); }
MC_SCENARIO(automatic2, 3) { history<lager::automatic_tag>(run, 1, 2); }
MC_SCENARIO(transactional2, 3) { history<lager::transactional_tag>(run, 1, 2); }
// one watcher does several things
MC_SCENARIO(automatic_sequence, 3) { history<lager::automatic_tag>(run, run.bound(3, 4), 1); }
MC_SCENARIO(transactional_sequence, 3) { history<lager::transactional_tag>(run, run.bound(3, 4), 1); }
MC_SCENARIO_THOROUGH(automatic3, 4) { history<lager::automatic_tag>(run, 1, 3); }
MC_SCENARIO_THOROUGH(transactional3, 4) { history<lager::transactional_tag>(run, 1, 3); }
