// C05: watchers belong to the reader object they were added to.
// All histories of handle operations over small sets of handles.
#include "../engine/mc.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <memory>
#include <optional>

namespace {

// sources of readers: 0 = A, 1 = B, 2 = A*2 (shared node), -1 = none
struct World
{
    mc::Run& run;
    lager::state<int> a{1};
    lager::state<int> b{100};
    lager::reader<int> a2;
    lager::cursor<int> ac, bc;
    int va = 1, vb = 100;
    std::vector<std::pair<int, int>> calls; // (watcher id, value)

    World(mc::Run& r)
        : run(r)
        , a2(a.map([](int x) { return x * 2; }))
        , ac(a)
        , bc(b)
    {}

    int value(int src) const { return src == 0 ? va : src == 1 ? vb : va * 2; }
};

// a handle of some type, with the model of its connections
template <typename HandleT>
struct Slot
{
    std::unique_ptr<HandleT> h = std::make_unique<HandleT>();
    int src                    = -1;
    std::vector<int> watchers;
    bool moved_from = false;
};

template <typename HandleT, bool Free>
void history(mc::Run& run, int nslots, int depth, int maxwatch)
{
    constexpr bool is_cursor = std::is_same_v<HandleT, lager::cursor<int>>;
    World w{run};
    std::vector<Slot<HandleT>> s(nslots);
    int next_id = 0;
    auto attach = [&](int i, int src) {
        if constexpr (is_cursor)
            *s[i].h = src == 0 ? w.ac : w.bc;
        else {
            if (src == 0)
                *s[i].h = w.a;
            else if (src == 1)
                *s[i].h = w.bc;
            else
                *s[i].h = w.a2;
        }
    };
    const int nsrc = is_cursor ? 2 : 3;
    enum
    {
        Change,
        Watch,
        Attach,
        CopyAssign,
        MoveAssign,
        CopyNew,
        MoveNew,
        Destroy,
        Unbind,
        Nudge,
        Bind,
        TempAssign,
        Pend,
    };
    struct Op
    {
        int t, i, j;
    };
    auto change = [&](int root) {
        w.calls.clear();
        MC_LOG(run, "change " << (root ? "B" : "A"));
        if (root == 0) {
            w.va = 3 - w.va; // back and forth
            w.a.set(w.va);
            lager::commit(w.a);
        } else {
            ++w.vb;
            w.b.set(w.vb);
            lager::commit(w.b);
        }
        for (int k = 0; k < nslots; ++k) {
            bool should = s[k].src >= 0 &&
                          (root == 0 ? s[k].src != 1 : s[k].src == 1);
            for (int id : s[k].watchers) {
                int n = 0, last = 0;
                for (auto& c : w.calls)
                    if (c.first == id)
                        ++n, last = c.second;
                if (s[k].moved_from)
                    continue;
                MC_CHECK(run, n == (should ? 1 : 0),
                         "watcher #" << id << " of h" << k << " was called "
                                     << n << " times, expected " << should);
                if (n)
                    MC_CHECK(run, last == w.value(s[k].src),
                             "watcher #" << id << " received " << last
                                         << " instead of "
                                         << w.value(s[k].src));
            }
        }
        // nobody else may be called
        for (auto& c : w.calls) {
            bool found = false;
            for (auto& sl : s)
                for (int id : sl.watchers)
                    found = found || id == c.first;
            MC_CHECK(run, found, "disposed watcher #" << c.first << " was called");
        }
    };
    auto dispose = [&](int i) {
        s[i].watchers.clear();
        s[i].moved_from = false;
    };
    bool pended = false;
    for (int d = 0; d < depth; ++d) {
        std::vector<Op> ops;
        ops.push_back({Change, 0, 0});
        ops.push_back({Change, 1, 0});
        bool last = d + 1 == depth;
        if (!last && !pended)
            ops.push_back({Pend, 0, 0});
        if (!last)
            for (int i = 0; i < nslots; ++i) {
                if (int(s[i].watchers.size()) < maxwatch && !s[i].moved_from) {
                    ops.push_back({Watch, i, 0});
                    if (s[i].src >= 0)
                        ops.push_back({Bind, i, 0});
                }
                for (int k = 0; k < nsrc; ++k)
                    ops.push_back({Attach, i, k});
                for (int j = 0; j < nslots; ++j) {
                    if (s[j].moved_from)
                        continue;
                    ops.push_back({CopyAssign, i, j});
                    if (i != j)
                        ops.push_back({MoveAssign, i, j});
                    if (i != j) {
                        ops.push_back({CopyNew, i, j});
                        ops.push_back({MoveNew, i, j});
                    }
                }
                ops.push_back({Destroy, i, 0});
                if (!s[i].moved_from)
                    ops.push_back({Unbind, i, 0});
                if (s[i].src >= 0)
                    ops.push_back({Nudge, i, 0});
                ops.push_back({TempAssign, i, 0});
            }
        auto op = ops[run.choose(int(ops.size()))];
        int i = op.i, j = op.j;
        switch (op.t) {
        case Change: change(op.i); break;
        case Pend:
            // a write that is not committed: nobody may see it
            MC_LOG(run, "A.set(77), not committed");
            pended = true;
            w.calls.clear();
            w.a.set(77);
            MC_CHECK(run, w.calls.empty(), "a watcher was called without commit");
            break;
        case Watch:
        case Bind: {
            int id  = next_id++;
            auto cb = [&w, id](int v) { w.calls.emplace_back(id, v); };
            w.calls.clear();
            MC_LOG(run, "h" << i << (op.t == Bind ? ".bind" : ".watch") << " #"
                            << id);
            if (op.t == Bind) {
                s[i].h->bind(cb);
                MC_CHECK(run, w.calls.size() == 1 &&
                                  w.calls[0].second == w.value(s[i].src),
                         "bind() did not call its callback once with the "
                         "current value");
            } else {
                if (Free)
                    lager::watch(*s[i].h, cb);
                else
                    s[i].h->watch(cb);
                MC_CHECK(run, w.calls.empty(), "watch() called its callback");
            }
            s[i].watchers.push_back(id);
            break;
        }
        case Attach:
            MC_LOG(run, "h" << i << " = source " << j);
            attach(i, j);
            s[i].src        = j;
            s[i].moved_from = false;
            break;
        case CopyAssign:
            MC_LOG(run, "h" << i << " = h" << j);
            *s[i].h         = *s[j].h;
            s[i].src        = s[j].src;
            s[i].moved_from = false;
            break;
        case MoveAssign:
            MC_LOG(run, "h" << i << " = move(h" << j << ")");
            *s[i].h         = std::move(*s[j].h);
            s[i].src        = s[j].src;
            s[i].moved_from = false;
            s[j].moved_from = true;
            s[j].src        = -1;
            break;
        case CopyNew:
            MC_LOG(run, "h" << i << " : new handle copied from h" << j);
            s[i].h = std::make_unique<HandleT>(*s[j].h);
            dispose(i);
            s[i].src = s[j].src;
            break;
        case MoveNew:
            MC_LOG(run, "h" << i << " : new handle moved from h" << j);
            s[i].h = std::make_unique<HandleT>(std::move(*s[j].h));
            dispose(i);
            s[i].src        = s[j].src;
            s[j].moved_from = true;
            s[j].src        = -1;
            break;
        case Destroy:
            MC_LOG(run, "h" << i << " : new empty handle");
            s[i].h = std::make_unique<HandleT>();
            dispose(i);
            s[i].src = -1;
            break;
        case TempAssign: {
            // assigned from a temporary that has a watcher of its own
            MC_LOG(run, "h" << i << " = temporary with a watcher");
            HandleT tmp;
            if constexpr (is_cursor)
                tmp = w.ac;
            else
                tmp = w.a2;
            int id = next_id++;
            tmp.watch([&w, id](int v) { w.calls.emplace_back(id, v); });
            *s[i].h         = tmp;
            s[i].src        = is_cursor ? 0 : 2;
            s[i].moved_from = false;
            break;
        }
        case Unbind:
            MC_LOG(run, "h" << i << ".unbind()");
            s[i].h->unbind();
            s[i].watchers.clear();
            break;
        case Nudge: {
            MC_LOG(run, "h" << i << ".nudge()");
            w.calls.clear();
            s[i].h->nudge();
            MC_CHECK(run, w.calls.size() == s[i].watchers.size(),
                     "nudge() made " << w.calls.size() << " calls, expected "
                                     << s[i].watchers.size());
            for (size_t k = 0; k < w.calls.size(); ++k) {
                bool mine = false;
                for (int id : s[i].watchers)
                    mine = mine || id == w.calls[k].first;
                MC_CHECK(run, mine, "nudge() called a foreign watcher");
                MC_CHECK(run, w.calls[k].second == w.value(s[i].src),
                         "nudge() passed a wrong value");
            }
            break;
        }
        }
        // readable values
        for (int k = 0; k < nslots; ++k) {
            if (s[k].src >= 0) {
                int v = s[k].h->get();
                MC_CHECK(run, v == w.value(s[k].src),
                         "h" << k << " reads " << v << ", expected "
                             << w.value(s[k].src));
            } else if (!s[k].moved_from) {
                bool thrown = false;
                try {
                    (void) s[k].h->get();
                } catch (const std::runtime_error&) {
                    thrown = true;
                }
                MC_CHECK(run, thrown, "reading an uninitialized handle did not throw");
                if constexpr (is_cursor) {
                    thrown = false;
                    try {
                        s[k].h->set(1);
                    } catch (const std::runtime_error&) {
                        thrown = true;
                    }
                    MC_CHECK(run, thrown, "writing to an uninitialized handle did not throw");
                }
            }
        }
        run.step();
        mc::u64 hs = 0;
        for (auto& x : s)
            hs = mc::mix(hs, x.src * 100 + x.watchers.size() * 10 + x.moved_from);
        run.state(hs);
    }
}

} // namespace

MC_SCENARIO(readers2, 2)
{
    history<lager::reader<int>, false>(run, 2, run.bound(5, 6), 2);
}
MC_SCENARIO(cursors2, 2)
{
    history<lager::cursor<int>, true>(run, 2, run.bound(5, 6), 2);
}
MC_SCENARIO(readers3, 2)
{
    history<lager::reader<int>, true>(run, 3, run.bound(4, 5), 1);
}
MC_SCENARIO(readers2_mem, 2)
{
    history<lager::reader<int>, false>(run, 2, run.bound(4, 5), 1);
}
MC_SCENARIO(cursors2_mem, 2)
{
    history<lager::cursor<int>, false>(run, 2, run.bound(4, 5), 1);
}

// ---- the root objects themselves are watchable handles ---------------------

MC_SCENARIO(states_as_handles, 1)
{
    // states are movable: watchers added to a state stay with that object
    int depth = run.bound(5, 6);
    std::vector<std::unique_ptr<lager::state<int>>> st;
    std::vector<int> val{1, 100};
    std::vector<std::vector<int>> watchers(2);
    std::vector<std::pair<int, int>> calls;
    st.push_back(std::make_unique<lager::state<int>>(1));
    st.push_back(std::make_unique<lager::state<int>>(100));
    // observers derived before any move keep following the value
    std::vector<lager::reader<int>> obs{*st[0], *st[1]};
    std::vector<int> obs_of{0, 1};
    int next_id = 0;
    bool moved[2] = {false, false};
    for (int d = 0; d < depth; ++d) {
        int n = run.choose(7);
        switch (n) {
        case 0:
        case 1: {
            if (moved[n])
                run.prune();
            calls.clear();
            st[n]->set(++val[n]);
            lager::commit(*st[n]);
            MC_LOG(run, "change s" << n);
            for (int id : watchers[n]) {
                int c = 0;
                for (auto& x : calls)
                    c += x.first == id && x.second == val[n];
                MC_CHECK(run, c == 1, "watcher of state called " << c << " times");
            }
            if (!moved[0] && !moved[1])
                MC_CHECK(run, calls.size() == watchers[n].size(),
                         "unexpected calls");
            break;
        }
        case 2:
        case 3: {
            int i = n - 2;
            if (moved[i] || watchers[i].size() > 1)
                run.prune();
            int id = next_id++;
            MC_LOG(run, "s" << i << ".watch #" << id);
            st[i]->watch([&calls, id](int v) { calls.emplace_back(id, v); });
            watchers[i].push_back(id);
            break;
        }
        case 4: // s0 = move(s1)
            if (moved[1])
                run.prune();
            MC_LOG(run, "s0 = move(s1)");
            *st[0] = std::move(*st[1]);
            val[0] = val[1];
            for (auto& o : obs_of)
                o = o == 1 ? 0 : -1; // the old value of s0 can't change again
            moved[0] = false;
            moved[1] = true;
            watchers[1].clear();
            break;
        case 5: // new state from move(s0)
            if (moved[0])
                run.prune();
            MC_LOG(run, "s0 : new state moved from s0");
            st[0] = std::make_unique<lager::state<int>>(std::move(*st[0]));
            watchers[0].clear();
            break;
        case 6:
            if (moved[1])
                run.prune();
            MC_LOG(run, "s1.unbind");
            st[1]->unbind();
            watchers[1].clear();
            break;
        }
        for (int i = 0; i < 2; ++i)
            if (!moved[i])
                MC_CHECK(run, st[i]->get() == val[i], "state reads " << st[i]->get());
        for (int o = 0; o < 2; ++o)
            if (obs_of[o] >= 0)
                MC_CHECK(run, obs[o].get() == val[obs_of[o]], "observer lost the state");
        run.step();
        run.state(mc::mix(watchers[0].size() * 10 + watchers[1].size(),
                          moved[0] * 2 + moved[1]));
    }
}
