// C07: derived readers keep alive exactly what they need.
#include "../engine/mc.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>

#include <memory>
#include <vector>

namespace {

struct Token
{
    int id;
};

struct NodeInfo
{
    std::weak_ptr<Token> token;
    int p0, p1; // parent nodes (-1 = root)
    int kind;
};

template <bool Automatic>
void history(mc::Run& run, int nslots, int depth)
{
    using tag = std::conditional_t<Automatic, lager::automatic_tag, lager::transactional_tag>;
    auto root = std::make_unique<lager::state<int, tag>>(3);
    int rootv = 3;
    bool root_alive = true;
    struct Slot
    {
        std::unique_ptr<lager::cursor<int>> h;
        int node = -1; // index in nodes
        bool root = false;
    };
    std::vector<NodeInfo> nodes;
    std::vector<Slot> s(nslots);
    std::vector<int> called(nslots, 0);
    std::vector<int> last(nslots, 0);
    std::function<int(int)> value = [&](int n) -> int {
        if (n < 0)
            return rootv;
        auto& x = nodes[n];
        switch (x.kind) {
        case 0: return value(x.p0) + 1;
        case 1: return -value(x.p0);
        case 2: return value(x.p0) + value(x.p1);
        case 3: return value(x.p0);
        }
        return 0;
    };
    std::function<void(int, std::vector<char>&)> mark =
        [&](int n, std::vector<char>& m) {
            if (n < 0 || m[n])
                return;
            m[n] = 1;
            mark(nodes[n].p0, m);
            if (nodes[n].kind == 2)
                mark(nodes[n].p1, m);
        };
    auto watch = [&](int i) {
        s[i].h->watch([&called, &last, i](int v) {
            ++called[i];
            last[i] = v;
        });
    };
    s[0].h    = std::make_unique<lager::cursor<int>>(*root);
    s[0].root = true;
    watch(0);
    for (int d = 0; d < depth; ++d) {
        struct Op
        {
            int t, i, j, k;
        };
        std::vector<Op> ops;
        bool last_op = d + 1 == depth;
        bool any_root = root_alive;
        if (root_alive)
            ops.push_back({0, 0, 0, 0});
        else
            for (int i = 0; i < nslots && ops.empty(); ++i)
                if (Automatic && s[i].h && s[i].root)
                    ops.push_back({6, i, 0, 0}); // write through a cursor
        (void) any_root;
        if (!last_op || ops.empty()) {
            for (int i = 0; i < nslots; ++i) {
                if (s[i].h)
                    ops.push_back({1, i, 0, 0}); // drop
                if (s[i].h)
                    for (int j = 0; j < nslots; ++j)
                        if (s[j].h && i != j) {
                            ops.push_back({7, i, j, 0}); // assign
                            ops.push_back({8, i, j, 0}); // move and drop
                        }
                if (s[i].h)
                    continue; // fill only empty slots
                for (int j = 0; j < nslots; ++j)
                    if (s[j].h) {
                        ops.push_back({2, i, j, 0});  // copy
                        ops.push_back({3, i, j, 0});  // map +1
                        ops.push_back({3, i, j, 1});  // lens neg
                        ops.push_back({3, i, j, 3});  // setter
                        for (int k = j + 1; k < nslots; ++k)
                            if (s[k].h && (s[k].node != s[j].node ||
                                           s[k].root != s[j].root))
                                ops.push_back({4, i, j, k}); // with
                    }
                break; // symmetry: first empty slot only
            }
            if (root_alive)
                ops.push_back({5, 0, 0, 0});
        }
        if (ops.empty())
            break;
        auto op = ops[run.choose(int(ops.size()))];
        switch (op.t) {
        case 6:
        case 0: {
            std::fill(called.begin(), called.end(), 0);
            ++rootv;
            MC_LOG(run, (op.t ? "write through cursor " : "set root ") << rootv);
            std::vector<int> old;
            --rootv;
            for (auto& x : s)
                old.push_back(x.h ? value(x.node) : 0);
            ++rootv;
            if (op.t == 6)
                s[op.i].h->set(rootv);
            else {
                root->set(rootv);
                if constexpr (!Automatic)
                    lager::commit(*root);
            }
            for (int i = 0; i < nslots; ++i)
                if (s[i].h) {
                    int n = value(s[i].node);
                    MC_CHECK(run, called[i] == (n != old[i]) || (n == old[i]),
                             "watcher of slot " << i << " called " << called[i]
                                                << " times for " << old[i]
                                                << "->" << n);
                    if (called[i])
                        MC_CHECK(run, last[i] == n, "watcher got " << last[i]);
                } else
                    MC_CHECK(run, called[i] == 0, "watcher of dropped slot called");
            break;
        }
        case 1:
            MC_LOG(run, "drop s" << op.i);
            s[op.i].h.reset();
            s[op.i].node = -1;
            s[op.i].root = false;
            break;
        case 7:
        case 8:
            // (the watchers stay with the handle)
            MC_LOG(run, "s" << op.i << (op.t == 7 ? " := s" : " := std::move(s") << op.j
                            << (op.t == 7 ? "" : ")"));
            if (op.t == 7)
                *s[op.i].h = *s[op.j].h;
            else
                *s[op.i].h = std::move(*s[op.j].h);
            s[op.i].node = s[op.j].node;
            s[op.i].root = s[op.j].root;
            if (op.t == 8) {
                s[op.j].h.reset();
                s[op.j].node = -1;
                s[op.j].root = false;
            }
            break;
        case 2:
            MC_LOG(run, "s" << op.i << " = copy of s" << op.j);
            s[op.i].h    = std::make_unique<lager::cursor<int>>(*s[op.j].h);
            s[op.i].node = s[op.j].node;
            s[op.i].root = s[op.j].root;
            watch(op.i);
            break;
        case 3: {
            auto t = std::make_shared<Token>();
            NodeInfo ni;
            ni.token = t;
            ni.p0    = s[op.j].node;
            ni.p1    = -1;
            ni.kind  = op.k;
            MC_LOG(run, "s" << op.i << " = " << (op.k == 3 ? "setter of " : op.k ? "-" : "1+") << "s" << op.j);
            if (op.k == 3)
                s[op.i].h = std::make_unique<lager::cursor<int>>(
                    lager::with_setter(lager::reader<int>{*s[op.j].h}, [t](int) {}));
            else
            if (op.k == 0)
                s[op.i].h = std::make_unique<lager::cursor<int>>(
                    s[op.j].h->xform(zug::map([t](int x) { return x + 1; }),
                                     zug::map([t](int x) { return x - 1; })));
            else
                s[op.i].h = std::make_unique<lager::cursor<int>>(
                    s[op.j].h->zoom(lager::lenses::getset(
                        [t](int x) { return -x; },
                        [t](int, int v) { return -v; })));
            nodes.push_back(ni);
            s[op.i].node = int(nodes.size()) - 1;
            s[op.i].root = false;
            watch(op.i);
            break;
        }
        case 4: {
            auto t = std::make_shared<Token>();
            NodeInfo ni;
            ni.token  = t;
            ni.p0     = s[op.j].node;
            ni.p1     = s[op.k].node;
            ni.kind   = 2;
            MC_LOG(run, "s" << op.i << " = with(s" << op.j << ",s" << op.k << ")");
            s[op.i].h = std::make_unique<lager::cursor<int>>(
                lager::with(*s[op.j].h, *s[op.k].h)
                    .xform(zug::map([t](int a, int b) { return a + b; }),
                           lager::update([t](std::tuple<int, int> p, int v) {
                               return std::make_tuple(v - std::get<1>(p),
                                                      std::get<1>(p));
                           })));
            nodes.push_back(ni);
            s[op.i].node = int(nodes.size()) - 1;
            s[op.i].root = false;
            watch(op.i);
            break;
        }
        case 5:
            MC_LOG(run, "drop root");
            root.reset();
            root_alive = false;
            break;
        }
        // everything readable, exactly the reachable nodes alive
        std::vector<char> m(nodes.size(), 0);
        for (int i = 0; i < nslots; ++i)
            if (s[i].h) {
                int v = s[i].h->get();
                MC_CHECK(run, v == value(s[i].node),
                         "slot " << i << " reads " << v << ", expected "
                                 << value(s[i].node));
                mark(s[i].node, m);
            }
        for (size_t n = 0; n < nodes.size(); ++n) {
            bool alive = !nodes[n].token.expired();
            MC_CHECK(run, alive == bool(m[n]),
                     "derived node #" << n << (alive ? " is kept alive although nothing needs it"
                                                     : " died although it is still needed"));
        }
        run.step();
        mc::u64 h = root_alive;
        for (auto& x : s)
            h = mc::mix(h, x.h ? x.node + 2 : 0);
        for (auto& n : nodes)
            h = mc::mix(h, n.kind * 100 + n.p0 * 10 + n.p1);
        run.state(h);
    }
    for (auto& x : s)
        x.h.reset();
    root.reset();
    for (size_t n = 0; n < nodes.size(); ++n)
        MC_CHECK(run, nodes[n].token.expired(), "node leaked");
}

} // namespace

MC_SCENARIO(transactional, 2) { history<false>(run, 4, run.bound(6, 7)); }
MC_SCENARIO(automatic, 2) { history<true>(run, 4, run.bound(7, 8)); }
MC_SCENARIO(transactional_deep, 2) { history<false>(run, 3, run.bound(7, 8)); }
MC_SCENARIO(transactional_mem, 2) { history<false>(run, 4, run.bound(6, 7)); }
MC_SCENARIO(automatic_mem, 2) { history<true>(run, 4, run.bound(6, 7)); }
