// C20: the debugging server, over HTTP on the loopback interface.  Histories
// of actions and requests; the server runs in its own thread, the main thread
// waits for every response, so that the histories are deterministic.
#include "../engine/mc.hpp"

#include <cassert>

#include <cereal/types/vector.hpp>
#include <cereal/cereal.hpp>

namespace {
enum Prog { Plain, NoChange, Void, NProgs };
struct Action
{
    int id;
    Prog prog;
    bool operator==(const Action& o) const { return id == o.id && prog == o.prog; }
};
struct Model
{
    std::vector<int> trace;
    bool operator==(const Model& o) const { return trace == o.trace; }
};
template <typename A>
void serialize(A& ar, Action& a)
{
    int p = a.prog;
    ar(cereal::make_nvp("id", a.id), cereal::make_nvp("prog", p));
    a.prog = Prog(p);
}
template <typename A>
void serialize(A& ar, Model& m)
{
    ar(cereal::make_nvp("trace", m.trace));
}
} // namespace

#include <lager/commit.hpp>
#include <lager/debug/debugger.hpp>
#include <lager/debug/http_server.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <rapidjson/document.h>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

#include <deque>
#include <fstream>
#include <memory>
#include <mutex>
#include <optional>

namespace {

std::string str(const std::vector<int>& v)
{
    std::string s = "[";
    for (int x : v)
        s += (s.size() > 1 ? "," : "") + std::to_string(x);
    return s + "]";
}

// --- the application ----------------------------------------------------------

struct Queue // the server's thread posts to it
{
    std::mutex mutex;
    std::deque<std::function<void()>> fns;
    int pauses = 0, resumes = 0;
    void drain()
    {
        for (;;) {
            std::function<void()> f;
            {
                std::lock_guard<std::mutex> l{mutex};
                if (fns.empty())
                    return;
                f = std::move(fns.front());
                fns.pop_front();
            }
            f();
        }
    }
    std::size_t size()
    {
        std::lock_guard<std::mutex> l{mutex};
        return fns.size();
    }
};
struct Loop
{
    Queue* q;
    template <typename Fn>
    void post(Fn&& fn)
    {
        auto p = std::make_shared<std::decay_t<Fn>>(std::forward<Fn>(fn));
        std::lock_guard<std::mutex> l{q->mutex};
        q->fns.push_back([p] { (*p)(); });
    }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() {}
    void pause() { ++q->pauses; }
    void resume() { ++q->resumes; }
};

int effects; // how many ran

struct Reducer
{
    std::pair<Model, lager::effect<Action>> operator()(Model m, Action a) const
    {
        if (a.prog != NoChange)
            m.trace.push_back(a.id);
        if (a.prog == Void)
            return {m, [](auto&&) { ++effects; }};
        return {m, lager::noop};
    }
};

struct Ref
{
    Model init;
    std::vector<std::pair<Action, Model>> history;
    std::size_t cursor = 0;
    bool paused        = false;
    std::vector<Action> pending;
    int effects = 0, pauses = 0, resumes = 0;
    const Model& shown() const { return cursor ? history[cursor - 1].second : init; }
    void act(Action a)
    {
        if (paused) {
            pending.push_back(a);
            return;
        }
        auto m = shown();
        if (a.prog != NoChange)
            m.trace.push_back(a.id);
        if (a.prog == Void)
            ++effects;
        history.resize(cursor);
        history.push_back({a, m});
        ++cursor;
    }
};

using D      = lager::debugger<Action, Model, lager::deps<>>;
using Server = lager::detail::http_debug_server_impl<D>;

// what with_debugger() hands over
struct Handed
{
    std::optional<lager::context<D::action>> ctx;
    std::optional<lager::reader<D::model>> data;
    void init(lager::context<D::action> c, lager::reader<D::model> r)
    {
        ctx  = std::move(c);
        data = std::move(r);
    }
};
struct Proxy
{
    std::shared_ptr<Handed> handed = std::make_shared<Handed>();
    template <typename T>
    auto make(T)
    {
        return handed;
    }
};

// --- the client -----------------------------------------------------------------

struct Response
{
    int status = 0;
    std::string type, body;
};

struct Client
{
    mc::Run& run;
    int port;
    int fd = -1;
    std::string buf;

    Client(mc::Run& r, int p)
        : run{r}
        , port{p}
    {
        fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family      = AF_INET;
        a.sin_port        = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        MC_CHECK(run, ::connect(fd, (sockaddr*) &a, sizeof a) == 0, "the server does not accept connections");
        int one = 1;
        ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    ~Client()
    {
        linger l{1, 0};
        ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        ::close(fd);
    }
    void send(const std::string& s)
    {
        std::size_t i = 0;
        while (i < s.size()) {
            auto n = ::send(fd, s.data() + i, s.size() - i, MSG_NOSIGNAL);
            MC_CHECK(run, n > 0, "the server closed the connection");
            i += n;
        }
    }
    bool more()
    {
        pollfd p{fd, POLLIN, 0};
        MC_CHECK(run, ::poll(&p, 1, 20000) == 1, "the server does not answer");
        char b[4096];
        auto n = ::recv(fd, b, sizeof b, 0);
        if (n <= 0)
            return false;
        buf.append(b, n);
        return true;
    }
    Response receive()
    {
        Response r;
        std::size_t end;
        while ((end = buf.find("\r\n\r\n")) == std::string::npos)
            MC_CHECK(run, more(), "the server closed the connection instead of answering");
        auto head = buf.substr(0, end + 2);
        MC_CHECK(run, head.compare(0, 7, "HTTP/1.") == 0, "not a HTTP response: " << head.substr(0, 20));
        r.status        = std::atoi(head.c_str() + 9);
        auto field      = [&](const char* name) -> std::string {
            auto lower = head;
            for (auto& c : lower)
                c = std::tolower(c);
            auto at = lower.find(std::string("\r\n") + name + ":");
            if (at == std::string::npos)
                return "";
            at += std::strlen(name) + 3;
            while (head[at] == ' ')
                ++at;
            return head.substr(at, head.find("\r\n", at) - at);
        };
        r.type           = field("content-type");
        auto length      = std::size_t(std::atol(field("content-length").c_str()));
        while (buf.size() < end + 4 + length)
            MC_CHECK(run, more(), "the server closed the connection within an answer");
        r.body = buf.substr(end + 4, length);
        buf.erase(0, end + 4 + length);
        return r;
    }
    static std::string request(const std::string& method, const std::string& target)
    {
        return method + " " + target + " HTTP/1.1\r\nHost: x\r\n" +
               (method == "POST" ? "Content-Length: 0\r\n" : "") + "\r\n";
    }
    Response go(const std::string& method, const std::string& target)
    {
        send(request(method, target));
        return receive();
    }
};

struct Resources // what the server serves; made and removed by the main process
{
    int pid = ::getpid();
    std::string dir;
    Resources()
    {
        char t[] = "/tmp/mc-http-XXXXXX";
        dir      = ::mkdtemp(t);
        ::mkdir((dir + "/gui").c_str(), 0700);
        ::mkdir((dir + "/gui/sub").c_str(), 0700);
        std::ofstream{dir + "/gui/index.html"} << "the index";
        std::ofstream{dir + "/gui/style.css"} << "the style";
        std::ofstream{dir + "/gui/sub/code.js"} << "the code";
        std::ofstream{dir + "/gui/a..b"} << "the dots";
        std::ofstream{dir + "/secret.txt"} << "the secret";
    }
    ~Resources()
    {
        if (pid != ::getpid())
            return;
        for (auto* f : {"/gui/index.html", "/gui/style.css", "/gui/sub/code.js", "/gui/a..b", "/secret.txt"})
            ::unlink((dir + f).c_str());
        for (auto* f : {"/gui/sub", "/gui", ""})
            ::rmdir((dir + f).c_str());
    }
} resources;

const char* argv_[] = {"program", "with", "arguments"};

int& port_of_process()
{
    static int pid = 0, port = 0;
    if (pid != ::getpid()) {
        pid  = ::getpid();
        port = 20000 + pid * 13 % 10000;
    }
    return port;
}

struct World
{
    mc::Run& run;
    Queue queue;
    Proxy proxy;
    std::shared_ptr<Server> server;
    Ref ref;
    Ref committed;
    int port = 0;
    bool transactional;

    template <typename Store>
    void start(Store&&)
    {
        for (int i = 0; i < 200 && !server; ++i) {
            port = port_of_process();
            try {
                auto s = std::make_shared<Server>(3, argv_, std::uint16_t(port), resources.dir);
                s->init(*proxy.handed->ctx, *proxy.handed->data);
                server = s;
            } catch (const boost::system::system_error&) {
                ++port_of_process();
            }
        }
        MC_CHECK(run, server, "the server does not start");
    }
    rapidjson::Document json(const Response& r)
    {
        MC_CHECK(run, r.status == 200, "status " << r.status << ": " << r.body);
        MC_CHECK(run, r.type == "application/json", "JSON served as " << r.type);
        rapidjson::Document d;
        d.Parse(r.body.c_str());
        MC_CHECK(run, !d.HasParseError() && d.IsObject(), "not JSON: " << r.body);
        return d;
    }
    void status(Client& c, const Ref& ref)
    {
        auto d = json(c.go("GET", "/api/"));
        MC_CHECK(run, d["program"].IsString() && d["program"].GetString() == std::string("program with arguments"),
                 "wrong program");
        MC_CHECK(run, d["summary"].IsUint64() && d["summary"].GetUint64() == ref.history.size(),
                 "the server reports " << d["summary"].GetUint64() << " steps instead of " << ref.history.size());
        MC_CHECK(run, d["cursor"].IsUint64() && d["cursor"].GetUint64() == ref.cursor,
                 "the server reports step " << d["cursor"].GetUint64() << " instead of " << ref.cursor);
        MC_CHECK(run, d["paused"].IsBool() && d["paused"].GetBool() == ref.paused, "the server reports a wrong 'paused'");
    }
    void step(Client& c, const Ref& ref, std::size_t i)
    {
        auto r = c.go("GET", "/api/step/" + std::to_string(i));
        if (i > ref.history.size()) {
            MC_CHECK(run, r.status >= 400, "there is no step " << i << " but status " << r.status << ": " << r.body);
            return;
        }
        auto d = json(r);
        MC_CHECK(run, d.HasMember("action") == (i != 0), "step " << i << (i ? " has no" : " has an") << " action");
        if (i) {
            auto& a = d["action"];
            MC_CHECK(run, a["id"].GetInt() == ref.history[i - 1].first.id && a["prog"].GetInt() == ref.history[i - 1].first.prog,
                     "step " << i << " has another action");
        }
        auto& expected = i ? ref.history[i - 1].second.trace : ref.init.trace;
        std::vector<int> got;
        for (auto& x : d["model"]["trace"].GetArray())
            got.push_back(x.GetInt());
        MC_CHECK(run, got == expected, "step " << i << " has the model " << str(got) << " instead of " << str(expected));
    }
    void check(Client& c)
    {
        status(c, committed);
        for (std::size_t i = 0; i <= committed.history.size() + 1; ++i)
            step(c, committed, i);
        MC_CHECK(run, effects == ref.effects, effects << " effects ran instead of " << ref.effects);
        MC_CHECK(run, queue.pauses == ref.pauses && queue.resumes == ref.resumes,
                 "the event loop was paused " << queue.pauses << " and resumed " << queue.resumes << " times");
        mc::u64 h = mc::mix(committed.cursor * 2 + committed.paused, committed.pending.size());
        for (auto& s : committed.history)
            h = mc::mix(h, s.second.trace.size() * 4 + s.first.prog);
        run.state(h);
    }
};

template <typename Store>
void histories(mc::Run& run, World& w, Store& store, int depth)
{
    Client c1{run, w.port};
    std::optional<Client> c2;
    w.check(c1);
    int next = 0;
    for (int i = 0; i < depth; ++i) {
        int op = run.choose(w.transactional ? 9 : 8);
        run.step();
        auto* c = &c1;
        if (i % 2) {
            if (!c2)
                c2.emplace(run, w.port);
            c = &*c2;
        }
        auto post = [&](const std::string& target) {
            MC_LOG(run, "POST " << target);
            auto r = c->go("POST", target);
            MC_CHECK(run, r.status == 200, "POST " << target << " answered with " << r.status << " " << r.body);
            MC_CHECK(run, w.queue.size() == 1, "POST " << target << " did not dispatch one action to the event loop");
        };
        switch (op) {
        case 0:
        case 1:
        case 2: {
            auto a = Action{next++, Prog(op)};
            MC_LOG(run, "dispatch action " << a.id << " of kind " << op);
            store.dispatch(a);
            w.ref.act(a);
            break;
        }
        case 3: {
            auto n    = w.ref.history.size();
            auto k    = run.choose(int(n) + 3);
            auto cur  = k == int(n) + 2 ? 18446744073709551615ull : (unsigned long long) k;
            post("/api/goto/" + std::to_string(cur));
            if (cur <= n)
                w.ref.cursor = cur;
            break;
        }
        case 4:
            post("/api/undo");
            if (w.ref.cursor)
                --w.ref.cursor;
            break;
        case 5:
            post("/api/redo");
            if (w.ref.cursor < w.ref.history.size())
                ++w.ref.cursor;
            break;
        case 6:
            post("/api/pause");
            w.ref.paused = true;
            ++w.ref.pauses;
            break;
        case 7: {
            post("/api/resume");
            w.ref.paused = false;
            ++w.ref.resumes;
            auto p = w.ref.pending;
            w.ref.pending.clear();
            for (auto& a : p)
                w.ref.act(a);
            break;
        }
        case 8:
            MC_LOG(run, "commit");
            lager::commit(store);
            w.committed = w.ref;
        }
        w.queue.drain();
        if (!w.transactional)
            w.committed = w.ref;
        w.check(*c);
    }
}

template <typename Tag>
void serve(mc::Run& run, int depth)
{
    World w{run};
    effects         = 0;
    w.transactional = std::is_same_v<Tag, lager::transactional_tag>;
    auto init       = Model{{-1}};
    auto store      = lager::make_store<Action, Tag>(
        init, Loop{&w.queue}, lager::with_reducer(Reducer{}), lager::with_debugger(w.proxy));
    w.ref.init  = init;
    w.committed = w.ref;
    MC_CHECK(run, w.proxy.handed->ctx && w.proxy.handed->data, "the server was not initialized");
    w.start(store);
    histories(run, w, store, depth);
    w.server.reset();
    w.proxy.handed->ctx.reset();
    w.proxy.handed->data.reset();
}

MC_SCENARIO(server_automatic, 2) { serve<lager::automatic_tag>(run, run.bound(4, 5)); }
MC_SCENARIO(server_transactional, 2) { serve<lager::transactional_tag>(run, run.bound(4, 5)); }

// sequences of odd requests: each gets its answer and the server goes on
MC_SCENARIO(requests, 1)
{
    World w{run};
    effects         = 0;
    w.transactional = false;
    auto init       = Model{{-1}};
    auto store      = lager::make_store<Action, lager::automatic_tag>(
        init, Loop{&w.queue}, lager::with_reducer(Reducer{}), lager::with_debugger(w.proxy));
    w.ref.init = init;
    for (int i = 0; i < 2; ++i) {
        store.dispatch(Action{i, Plain});
        w.ref.act(Action{i, Plain});
    }
    w.queue.drain();
    w.committed = w.ref;
    w.start(store);
    struct Req
    {
        const char* method;
        const char* target;
        int status; // 0: any failure
        const char* body;
        const char* type;
    };
    static const Req reqs[] = {
        {"GET", "/", 200, "the index", "text/html"},
        {"GET", "/index.html", 200, "the index", "text/html"},
        {"GET", "/style.css", 200, "the style", "text/css"},
        {"GET", "/sub/code.js", 200, "the code", "application/javascript"},
        {"GET", "/a..b", 200, "the dots", nullptr},
        {"GET", "/none.html", 404, nullptr, nullptr},
        {"GET", "/../secret.txt", 0, nullptr, nullptr},
        {"GET", "../secret.txt", 0, nullptr, nullptr},
        {"GET", "/sub/../../secret.txt", 0, nullptr, nullptr},
        {"GET", "/sub/../..//secret.txt", 0, nullptr, nullptr},
        {"GET", "/api/step/3", 0, nullptr, nullptr},
        {"GET", "/api/step/99999999999999999999999", 0, nullptr, nullptr},
        {"GET", "/api/step/-1", 0, nullptr, nullptr},
        {"GET", "/api/step/", 0, nullptr, nullptr},
        {"GET", "/api/goto/1", 0, nullptr, nullptr},
        {"GET", "/api/undo", 0, nullptr, nullptr},
        {"POST", "/api/goto/x", 0, nullptr, nullptr},
        {"POST", "/api/goto/99999999999999999999999", 0, nullptr, nullptr},
        {"POST", "/api/step/1", 0, nullptr, nullptr},
        {"POST", "/api/", 0, nullptr, nullptr},
        {"POST", "/api/undo/", 0, nullptr, nullptr},
        {"DELETE", "/api/step/1", 0, nullptr, nullptr},
        {"PUT", "/api/pause", 0, nullptr, nullptr},
        {"GET", "/api", 200, nullptr, "application/json"},
        {"FOO", "/api", 0, nullptr, nullptr},
    };
    constexpr int n = sizeof reqs / sizeof *reqs;
    {
        std::optional<Client> c;
        c.emplace(run, w.port);
        Client other{run, w.port};
        int depth = run.bound(3, 3);
        for (int i = 0; i < depth; ++i) {
            int k = run.choose(n + 3);
            run.step();
            if (k == n) {
                MC_LOG(run, "rubbish");
                c->send("\x16\x03\x01 rubbish\r\n\r\n");
                c.emplace(run, w.port);
            } else if (k == n + 1) {
                MC_LOG(run, "disconnect within a request");
                c->send("GET /api/ HT");
                c.emplace(run, w.port);
            } else if (k == n + 2) {
                MC_LOG(run, "several requests at once");
                c->send(Client::request("GET", "/style.css") + Client::request("POST", "/api/undo") +
                        Client::request("GET", "/"));
                auto a = c->receive(), b = c->receive(), d = c->receive();
                MC_CHECK(run, a.body == "the style" && b.status == 200 && d.body == "the index",
                         "the answers to several requests are wrong or out of order");
                w.queue.drain();
                if (w.ref.cursor)
                    --w.ref.cursor;
                w.committed = w.ref;
            } else {
                auto& q = reqs[k];
                MC_LOG(run, q.method << " " << q.target);
                auto r = c->go(q.method, q.target);
                if (q.status)
                    MC_CHECK(run, r.status == q.status, q.method << " " << q.target << " answered with " << r.status);
                else
                    MC_CHECK(run, r.status >= 400 && r.status < 600,
                             q.method << " " << q.target << " answered with " << r.status << " " << r.body);
                if (q.body)
                    MC_CHECK(run, r.body == q.body, q.target << " has the content '" << r.body << "'");
                if (q.type)
                    MC_CHECK(run, r.type == q.type, q.target << " is served as " << r.type);
                MC_CHECK(run, r.body.find("the secret") == std::string::npos,
                         q.method << " " << q.target << " gave away a file outside of the resources");
                MC_CHECK(run, w.queue.size() == 0, q.method << " " << q.target << " dispatched an action");
            }
            w.status(other, w.committed);
            w.check(*c);
        }
    }
    w.server.reset();
    w.proxy.handed->ctx.reset();
    w.proxy.handed->data.reset();
}

// the server, set up as the documentation says, and its end
template <typename Tag>
void whole(mc::Run& run)
{
    Queue queue;
    effects  = 0;
    int port = 0;
    {
        std::optional<lager::http_debug_server> server;
        auto make = [&] {
            for (;;) {
                port = port_of_process()++;
                server.emplace(3, argv_, std::uint16_t(port), resources.dir);
                try {
                    return lager::make_store<Action, Tag>(Model{{-1}}, Loop{&queue},
                                                          lager::with_reducer(Reducer{}),
                                                          lager::with_debugger(*server));
                } catch (const boost::system::system_error&) {
                }
            }
        };
        auto store = make();
        World w{run};
        w.port          = port;
        w.transactional = std::is_same_v<Tag, lager::transactional_tag>;
        w.ref.init      = Model{{-1}};
        w.committed     = w.ref;
        Client c{run, port};
        int n = run.choose(3);
        for (int i = 0; i < n; ++i) {
            run.step();
            store.dispatch(Action{i, Plain});
            queue.drain();
            w.ref.act(Action{i, Plain});
            if (!w.transactional)
                w.committed = w.ref;
            w.check(c);
        }
        MC_CHECK(run, c.go("POST", "/api/undo").status == 200, "undo");
        queue.drain();
        if (w.ref.cursor)
            --w.ref.cursor;
        lager::commit(store);
        w.committed = w.ref;
        w.check(c);
    }
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_port        = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bool alive        = ::connect(fd, (sockaddr*) &a, sizeof a) == 0;
    ::close(fd);
    if (alive)
        run.finding("server-outlives-store", "the server goes on after its store and itself were destroyed");
}
MC_SCENARIO(whole_automatic, 1) { whole<lager::automatic_tag>(run); }
MC_SCENARIO(whole_transactional, 1) { whole<lager::transactional_tag>(run); }

} // namespace
