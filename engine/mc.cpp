#include "mc.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
    return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=0:"
           "detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "quarantine_size_mb=16:malloc_context_size=8:print_summary=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=99:print_stacktrace=1";
}

namespace mc {

namespace {

std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> s;
    return s;
}

// memory shared between a worker and the parent
struct Shared
{
    volatile u64 executions;
    volatile int scenario;
    volatile int nchoices;
    volatile int choices[4096];
    volatile int done;
};

struct Stats
{
    u64 executions = 0, steps = 0, choices = 0, max_depth = 0;
    std::unordered_set<u64> states, outcomes;
    bool complete = true;
    double wall   = 0;
    std::map<std::string, std::pair<u64, std::string>> known;
    std::vector<std::string> samples;
};

struct Fail
{
    int scenario = -1;
    std::vector<int> seq;
    std::string msg;
    std::vector<std::string> log;
    bool killed = false; // by somebody else, or hanging: says nothing on its own
};

struct Options
{
    std::string property = "C00";
    std::string tier     = "quick";
    std::string evidence;
    std::string replay_dir = ".";
    std::string known_file;
    std::string replay;
    std::vector<std::string> only;
    std::string tag; // distinguishes binaries of a same property
    int jobs      = 8;
    double budget = 600;
    double hang   = 60;
    int seed      = 1;
} opt;

std::set<std::string> known_keys;

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

} // namespace

struct Engine
{
    Shared* sh      = nullptr;
    Stats* stats    = nullptr;
    int shard       = 0;
    int nshards     = 1;
    int shard_depth = 0;
    u64 prefix_id   = 0; // number of distinct prefixes seen so far
    bool prefix_new = true;
    bool record     = true;
};

void add(std::string name, ScenarioFn fn, int d, bool t)
{
    scenarios().push_back({std::move(name), std::move(fn), d, t});
}

int Run::choose(int n)
{
    if (n <= 0) {
        fprintf(stderr, "mc: choose(%d)\n", n);
        abort();
    }
    int v;
    if (pos < seq.size()) {
        v = seq[pos];
        if (pos < max.size()) {
            if (max[pos] != n) {
                // nondeterminism the engine does not control: a hard error
                fprintf(stderr,
                        "mc: divergence while replaying a prefix: choice %zu "
                        "had %d alternatives, now %d\n",
                        pos,
                        max[pos],
                        n);
                throw Violation{"divergence while replaying a prefix"};
            }
        } else {
            max.push_back(n);
        }
        if (v >= n) {
            throw Violation{"replayed choice out of range"};
        }
    } else {
        v = 0;
        seq.push_back(0);
        max.push_back(n);
    }
    if (eng && eng->sh && pos < 4096) {
        eng->sh->choices[pos] = v;
        eng->sh->nchoices     = int(pos) + 1;
    }
    ++pos;
    if (eng && !replaying && eng->nshards > 1 && int(pos) == eng->shard_depth) {
        if (eng->prefix_new) {
            ++eng->prefix_id;
            eng->prefix_new = false;
        }
        if (int(eng->prefix_id % eng->nshards) != eng->shard)
            throw Prune{};
    }
    return v;
}

void Run::state(u64 h)
{
    if (eng && eng->stats && eng->record && eng->stats->states.size() < 3000000)
        eng->stats->states.insert(h);
}

void Run::outcome(u64 h)
{
    if (eng && eng->stats && eng->record &&
        eng->stats->outcomes.size() < 1000000)
        eng->stats->outcomes.insert(h);
}

void Run::finding(const std::string& key, const std::string& m)
{
    if (known_keys.count(key)) {
        if (eng && eng->stats) {
            auto& e = eng->stats->known[key];
            ++e.first;
            if (e.second.empty())
                e.second = m;
        }
        return;
    }
    throw Violation{"[" + key + "] " + m};
}

namespace {

// run one execution; returns true when it failed
bool execute(Scenario& sc, Run& r, std::string& msg, bool& pruned)
{
    r.pos    = 0;
    r.steps_ = 0;
    r.log_.clear();
    pruned = false;
    try {
        sc.fn(r);
    } catch (Prune&) {
        pruned = true;
    } catch (Violation& v) {
        msg = v.msg;
        return true;
    } catch (std::exception& e) {
        msg = std::string("unexpected exception escaped: ") + e.what();
        return true;
    } catch (...) {
        msg = "unexpected exception of unknown type escaped";
        return true;
    }
    return false;
}

bool explore(int idx,
             int shard,
             int nshards,
             Shared* sh,
             Stats& st,
             double deadline,
             Fail& fail)
{
    auto& sc = scenarios()[idx];
    Engine e;
    e.sh          = sh;
    e.stats       = &st;
    e.shard       = shard;
    e.nshards     = nshards;
    e.shard_depth = sc.shard_depth;
    Run r;
    r.eng       = &e;
    r.thorough_ = opt.tier == "thorough";
    sh->scenario = idx;
    double t0    = now();
    u64 execs    = 0;
    bool leader  = shard == 0;
    while (true) {
        sh->nchoices = 0;
        r.logging_   = st.samples.size() < 2 || (execs == 20000);
        std::string msg;
        bool pruned = false;
        bool failed = execute(sc, r, msg, pruned);
        ++sh->executions;
        if (!failed && !pruned && nshards > 1 &&
            (int) r.pos < e.shard_depth && !leader)
            pruned = true; // short executions are counted by worker 0 only
        if (failed) {
            // replay before report
            fail.scenario = idx;
            fail.seq      = r.seq;
            fail.seq.resize(std::min(fail.seq.size(), r.pos));
            fail.msg = msg;
            return false;
        }
        if (!pruned) {
            ++execs;
            ++st.executions;
            st.steps += r.steps_;
            st.choices += r.pos;
            st.max_depth = std::max<u64>(st.max_depth, r.pos);
            if (r.logging_ && !r.log_.empty()) {
                std::string s = sc.name + ":";
                for (auto& l : r.log_)
                    s += " " + l + ";";
                if (s.size() > 1200)
                    s = s.substr(0, 1200) + "...";
                st.samples.push_back(s);
            }
        }
        // next choice sequence
        size_t len = r.pos;
        r.seq.resize(len);
        r.max.resize(len);
        while (!r.seq.empty() && r.seq.back() + 1 >= r.max.back()) {
            r.seq.pop_back();
            r.max.pop_back();
        }
        if (r.seq.empty())
            break;
        ++r.seq.back();
        if ((int) r.seq.size() <= e.shard_depth)
            e.prefix_new = true;
        if ((st.executions & 63) == 0 && now() > deadline) {
            st.complete = false;
            break;
        }
    }
    st.wall += now() - t0;
    return true;
}

void write_u64s(std::ofstream& f, const std::unordered_set<u64>& s)
{
    u64 n = s.size();
    f.write((char*) &n, 8);
    for (auto h : s)
        f.write((char*) &h, 8);
}

void write_s(std::ofstream& f, const std::string& s)
{
    u64 n = s.size();
    f.write((char*) &n, 8);
    f.write(s.data(), n);
}
u64 read_u(std::ifstream& f)
{
    u64 n = 0;
    f.read((char*) &n, 8);
    return n;
}
std::string read_s(std::ifstream& f)
{
    std::string s(read_u(f), ' ');
    f.read(&s[0], s.size());
    return s;
}

// replay a sequence in a forked child: returns 0 = ok, 1 = violation (msg
// and log filled), 2 = crash or hang
int replay_child(int idx,
                 const std::vector<int>& seq,
                 std::string& msg,
                 std::vector<std::string>& log,
                 double timeout)
{
    std::string tmp = opt.replay_dir + "/.replay." + std::to_string(getpid());
    std::string err = tmp + ".err";
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        Run r;
        Engine e;
        r.eng       = &e;
        r.logging_  = true;
        r.replaying = true;
        r.thorough_ = opt.tier == "thorough";
        r.seq       = seq;
        std::string m;
        bool pruned;
        // stream the log so that a crash still shows the operations
        std::ofstream f(tmp);
        struct Flusher
        {};
        bool failed = execute(scenarios()[idx], r, m, pruned);
        f << (failed ? 1 : 0) << "\n" << m.size() << "\n" << m;
        for (auto& l : r.log_)
            f << "\n" << l;
        f.close();
        _exit(failed ? 41 : 0);
    }
    double t0  = now();
    int status = 0;
    bool hung  = false;
    while (true) {
        pid_t q = waitpid(p, &status, WNOHANG);
        if (q == p)
            break;
        if (now() - t0 > timeout) {
            hung = true;
            kill(p, SIGKILL);
            waitpid(p, &status, 0);
            break;
        }
        usleep(2000);
    }
    int ret = 0;
    if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0)
        ret = 0;
    else if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 41) {
        ret = 1;
        std::ifstream f(tmp);
        int a;
        size_t n;
        f >> a >> n;
        f.get();
        msg.resize(n);
        f.read(&msg[0], n);
        std::string l;
        std::getline(f, l);
        while (std::getline(f, l))
            log.push_back(l);
    } else {
        ret = 2;
        std::ostringstream os;
        if (hung)
            os << "execution does not terminate (killed after " << timeout
               << "s)";
        else if (WIFSIGNALED(status))
            os << "execution died with signal " << WTERMSIG(status);
        else
            os << "execution died with exit status " << WEXITSTATUS(status);
        std::ifstream f(err);
        std::string l;
        int n = 0;
        while (std::getline(f, l) && n < 30) {
            if (l.find("ERROR") != l.npos || l.find("Assertion") != l.npos ||
                l.find("runtime error") != l.npos ||
                l.find("terminate") != l.npos || l.find("what()") != l.npos ||
                l.find("    #") != l.npos) {
                os << "\n  " << l;
                ++n;
            }
        }
        msg = os.str();
    }
    unlink(tmp.c_str());
    unlink(err.c_str());
    return ret;
}

std::string seq_str(const std::vector<int>& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        r += (i ? "," : "") + std::to_string(s[i]);
    return r;
}

// greedy shrink: try to lower / cut choices while it still fails
void report(Fail& f, int& nviol)
{
    std::string path = opt.replay_dir + "/" + opt.property + "-" + opt.tag +
                       (opt.tag.empty() ? "" : "-") +
                       scenarios()[f.scenario].name + ".replay";
    std::ofstream o(path);
    o << "property " << opt.property << "\n";
    o << "binary " << opt.tag << "\n";
    o << "tier " << opt.tier << "\n";
    o << "scenario " << scenarios()[f.scenario].name << "\n";
    o << "choices " << seq_str(f.seq) << "\n";
    o << "message " << f.msg << "\n";
    o << "trace\n";
    for (auto& l : f.log)
        o << "  " << l << "\n";
    o.close();
    printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), path.c_str());
    printf("  scenario: %s\n  %s\n", scenarios()[f.scenario].name.c_str(), f.msg.c_str());
    for (auto& l : f.log)
        printf("    %s\n", l.c_str());
    fflush(stdout);
    ++nviol;
}

bool selected(const Scenario& s)
{
    if (s.thorough_only && opt.tier != "thorough")
        return false;
    if (opt.only.empty())
        return true;
    for (auto& o : opt.only)
        if (o == s.name)
            return true;
    return false;
}

} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next     = [&] { return std::string(argv[++i]); };
        if (a == "--property")
            opt.property = next();
        else if (a == "--tier")
            opt.tier = next();
        else if (a == "--out")
            opt.evidence = next();
        else if (a == "--replay-dir")
            opt.replay_dir = next();
        else if (a == "--known")
            opt.known_file = next();
        else if (a == "--replay")
            opt.replay = next();
        else if (a == "--scenario")
            opt.only.push_back(next());
        else if (a == "--jobs")
            opt.jobs = std::stoi(next());
        else if (a == "--budget")
            opt.budget = std::stod(next());
        else if (a == "--hang")
            opt.hang = std::stod(next());
        else if (a == "--seed")
            opt.seed = std::stoi(next());
        else if (a == "--tag")
            opt.tag = next();
        else if (a == "--list") {
            for (auto& s : scenarios())
                printf("%s\n", s.name.c_str());
            return 0;
        }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (!opt.known_file.empty()) {
        std::ifstream f(opt.known_file);
        std::string l;
        // lines: "known: property=<id> key=<key> <description>"
        while (std::getline(f, l)) {
            if (l.rfind("known:", 0) != 0)
                continue;
            if (l.find("property=" + opt.property + " ") == l.npos)
                continue;
            auto p = l.find("key=");
            if (p == l.npos)
                continue;
            auto e = l.find(' ', p);
            known_keys.insert(l.substr(p + 4, e - p - 4));
        }
    }
    mkdir(opt.replay_dir.c_str(), 0755);

    if (!opt.replay.empty()) {
        // replay file
        std::ifstream f(opt.replay);
        std::string l, scn;
        std::vector<int> seq;
        while (std::getline(f, l)) {
            if (l.rfind("scenario ", 0) == 0)
                scn = l.substr(9);
            if (l.rfind("tier ", 0) == 0)
                opt.tier = l.substr(5);
            if (l.rfind("choices ", 0) == 0) {
                std::istringstream is(l.substr(8));
                std::string t;
                while (std::getline(is, t, ','))
                    seq.push_back(std::stoi(t));
            }
        }
        for (size_t i = 0; i < scenarios().size(); ++i)
            if (scenarios()[i].name == scn) {
                std::string msg;
                std::vector<std::string> log;
                int r = replay_child(i, seq, msg, log, opt.hang);
                for (auto& s : log)
                    printf("%s\n", s.c_str());
                printf("%s: %s\n", r ? "FAILED" : "OK", msg.c_str());
                return r ? 1 : 0;
            }
        fprintf(stderr, "no scenario %s\n", scn.c_str());
        return 2;
    }

    double t0       = now();
    double deadline = t0 + opt.budget;
    int J           = opt.jobs;
    auto* sh        = (Shared*) mmap(nullptr,
                              sizeof(Shared) * J,
                              PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS,
                              -1,
                              0);
    std::string tmpbase =
        opt.replay_dir + "/.mc." + opt.property + "." + std::to_string(getpid());
    auto outname = [&](int w) { return tmpbase + "." + std::to_string(w); };

    std::vector<int> todo;
    for (size_t i = 0; i < scenarios().size(); ++i)
        if (selected(scenarios()[i]))
            todo.push_back(i);
    if (todo.empty()) {
        fprintf(stderr, "no scenarios\n");
        return 2;
    }

    auto worker = [&](int w) {
        // keep the noise of crashes out of stdout
        int fd = open((outname(w) + ".err").c_str(),
                      O_CREAT | O_TRUNC | O_WRONLY,
                      0644);
        dup2(fd, 2);
        std::ofstream f(outname(w), std::ios::binary);
        for (int idx : todo) {
            Stats st;
            Fail fail;
            bool ok = explore(idx, w, J, &sh[w], st, deadline, fail);
            u64 tag = idx;
            f.write((char*) &tag, 8);
            u64 v[6] = {st.executions,
                        st.steps,
                        st.choices,
                        st.max_depth,
                        u64(st.complete),
                        u64(st.wall * 1e6)};
            f.write((char*) v, sizeof v);
            write_u64s(f, st.states);
            write_u64s(f, st.outcomes);
            u64 nk = st.known.size();
            f.write((char*) &nk, 8);
            for (auto& k : st.known) {
                write_s(f, k.first);
                f.write((char*) &k.second.first, 8);
                write_s(f, k.second.second);
            }
            u64 ns = st.samples.size();
            f.write((char*) &ns, 8);
            for (auto& s : st.samples)
                write_s(f, s);
            u64 bad = !ok;
            f.write((char*) &bad, 8);
            if (bad) {
                u64 n = fail.seq.size();
                f.write((char*) &n, 8);
                for (int c : fail.seq) {
                    u64 x = c;
                    f.write((char*) &x, 8);
                }
                write_s(f, fail.msg);
            }
            f.flush();
        }
        f.close();
        sh[w].done = 1;
        fflush(nullptr);
        _exit(0);
    };

    std::vector<pid_t> pids(J);
    fflush(nullptr);
    for (int w = 0; w < J; ++w) {
        memset((void*) &sh[w], 0, sizeof(Shared));
        pids[w] = fork();
        if (pids[w] == 0)
            worker(w);
    }
    // monitor
    std::vector<u64> last(J, 0);
    std::vector<double> since(J, now());
    std::vector<int> state(J, 0); // 0 running, 1 ok, 2 crashed, 3 hung
    std::vector<int> wstatus(J, 0);
    int running = J;
    while (running) {
        for (int w = 0; w < J; ++w) {
            if (state[w])
                continue;
            int status;
            pid_t q = waitpid(pids[w], &status, WNOHANG);
            if (q == pids[w]) {
                wstatus[w] = status;
                state[w] =
                    WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 1 : 2;
                --running;
                continue;
            }
            u64 e = sh[w].executions;
            if (e != last[w]) {
                last[w]  = e;
                since[w] = now();
            } else if (now() - since[w] > opt.hang) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                state[w] = 3;
                --running;
            }
        }
        usleep(3000);
    }
    // collect
    std::map<int, Stats> total;
    std::map<int, Fail> fails;
    std::vector<std::string> errors;
    for (int w = 0; w < J; ++w) {
        std::ifstream f(outname(w), std::ios::binary);
        while (true) {
            u64 idx = read_u(f);
            if (!f)
                break;
            u64 v[6];
            f.read((char*) v, sizeof v);
            auto& st = total[idx];
            st.executions += v[0];
            st.steps += v[1];
            st.choices += v[2];
            st.max_depth = std::max(st.max_depth, v[3]);
            st.complete  = st.complete && v[4];
            st.wall      = std::max(st.wall, v[5] / 1e6);
            for (u64 n = read_u(f); n; --n)
                st.states.insert(read_u(f));
            for (u64 n = read_u(f); n; --n)
                st.outcomes.insert(read_u(f));
            for (u64 n = read_u(f); n && f; --n) {
                auto k  = read_s(f);
                auto c  = read_u(f);
                auto m  = read_s(f);
                auto& e = st.known[k];
                e.first += c;
                if (e.second.empty())
                    e.second = m;
            }
            for (u64 n = read_u(f); n && f; --n) {
                auto s = read_s(f);
                if (st.samples.size() < 3)
                    st.samples.push_back(s);
            }
            if (read_u(f)) {
                Fail fl;
                fl.scenario = idx;
                for (u64 n = read_u(f); n && f; --n)
                    fl.seq.push_back(read_u(f));
                fl.msg = read_s(f);
                auto it = fails.find(idx);
                if (it == fails.end() ||
                    fl.seq.size() < it->second.seq.size() ||
                    (fl.seq.size() == it->second.seq.size() &&
                     fl.seq < it->second.seq))
                    fails[idx] = fl;
            }
        }
        if (state[w] != 1) {
            Fail fl;
            fl.scenario = sh[w].scenario;
            int n       = std::min<int>(int(sh[w].nchoices), 4096);
            for (int i = 0; i < n; ++i)
                fl.seq.push_back(int(sh[w].choices[i]));
            fl.killed = state[w] == 3 ||
                        (WIFSIGNALED(wstatus[w]) && WTERMSIG(wstatus[w]) != SIGSEGV &&
                         WTERMSIG(wstatus[w]) != SIGABRT && WTERMSIG(wstatus[w]) != SIGBUS &&
                         WTERMSIG(wstatus[w]) != SIGILL && WTERMSIG(wstatus[w]) != SIGFPE);
            fl.msg = state[w] == 3 ? "hang" : "crash";
            std::ifstream ef(outname(w) + ".err");
            std::string l, all;
            while (std::getline(ef, l) && all.size() < 4000)
                all += "\n  " + l;
            auto it = fails.find(fl.scenario);
            if (it == fails.end() || fl.seq.size() < it->second.seq.size())
                fails[fl.scenario] = fl;
            if (total.count(fl.scenario))
                total[fl.scenario].complete = false;
            fails[fl.scenario].log.push_back("worker output: " + all);
        }
        unlink(outname(w).c_str());
        unlink((outname(w) + ".err").c_str());
    }
    int nviol = 0;
    int rc    = 0;
    for (auto& kv : fails) {
        auto& f = kv.second;
        std::string msg;
        std::vector<std::string> log;
        int r = replay_child(f.scenario, f.seq, msg, log, opt.hang);
        if (r == 0) {
            // not reproduced alone: one more time
            r = replay_child(f.scenario, f.seq, msg, log, opt.hang);
        }
        if (r == 0 && !f.killed) {
            // what it did depends on what the process did before: on memory
            // that it should not have read
            f.msg += " (only seen after other executions in the same process, "
                     "so it read memory that it should not)";
            report(f, nviol);
            continue;
        }
        if (r == 0) {
            fprintf(stderr,
                    "mc: failure of scenario %s not reproduced by replay of "
                    "[%s]: %s\n",
                    scenarios()[f.scenario].name.c_str(),
                    seq_str(f.seq).c_str(),
                    f.msg.c_str());
            for (auto& l : f.log)
                fprintf(stderr, "%s\n", l.c_str());
            rc = 2;
            continue;
        }
        f.msg = msg;
        f.log = log;
        report(f, nviol);
    }
    // report known findings
    std::map<std::string, std::pair<u64, std::string>> known;
    for (auto& kv : total)
        for (auto& k : kv.second.known) {
            auto& e = known[k.first];
            e.first += k.second.first;
            if (e.second.empty())
                e.second = k.second.second;
        }
    for (auto& k : known)
        printf("KNOWN-FINDING: property=%s %s: %s (%llu executions)\n",
               opt.property.c_str(),
               k.first.c_str(),
               k.second.second.c_str(),
               (unsigned long long) k.second.first);
    // summary
    u64 states = 0, steps = 0, execs = 0, outcomes = 0;
    bool complete = true;
    for (int idx : todo) {
        auto& st = total[idx];
        states += st.states.size();
        outcomes += st.outcomes.size();
        steps += st.steps;
        execs += st.executions;
        complete = complete && st.complete && !fails.count(idx);
        printf("  %-28s executions=%llu transitions=%llu states=%zu "
               "outcomes=%zu depth=%llu %s %.1fs\n",
               scenarios()[idx].name.c_str(),
               (unsigned long long) st.executions,
               (unsigned long long) st.steps,
               st.states.size(),
               st.outcomes.size(),
               (unsigned long long) st.max_depth,
               st.complete ? "complete" : "CAPPED",
               st.wall);
    }
    if (!opt.evidence.empty()) {
        std::ofstream o(opt.evidence);
        o << "{\"states\": " << states << ", \"transitions\": " << steps
          << ", \"executions\": " << execs << ", \"outcomes\": " << outcomes
          << ", \"exhaustive\": " << (complete ? "true" : "false")
          << ", \"violations\": " << nviol << ", \"wall_s\": " << now() - t0
          << ",\n \"scenarios\": [";
        bool first = true;
        for (int idx : todo) {
            auto& st = total[idx];
            o << (first ? "" : ",") << "\n  {\"name\": "
              << json_str(scenarios()[idx].name)
              << ", \"executions\": " << st.executions
              << ", \"transitions\": " << st.steps
              << ", \"states\": " << st.states.size()
              << ", \"distinct_outcomes\": " << st.outcomes.size()
              << ", \"max_choices\": " << st.max_depth
              << ", \"complete\": " << (st.complete ? "true" : "false")
              << ", \"wall_s\": " << st.wall << "}";
            first = false;
        }
        o << "],\n \"known_findings\": [";
        first = true;
        for (auto& k : known) {
            o << (first ? "" : ",") << "\n  {\"key\": " << json_str(k.first)
              << ", \"executions\": " << k.second.first
              << ", \"example\": " << json_str(k.second.second) << "}";
            first = false;
        }
        o << "],\n \"samples\": [";
        first = true;
        for (int idx : todo)
            for (auto& s : total[idx].samples) {
                o << (first ? "" : ",") << "\n  " << json_str(s);
                first = false;
            }
        o << "]}\n";
    }
    if (nviol)
        return 1;
    return rc;
}

} // namespace mc

int main(int argc, char** argv) { return mc::main(argc, argv); }
