#include "sched.hpp"
#include "sched_rt.hpp"

#include <dlfcn.h>
#include <exception>
#include <stdio.h>

namespace sched {

namespace {
struct Ctx
{
    mc::Run* run;
    std::string error;
    bool pruned = false, violated = false;
    mc::u64 hash = 0;
    unsigned long ops[8] = {};
};
Ctx* ctx;
bool symbolize = false;

int do_choose(void* p, int n)
{
    auto c = static_cast<Ctx*>(p);
    try {
        return c->run->choose(n);
    } catch (mc::Prune&) {
        c->pruned = true;
    } catch (mc::Violation& v) {
        c->violated = true;
        c->error    = v.msg;
    }
    return -1;
}
void do_step(void* p, int tid, unsigned long op)
{
    auto c = static_cast<Ctx*>(p);
    c->run->step();
    c->ops[tid] = op;
    mc::u64 h   = 7;
    for (int i = 0; i < 8; ++i)
        h = mc::mix(h, c->ops[i]);
    c->run->state(h);
    if (c->run->logging())
        c->run->log("run thread " + std::to_string(tid));
}
template <typename Fn>
void guarded(Fn&& f)
{
    try {
        f();
    } catch (mc::Violation& v) {
        rt::set_active(false);
        rt::fail(v.msg.c_str());
    } catch (std::exception& e) {
        rt::set_active(false);
        rt::fail((std::string("exception escaped from a thread: ") + e.what()).c_str());
    } catch (...) {
        rt::set_active(false);
        rt::fail("exception escaped from a thread");
    }
}
void body_main(void* p)
{
    auto f = static_cast<const std::function<void()>*>(p);
    guarded([&] { (*f)(); });
}
// a thread that the code under test started
void thread_main(void*, void* (*fn)(void*), void* arg)
{
    guarded([&] { fn(arg); });
}
} // namespace

Result run(mc::Run& run,
           const std::vector<std::function<void()>>& bodies,
           int preemptions)
{
    Ctx c;
    c.run     = &run;
    ctx       = &c;
    symbolize = run.logging();
    rt::Hooks h{&c, do_choose, thread_main, do_step};
    std::vector<void (*)(void*)> fs;
    std::vector<void*> as;
    for (auto& b : bodies) {
        fs.push_back(body_main);
        as.push_back((void*) &b);
    }
    Result r;
    auto msg = rt::run((int) fs.size(), fs.data(), as.data(), preemptions, &h,
                       &r.points);
    ctx      = nullptr;
    if (c.violated)
        throw mc::Violation{c.error};
    if (c.pruned)
        throw mc::Prune{};
    if (msg)
        throw mc::Violation{msg};
    return r;
}

namespace {
bool call_cond(void* p)
{
    return (*static_cast<const std::function<bool()>*>(p))();
}
} // namespace

void wait_until(const std::function<bool()>& cond)
{
    rt::wait_until(call_cond, (void*) &cond);
}
void point() { rt::point(); }
int self() { return rt::self(); }
Quiet::Quiet()
    : old(rt::active())
{
    rt::set_active(false);
}
Quiet::~Quiet() { rt::set_active(old); }
void fail(const std::string& msg)
{
    rt::set_active(false);
    rt::fail(msg.c_str());
}

} // namespace sched

void rt::describe_pc(void* pc, char* out, size_t n)
{
    Dl_info i;
    if (!dladdr(pc, &i) || !i.dli_fname) {
        snprintf(out, n, "?");
        return;
    }
    size_t off = (char*) pc - (char*) i.dli_fbase - 1;
    if (sched::symbolize) {
        char cmd[600], line[300] = "", fn[300] = "";
        snprintf(cmd, sizeof cmd, "addr2line -Cfe '%s' 0x%zx 2>/dev/null",
                 i.dli_fname, off);
        if (FILE* f = popen(cmd, "r")) {
            if (fgets(fn, sizeof fn, f) && fgets(line, sizeof line, f)) {
                line[strcspn(line, "\n")] = 0;
                fn[strcspn(fn, "\n")]     = 0;
                fn[90]                    = 0;
                snprintf(out, n, "%s (%s)", line, fn);
                pclose(f);
                return;
            }
            pclose(f);
        }
    }
    snprintf(out, n, "+0x%zx", off);
}
