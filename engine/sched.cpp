// See sched.hpp.  NOT compiled with -fsanitize=thread (the file uses no inline
// library templates that the instrumented code also instantiates, other than
// through function pointers, so that the linker cannot replace instrumented
// code by uninstrumented code).
#include "sched_rt.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

namespace {

constexpr int MAXT = 8;

struct Clock
{
    uint32_t c[MAXT];
};
inline void join(Clock& a, const Clock& b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

enum State { Free, Runnable, BlockedMutex, BlockedCond, BlockedWait, Done };

struct Thread
{
    pthread_t th;
    sem_t sem;
    State state;
    void* obj;              // mutex / cond waited for
    void* cond_mutex;
    bool (*wait_fn)(void*); // BlockedWait
    void* wait_arg;
    void (*body)(void*);
    void* body_arg;
    Clock clock;
    unsigned long ops;
};

struct Start // a thread started by the code under test
{
    void* (*fn)(void*);
    void* arg;
};

struct Pool
{
    Thread t[MAXT];
    int created;
};
Pool* pool = nullptr;

// ---- per execution state ----------------------------------------------------
int nthreads, current, preempt_left;
rt::Hooks* hooks;
sem_t main_sem;
bool failed, aborted;
char fail_msg[2048];
unsigned long points;
uint32_t generation = 1;

thread_local int tid          = -1;
thread_local bool active_flag = false;

// ---- small open addressing tables ---------------------------------------------
struct SyncObj
{
    uintptr_t addr;
    uint32_t gen;
    int owner; // mutex owner, -1 free
    int depth;
    Clock clock;
};
constexpr size_t SYNC_N = 1 << 14;
SyncObj* syncs;
SyncObj* sync_of(const void* p)
{
    uintptr_t a = (uintptr_t) p;
    size_t i    = (a >> 2) * 0x9E3779B97F4A7C15ull >> 40;
    for (;; ++i) {
        auto& s = syncs[i & (SYNC_N - 1)];
        if (s.gen != generation) {
            memset(&s, 0, sizeof s);
            s.addr  = a;
            s.gen   = generation;
            s.owner = -1;
            return &s;
        }
        if (s.addr == a)
            return &s;
    }
}

struct Cell // 8 bytes of memory
{
    uintptr_t addr;
    uint32_t gen;
    uint8_t freed;
    // last write per byte group: we keep up to 8 bytes individually
    uint8_t wtid[8]; // 0 = none, else tid+1
    uint32_t wclk[8];
    uintptr_t wpc[8];
    uint32_t rclk[MAXT];
    uint8_t rmask[MAXT];
    uintptr_t rpc[MAXT];
};
constexpr size_t CELL_N = 1 << 16;
Cell* cells;
size_t ncells;
Cell* cell_of(uintptr_t a8)
{
    size_t i = a8 * 0x9E3779B97F4A7C15ull >> 40;
    for (;; ++i) {
        auto& s = cells[i & (CELL_N - 1)];
        if (s.gen != generation) {
            if (++ncells > CELL_N / 2) {
                fprintf(stderr, "sched: shadow memory full\n");
                abort();
            }
            memset(&s, 0, sizeof s);
            s.addr = a8;
            s.gen  = generation;
            return &s;
        }
        if (s.addr == a8)
            return &s;
    }
}

// quarantine
void** quarantine;
size_t nquar, cquar;



[[noreturn]] void park()
{
    // this thread never continues
    for (;;)
        pause_forever();
}

void set_fail(const char* msg)
{
    if (!failed) {
        failed = true;
        snprintf(fail_msg, sizeof fail_msg, "%s", msg);
    }
}

void stop_all()
{
    aborted = true;
    sem_post(&main_sem);
    active_flag = false;
    park();
}

bool enabled(int i)
{
    auto& t = pool->t[i];
    switch (t.state) {
    case Runnable: return true;
    case BlockedMutex: return sync_of(t.obj)->owner < 0;
    case BlockedWait: return t.wait_fn(t.wait_arg);
    default: return false;
    }
}

void switch_to(int next)
{
    int me = tid;
    if (next == me)
        return;
    current = next;
    Pool* p   = pool;
    bool done = p->t[me].state == Done; // may be reused right after the post
    sem_post(&p->t[next].sem);
    if (done)
        return;
    while (sem_wait(&p->t[me].sem) != 0)
        ;
}

// choose who runs next; the caller may be blocked or done
void reschedule(bool voluntary)
{
    int en[MAXT], n = 0;
    int me      = tid;
    bool me_on  = enabled(me);
    if (me_on)
        en[n++] = me;
    if (!me_on || voluntary || preempt_left > 0)
        for (int i = 0; i < nthreads; ++i)
            if (i != me && enabled(i))
                en[n++] = i;
    if (n == 0) {
        bool all_done = true;
        for (int i = 0; i < nthreads; ++i)
            if (pool->t[i].state != Done)
                all_done = false;
        if (all_done) {
            sem_post(&main_sem);
            return;
        }
        set_fail("deadlock: no thread can continue");
        stop_all();
    }
    ++points;
    int k = n == 1 ? 0 : hooks->choose(hooks->arg, n);
    if (k < 0) { // pruned or failed
        stop_all();
    }
    int next = en[k];
    if (me_on && next != me && !voluntary)
        --preempt_left;
    auto& t = pool->t[next];
    t.state = Runnable;
    t.ops++;
    hooks->step(hooks->arg, next, t.ops);
    switch_to(next);
}

void sched_point()
{
    active_flag = false;
    reschedule(false);
    active_flag = true;
}

void* thread_main(void* p)
{
    Thread* t = (Thread*) p;
    tid       = (int) (t - pool->t);
    for (;;) {
        while (sem_wait(&t->sem) != 0)
            ;
        active_flag = true;
        t->body(t->body_arg);
        active_flag = false;
        t->state    = Done;
        reschedule(false);
    }
    return nullptr;
}

void new_pool()
{
    pool = (Pool*) calloc(1, sizeof(Pool));
    if (!syncs) {
        syncs = (SyncObj*) calloc(SYNC_N, sizeof(SyncObj));
        cells = (Cell*) mmap(nullptr, CELL_N * sizeof(Cell), PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        sem_init(&main_sem, 0, 0);
    }
}

// ---- race detection ---------------------------------------------------------------

void describe(uintptr_t pc, char* out, size_t n)
{
    rt::describe_pc((void*) pc, out, n);
}

void race(const char* what, uintptr_t addr, uintptr_t pc1, int t1, uintptr_t pc2)
{
    active_flag = false;
    char a[400], b[400];
    describe(pc1, a, sizeof a);
    describe(pc2, b, sizeof b);
    char m[1200];
    snprintf(m, sizeof m, "data race: %s; thread %d at %s; thread %d at %s",
             what, tid, b, t1, a);
    (void) addr;
    set_fail(m);
    stop_all();
}

void access(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
    if (!active_flag)
        return;
    active_flag = false;
    auto& me    = pool->t[tid];
    while (n) {
        uintptr_t a8 = a >> 3;
        size_t off   = a & 7;
        size_t len   = n < 8 - off ? n : 8 - off;
        uint8_t mask = (uint8_t) (((1u << len) - 1) << off);
        Cell* c      = cell_of(a8);
        if (c->freed & mask) {
            char b[400], m[600];
            describe(pc, b, sizeof b);
            snprintf(m, sizeof m, "use of freed memory by thread %d at %s", tid, b);
            set_fail(m);
            stop_all();
        }
        for (size_t i = off; i < off + len; ++i)
            if (c->wtid[i] && c->wtid[i] - 1 != tid &&
                c->wclk[i] > me.clock.c[c->wtid[i] - 1])
                race(write ? "write after unordered write" : "read after unordered write",
                     a, c->wpc[i], c->wtid[i] - 1, pc);
        if (write) {
            for (int t = 0; t < nthreads; ++t)
                if (t != tid && (c->rmask[t] & mask) && c->rclk[t] > me.clock.c[t])
                    race("write after unordered read", a, c->rpc[t], t, pc);
            for (size_t i = off; i < off + len; ++i) {
                c->wtid[i] = (uint8_t) (tid + 1);
                c->wclk[i] = me.clock.c[tid];
                c->wpc[i]  = pc;
            }
        } else {
            if (c->rclk[tid] != me.clock.c[tid])
                c->rmask[tid] = 0;
            c->rclk[tid] = me.clock.c[tid];
            c->rmask[tid] |= mask;
            c->rpc[tid] = pc;
        }
        a += len;
        n -= len;
    }
    active_flag = true;
}

void mark_fresh(void* p, size_t n)
{
    uintptr_t a = (uintptr_t) p;
    for (uintptr_t x = a >> 3; x <= (a + n - 1) >> 3 && n; ++x) {
        size_t i = x * 0x9E3779B97F4A7C15ull >> 40;
        // only reset cells that exist
        for (;; ++i) {
            auto& s = cells[i & (CELL_N - 1)];
            if (s.gen != generation)
                break;
            if (s.addr == x) {
                memset((char*) &s + offsetof(Cell, freed), 0,
                       sizeof(Cell) - offsetof(Cell, freed));
                break;
            }
        }
    }
}

void acquire(SyncObj* s) { join(pool->t[tid].clock, s->clock); }
void release(SyncObj* s)
{
    join(s->clock, pool->t[tid].clock);
    pool->t[tid].clock.c[tid]++;
}
void release_set(SyncObj* s)
{
    s->clock = pool->t[tid].clock;
    pool->t[tid].clock.c[tid]++;
}

template <typename T>
T real(const char* name)
{
    return (T) dlsym(RTLD_NEXT, name);
}

} // namespace

namespace {
void start_main(void* p)
{
    Start s = *(Start*) p;
    free(p);
    hooks->thread(hooks->arg, s.fn, s.arg);
}
void prepare(int i, void (*body)(void*), void* arg)
{
    auto& t    = pool->t[i];
    t.state    = Runnable;
    t.body     = body;
    t.body_arg = arg;
    t.ops      = 0;
    memset(&t.clock, 0, sizeof t.clock);
    t.clock.c[i] = 1;
    if (i >= pool->created) {
        static auto f =
            real<int (*)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*)>(
                "pthread_create");
        sem_init(&t.sem, 0, 0);
        pool->created = i + 1;
        f(&t.th, nullptr, thread_main, &t);
    }
}
int find_thread(pthread_t th)
{
    for (int i = 0; i < nthreads; ++i)
        if (pthread_equal(pool->t[i].th, th))
            return i;
    return -1;
}
bool is_done(void* p) { return ((Thread*) p)->state == Done; }
} // namespace

namespace rt {

bool active() { return active_flag; }
void set_active(bool b) { active_flag = b; }
int self() { return tid; }

// returns nullptr when the execution completed, or the failure message
const char* run(int n, void (**bodies)(void*), void** args, int preemptions,
                Hooks* h, unsigned long* out_points)
{
    if (!pool)
        new_pool();
    ++generation;
    ncells       = 0;
    nthreads     = n;
    preempt_left = preemptions;
    hooks        = h;
    failed = aborted = false;
    points           = 0;
    for (int i = 0; i < n; ++i) {
        prepare(i, bodies[i], args[i]);
    }
    // the first thread is a free choice
    int first = n == 1 ? 0 : h->choose(h->arg, n);
    if (first < 0)
        return nullptr;
    current = first;
    sem_post(&pool->t[first].sem);
    while (sem_wait(&main_sem) != 0)
        ;
    *out_points = points;
    // release the quarantine
    if (aborted)
        pool = nullptr; // its threads are parked for ever
    for (size_t i = 0; i < nquar; ++i)
        if (!aborted)
            ::free(quarantine[i]);
    nquar = 0;
    return failed ? fail_msg : nullptr;
}

void fail(const char* msg)
{
    active_flag = false;
    set_fail(msg);
    stop_all();
}

void point()
{
    if (active_flag)
        sched_point();
}

void wait_until(bool (*fn)(void*), void* arg)
{
    active_flag = false;
    auto& t     = pool->t[tid];
    t.wait_fn   = fn;
    t.wait_arg  = arg;
    t.state     = BlockedWait;
    reschedule(true);
    // what the condition observed happened before
    for (int i = 0; i < nthreads; ++i)
        if (i != tid) {
            join(t.clock, pool->t[i].clock);
            pool->t[i].clock.c[i]++;
        }
    active_flag = true;
}

} // namespace rt

// ---- interposed pthread functions -----------------------------------------------------

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static auto f =
        real<int (*)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*)>(
            "pthread_create");
    if (!active_flag)
        return f(out, attr, fn, arg);
    active_flag = false;
    if (nthreads == MAXT)
        rt::fail("too many threads for the scheduler");
    int i  = nthreads++;
    auto s = (Start*) malloc(sizeof(Start));
    s->fn  = fn;
    s->arg = arg;
    prepare(i, start_main, s);
    join(pool->t[i].clock, pool->t[tid].clock);
    pool->t[tid].clock.c[tid]++;
    *out        = pool->t[i].th;
    active_flag = true;
    sched_point();
    return 0;
}

int pthread_join(pthread_t th, void** ret)
{
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!active_flag)
        return f(th, ret);
    int i = find_thread(th);
    if (i < 0)
        return ESRCH;
    active_flag = false;
    auto& t     = pool->t[tid];
    t.wait_fn   = is_done;
    t.wait_arg  = &pool->t[i];
    t.state     = BlockedWait;
    reschedule(true);
    join(t.clock, pool->t[i].clock);
    active_flag = true;
    if (ret)
        *ret = nullptr;
    return 0;
}

int pthread_detach(pthread_t th)
{
    static auto f = real<int (*)(pthread_t)>("pthread_detach");
    if (!active_flag)
        return f(th);
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!active_flag)
        return f(m);
    sched_point();
    active_flag = false;
    for (;;) {
        auto s = sync_of(m);
        if (s->owner < 0) {
            s->owner = tid;
            acquire(s);
            break;
        }
        auto& t = pool->t[tid];
        t.state = BlockedMutex;
        t.obj   = m;
        reschedule(false);
    }
    active_flag = true;
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!active_flag)
        return f(m);
    sched_point();
    auto s = sync_of(m);
    if (s->owner >= 0)
        return EBUSY;
    s->owner = tid;
    acquire(s);
    return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!active_flag)
        return f(m);
    auto s = sync_of(m);
    if (s->owner != tid)
        rt::fail("unlock of a mutex that the thread does not hold");
    s->owner = -1;
    release(s);
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto f =
        real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!active_flag)
        return f(c, m);
    pthread_mutex_unlock(m);
    active_flag = false;
    auto& t     = pool->t[tid];
    t.state     = BlockedCond;
    t.obj       = c;
    reschedule(false);
    acquire(sync_of(c));
    active_flag = true;
    return pthread_mutex_lock(m);
}

static int wake(pthread_cond_t* c, bool all)
{
    sched_point();
    release(sync_of(c));
    for (int i = 0; i < nthreads; ++i) {
        auto& t = pool->t[i];
        if (t.state == BlockedCond && t.obj == c) {
            t.state = Runnable;
            if (!all)
                break;
        }
    }
    return 0;
}

int pthread_cond_signal(pthread_cond_t* c)
{
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!active_flag)
        return f(c);
    return wake(c, false);
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!active_flag)
        return f(c);
    return wake(c, true);
}

// ---- tsan instrumentation ----------------------------------------------------------------

#define PC ((uintptr_t) __builtin_return_address(0))
#define RW(n)                                                                  \
    void __tsan_read##n(void* p) { access((uintptr_t) p, n, false, PC); }       \
    void __tsan_write##n(void* p) { access((uintptr_t) p, n, true, PC); }       \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t) p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t) p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t) p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t) p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t) p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t) p, n, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t) p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access((uintptr_t) p, 8, true, PC);
}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}

static inline bool acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void atomic_pre(const volatile void* p, uintptr_t pc)
{
    if (!active_flag)
        return;
    sched_point();
    // an atomic access to freed memory is an error too
    active_flag = false;
    Cell* c     = cell_of((uintptr_t) p >> 3);
    if (c->freed & (1u << ((uintptr_t) p & 7))) {
        char b[400], m[600];
        describe(pc, b, sizeof b);
        snprintf(m, sizeof m, "atomic use of freed memory by thread %d at %s", tid, b);
        set_fail(m);
        stop_all();
    }
    active_flag = true;
}
static void atomic_post(const volatile void* p, int mo, bool rd, bool wr)
{
    if (!active_flag)
        return;
    auto s = sync_of((const void*) p);
    if (rd && acq(mo))
        acquire(s);
    if (wr) {
        if (rel(mo)) {
            if (rd)
                release(s);
            else
                release_set(s);
        } else if (!rd)
            memset(&s->clock, 0, sizeof s->clock);
    }
}

#define ATOMICS(N, T)                                                          \
    T __tsan_atomic##N##_load(const volatile T* a, int mo)                     \
    {                                                                          \
        atomic_pre(a, PC);                                                     \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                            \
        atomic_post(a, mo, true, false);                                       \
        return v;                                                              \
    }                                                                          \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo)                  \
    {                                                                          \
        atomic_pre(a, PC);                                                     \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                              \
        atomic_post(a, mo, false, true);                                       \
    }                                                                          \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo)                  \
    {                                                                          \
        atomic_pre(a, PC);                                                     \
        T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                     \
        atomic_post(a, mo, true, true);                                        \
        return r;                                                              \
    }                                                                          \
    RMW(N, T, fetch_add)                                                       \
    RMW(N, T, fetch_sub)                                                       \
    RMW(N, T, fetch_and)                                                       \
    RMW(N, T, fetch_or)                                                        \
    RMW(N, T, fetch_xor)                                                       \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    {                                                                          \
        atomic_pre(a, PC);                                                     \
        bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomic_post(a, ok ? mo : fmo, true, ok);                               \
        return ok;                                                             \
    }                                                                          \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    {                                                                          \
        atomic_pre(a, PC);                                                     \
        bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomic_post(a, ok ? mo : fmo, true, ok);                               \
        return ok;                                                             \
    }
#define RMW(N, T, op)                                                          \
    T __tsan_atomic##N##_##op(volatile T* a, T v, int mo)                      \
    {                                                                          \
        atomic_pre(a, PC);                                                     \
        T r = __atomic_##op(a, v, __ATOMIC_SEQ_CST);                           \
        atomic_post(a, mo, true, true);                                        \
        return r;                                                              \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ---- allocation ------------------------------------------------------------------------------

extern "C" {
void* __libc_malloc(size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

static void* fresh(void* p)
{
    if (p && active_flag)
        mark_fresh(p, malloc_usable_size(p));
    return p;
}
static void* alloc(size_t n)
{
    void* p = __libc_malloc(n ? n : 1);
    if (!p)
        abort();
    return fresh(p);
}
static void dealloc(void* p, uintptr_t pc)
{
    if (!p)
        return;
    if (!active_flag) {
        __libc_free(p);
        return;
    }
    active_flag = false;
    size_t n    = malloc_usable_size(p);
    uintptr_t a = (uintptr_t) p;
    // deleting is a write to all of it
    active_flag = true;
    access(a, n, true, pc);
    active_flag = false;
    for (uintptr_t x = a >> 3; x <= (a + n - 1) >> 3; ++x)
        cell_of(x)->freed = 0xff;
    if (nquar == cquar) {
        cquar      = cquar ? cquar * 2 : 1024;
        quarantine = (void**) realloc(quarantine, cquar * sizeof(void*));
    }
    quarantine[nquar++] = p;
    active_flag         = true;
}

extern "C" {
void* malloc(size_t n) { return fresh(__libc_malloc(n)); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void free(void* p) { dealloc(p, PC); }
}

void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p, PC); }
void operator delete[](void* p) noexcept { dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, PC); }
