// Deterministic cooperative scheduler: real pthreads, exactly one holds the baton.
#include "sim.h"

#include <absl/synchronization/mutex.h>

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim
{
RunResult* R = nullptr;
RunConfig cfg;
bool g_trace = false;
int64_t g_mono_offset = 0;
static int64_t g_now = 1700000000ll * 1000000000ll;

uint64_t mix64(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hash_str(std::string_view s, uint64_t h)
{
    for (unsigned char c : s)
        h = (h ^ c) * 0x100000001b3ull;
    return h;
}
std::string strf(const char* fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
void trace(const char* fmt, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    trace_mix(hash_str(b));
    if (g_trace)
        fprintf(stderr, "[%d/%d] %s\n", self_id(), cur_op(), b);
}
void trace_mix(uint64_t v) { R->trace_hash = mix64(R->trace_hash, v); }
void probe(const char* name)
{
    for (auto& p : R->probes)
    {
        if (!p.name[0])
            strncpy(p.name, name, sizeof p.name - 1);
        if (!strncmp(p.name, name, sizeof p.name - 1))
        {
            ++p.n;
            return;
        }
    }
}
static void finish(int status)
{
    R->sim_ns = g_now - 1700000000ll * 1000000000ll;
    R->steps = steps();
    R->status = status;
    fflush(stderr);
    _exit(0);
}
static std::string printable(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s)
        if (c >= 32 && c < 127)
            o.push_back((char)c);
        else
            snprintf(b, sizeof b, "\\x%02x", c), o += b;
    return o;
}
void violation(const std::string& tag, const std::string& text)
{
    std::string msg = printable(text);
    if (!R->status)
    {
        snprintf(R->tag, sizeof R->tag, "%s", tag.c_str());
        snprintf(R->msg, sizeof R->msg, "%s", msg.c_str());
    }
    if (g_trace)
        fprintf(stderr, "VIOLATION %s: %s\n", tag.c_str(), msg.c_str());
    finish(2);
    __builtin_unreachable();
}
void harness_error(const std::string& text)
{
    std::string msg = printable(text);
    snprintf(R->tag, sizeof R->tag, "harness-error");
    snprintf(R->msg, sizeof R->msg, "%s", msg.c_str());
    finish(3);
    __builtin_unreachable();
}
void finish_ok()
{
    finish(1);
    __builtin_unreachable();
}

int64_t now_ns() { return g_now; }
void advance_ns(int64_t d) { g_now += d; }

// ------------------------------------------------------------------ threads
namespace
{
    enum State
    {
        RUNNABLE,
        BLOCKED,
        DONE
    };
    struct Thread
    {
        int id = 0;
        State st = RUNNABLE;
        const void* key = nullptr;
        int64_t deadline = INT64_MAX;
        std::atomic<uint32_t> go{0};
        int op = 0;
        uint32_t op_steps = 0;
        uint32_t idle_steps = 0;
        pthread_t real{};
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        std::function<void()> body;
        int noyield = 0;
        bool internal = false;
        bool exited = false;
        bool cancel = false;         // pthread_cancel was called
        bool cancellable = true;
        int64_t prio = 0;
    };
    int64_t lowest_prio = 0;
    std::vector<Thread*> threads;
    thread_local Thread* tls_self = nullptr;
    pthread_key_t exit_key;
    Rng sched_rng(1);
    uint64_t total_steps = 0;
    std::map<std::pair<int, uint32_t>, int> dev_map;

    void futex_wait(std::atomic<uint32_t>& a)
    {
        int saved = errno;
        while (a.load(std::memory_order_acquire) == 0)
            syscall(SYS_futex, (uint32_t*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        a.store(0, std::memory_order_relaxed);
        errno = saved;
    }
    void futex_post(std::atomic<uint32_t>& a)
    {
        int saved = errno;
        a.store(1, std::memory_order_release);
        syscall(SYS_futex, (uint32_t*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
        errno = saved;
    }
    bool can_run(Thread* t)
    {
        if (t->st == RUNNABLE)
            return true;
        if (t->st == BLOCKED && t->deadline <= g_now)
            return true;
        return false;
    }
    void hand_to(Thread* me, Thread* next, bool wait)
    {
        if (next->st == BLOCKED)
        {
            next->st = RUNNABLE;
            next->key = nullptr;
        }
        ++R->switches;
        R->sched_hash = mix64(R->sched_hash, (uint64_t)next->id * 1315423911u + (uint32_t)me->op);
        trace_mix(0x5c4ed + next->id);
        if (g_trace)
            fprintf(stderr,
                    "    -- switch %d(op %d step %u) -> %d\n",
                    me->id,
                    me->op,
                    me->op_steps,
                    next->id);
        futex_post(next->go);
        if (wait)
        {
            futex_wait(me->go);
            resumed();
        }
    }
    void record_dev(int op, uint32_t step, int to)
    {
        if (R->sched_len < sizeof(R->sched) / sizeof(R->sched[0]))
        {
            R->sched[R->sched_len].op = op;
            R->sched[R->sched_len].step = step;
            R->sched[R->sched_len].to = to;
            ++R->sched_len;
        }
    }
    // Chooses who runs now. `must` = the current thread cannot continue.
    Thread* choose(Thread* me, bool must)
    {
        std::vector<Thread*> cand;
        for (auto t : threads)
            if (t != me && can_run(t))
                cand.push_back(t);
        Thread* dflt = nullptr;
        if (!must)
            dflt = me;
        else
        {
            if (cand.empty())
            {
                // advance the clock to the earliest deadline
                Thread* best = nullptr;
                for (auto t : threads)
                    if (t->st == BLOCKED && t->deadline != INT64_MAX
                        && (!best || t->deadline < best->deadline))
                        best = t;
                if (!best)
                    return nullptr;
                if (best->deadline > g_now)
                    g_now = best->deadline;
                if (best == me)
                    return me;
                cand.push_back(best);
            }
            // default: next id after me, cyclic
            for (auto t : cand)
                if (t->id > me->id)
                {
                    dflt = t;
                    break;
                }
            if (!dflt)
                dflt = cand[0];
        }
        Thread* pick = dflt;
        auto it = dev_map.find({me->op, me->op_steps});
        if (it != dev_map.end())
        {
            for (auto t : cand)
                if (t->id == it->second)
                    pick = t;
        }
        else if (cfg.generate_sched && !cand.empty()
                 && R->sched_len < sizeof(R->sched) / sizeof(R->sched[0]))
        {
            if (cfg.prio_change)
            {
                // strict priorities, changed at random points
                if (!must && sched_rng.below(10000) < cfg.prio_change)
                    me->prio = --lowest_prio;
                for (auto t : cand)
                    if (t->prio > pick->prio)
                        pick = t;
            }
            else if (must)
            {
                if (cand.size() > 1)
                    pick = cand[sched_rng.below(cand.size())];
            }
            else if (sched_rng.below(1000) < cfg.preempt_per_mille)
                pick = cand[sched_rng.below(cand.size())];
            if (pick != dflt)
                record_dev(me->op, me->op_steps, pick->id);
        }
        return pick;
    }
    std::string who()
    {
        std::string s;
        for (auto t : threads)
            if (t->st != DONE)
                s += strf(" t%d(op %d,%s)", t->id, t->op, t->st == BLOCKED ? "blocked" : "runnable");
        return s;
    }
    void bump(Thread* me)
    {
        ++me->op_steps;
        ++total_steps;
        if (total_steps > cfg.max_steps)
            violation("liveness", "step limit exceeded without completing:" + who());
    }
    void thread_finish(Thread* me)
    {
        me->st = DONE;
        bump(me);
        hb_release(me);
        wake_all(me);
        race_threads(live_threads());
        Thread* next = choose(me, true);
        if (!next)
            violation("deadlock", "all threads blocked at thread exit:" + who());
        me->exited = true;
        tls_self = nullptr;    // what the thread still does to exit does not count
        hand_to(me, next, false);
    }
    void exit_dtor(void* p)
    {
        thread_finish(static_cast<Thread*>(p));
    }
    void* trampoline(void* p)
    {
        Thread* t = static_cast<Thread*>(p);
        tls_self = t;
        pthread_setspecific(exit_key, t);
        futex_wait(t->go);
        resumed();
        hb_acquire(t);
        if (t->body)
        {
            t->body();
            return nullptr;
        }
        return t->fn(t->arg);
    }
    using pthread_create_t
        = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    using pthread_join_t = int (*)(pthread_t, void**);
    template <class T>
    T real_sym(const char* n)
    {
        return reinterpret_cast<T>(dlsym(RTLD_NEXT, n));
    }
    Thread* new_thread()
    {
        auto t = new Thread;
        t->id = (int)threads.size();
        t->op = -(t->id + 1);
        if (cfg.prio_change)
            t->prio = 1 + (int64_t)sched_rng.below(1 << 20);
        threads.push_back(t);
        return t;
    }
    void start_real(Thread* t, const pthread_attr_t* attr)
    {
        static auto real = real_sym<pthread_create_t>("pthread_create");
        race_threads(live_threads());
        if (tls_self)
            hb_release(t);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 20);
        int rc = real(&t->real, attr ? attr : &a, trampoline, t);
        pthread_attr_destroy(&a);
        if (rc)
            harness_error("pthread_create failed");
    }
}    // namespace

void sched_init_main()
{
    if (!exit_key)
        pthread_key_create(&exit_key, exit_dtor);
    auto t = new_thread();
    t->real = pthread_self();
    tls_self = t;
    sched_rng = Rng(cfg.sched_seed);
    for (auto& d : cfg.devs)
        dev_map[{d.op, d.step}] = d.to;
}
struct KeyInit
{
    KeyInit() { pthread_key_create(&exit_key, exit_dtor); }
} g_key_init;

int self_id() { return tls_self ? tls_self->id : -1; }
int cur_op() { return tls_self ? tls_self->op : 0; }
uint64_t steps() { return total_steps; }
int live_threads()
{
    int n = 0;
    for (auto t : threads)
        n += t->st != DONE;
    return n;
}
void begin_op(int op)
{
    if (!tls_self)
        return;
    if (tls_self->op < 0)
        tls_self->idle_steps = tls_self->op_steps;
    tls_self->op = op;
    tls_self->op_steps = 0;
}
void end_op()
{
    if (!tls_self)
        return;
    tls_self->op = -(tls_self->id + 1);
    tls_self->op_steps = tls_self->idle_steps;
}
int spawn(const std::function<void()>& fn)
{
    auto t = new_thread();
    t->body = fn;
    start_real(t, nullptr);
    return t->id;
}
void join(int tid)
{
    Thread* t = threads[tid];
    while (t->st != DONE)
        block_on(t);
    hb_acquire(t);
    static auto real = real_sym<pthread_join_t>("pthread_join");
    real(t->real, nullptr);
    t->real = 0;    // the number may come back
}
void yield(int)
{
    Thread* me = tls_self;
    if (!me || me->noyield || threads.size() < 2 || me->st == DONE)
        return;
    bump(me);
    Thread* next = choose(me, false);
    if (next != me)
        hand_to(me, next, true);
}
void block_on(const void* key, int64_t deadline)
{
    Thread* me = tls_self;
    if (!me)
        return;
    me->st = BLOCKED;
    me->key = key;
    me->deadline = deadline;
    bump(me);
    Thread* next = choose(me, true);
    if (!next)
        violation("deadlock", "no thread can make progress:" + who());
    if (next != me)
        hand_to(me, next, true);
    me->st = RUNNABLE;
    me->key = nullptr;
    me->deadline = INT64_MAX;
}
void test_cancel()
{
    Thread* me = tls_self;
    if (!me || !me->cancel || !me->cancellable)
        return;
    me->cancellable = false;
    trace("thread %d cancelled", me->id);
    pthread_exit(PTHREAD_CANCELED);
}
void wake_all(const void* key)
{
    for (auto t : threads)
        if (t->st == BLOCKED && t->key == key)
        {
            t->st = RUNNABLE;
            t->key = nullptr;
        }
}
void sleep_until(int64_t ns)
{
    static int dummy;
    while (g_now < ns)
    {
        if (threads.size() < 2)
        {
            g_now = ns;
            return;
        }
        block_on(&dummy, ns);
    }
}
NoYield::NoYield()
{
    if (tls_self)
        ++tls_self->noyield;
}
NoYield::~NoYield()
{
    if (tls_self)
        --tls_self->noyield;
}

#ifndef SIM_RACE
void hb_acquire(const void*) {}
void hb_release(const void*) {}
#endif
}    // namespace sim

// ---------------------------------------------------------------------- absl::Mutex runtime
namespace simrt
{
using sim::block_on;
using sim::self_id;
using sim::violation;
uint64_t hash_salt() noexcept { return sim::cfg.seed * 0x9E3779B97F4A7C15ull; }
int64_t now_ns()
{
    sim::yield(1);
    sim::advance_ns(1000);
    return sim::now_ns();
}
// Readers are not ordered among each other.
static const void* readers(MutexState* m) { return reinterpret_cast<const char*>(m) + 1; }
static void check(MutexState* m)
{
    if (m->magic != 0x51A17EC5u)
        violation("use-after-free", "operation on a destroyed mutex");
}
void mutex_lock(MutexState* m)
{
    sim::yield(2);
    check(m);
    int me = self_id();
    if (m->writer == me && me >= 0)
        violation("deadlock", "mutex locked twice by the same thread");
    ++m->writers_waiting;
    while (m->writer >= 0 || m->nreaders > 0)
    {
        block_on(m);
        check(m);
    }
    --m->writers_waiting;
    m->writer = me < 0 ? 1000000 : me;
    sim::hb_acquire(m);
    sim::hb_acquire(readers(m));
}
bool mutex_trylock(MutexState* m)
{
    sim::yield(2);
    check(m);
    if (m->writer >= 0 || m->nreaders > 0)
        return false;
    m->writer = self_id() < 0 ? 1000000 : self_id();
    sim::hb_acquire(m);
    sim::hb_acquire(readers(m));
    return true;
}
void mutex_unlock(MutexState* m)
{
    check(m);
    if (m->writer < 0)
    {
        if (m->nreaders > 0)
        {
            mutex_runlock(m);
            return;
        }
        violation("mutex-misuse", "unlock of a mutex that is not held");
    }
    if (self_id() >= 0 && m->writer != self_id())
        violation("mutex-misuse", "unlock of a mutex held by another thread");
    sim::hb_release(m);
    m->writer = -1;
    sim::wake_all(m);
    sim::yield(3);
}
void mutex_rlock(MutexState* m)
{
    sim::yield(2);
    check(m);
    if (m->writer == self_id() && self_id() >= 0)
        violation("deadlock", "mutex read-locked by its own writer");
    while (m->writer >= 0 || (sim::cfg.writer_priority && m->writers_waiting > 0))
    {
        block_on(m);
        check(m);
    }
    ++m->nreaders;
    sim::hb_acquire(m);
}
bool mutex_tryrlock(MutexState* m)
{
    sim::yield(2);
    check(m);
    if (m->writer >= 0)
        return false;
    ++m->nreaders;
    sim::hb_acquire(m);
    return true;
}
void mutex_runlock(MutexState* m)
{
    check(m);
    if (m->nreaders <= 0)
    {
        if (m->writer >= 0)
        {
            mutex_unlock(m);
            return;
        }
        violation("mutex-misuse", "reader unlock of a mutex that is not held");
    }
    sim::hb_release(readers(m));
    if (--m->nreaders == 0)
        sim::wake_all(m);
    sim::yield(3);
}
void mutex_destroy(MutexState* m)
{
    check(m);
    if (m->writer >= 0 || m->nreaders > 0)
        violation("mutex-misuse", "mutex destroyed while held");
    m->magic = 0xDEADDEADu;
}
bool mutex_held_excl(const MutexState* m) { return m->writer >= 0; }
bool mutex_await(MutexState* m, const std::function<bool()>& cond, int64_t deadline, bool)
{
    sim::yield(4);
    if (cond())
        return true;
    for (;;)
    {
        if (sim::now_ns() >= deadline)
            return cond();
        sim::hb_release(m);
        m->writer = -1;
        sim::wake_all(m);
        block_on(m, deadline);
        check(m);
        while (m->writer >= 0 || m->nreaders > 0)
        {
            block_on(m);
            check(m);
        }
        m->writer = self_id();
        sim::hb_acquire(m);
        sim::hb_acquire(readers(m));
        if (cond())
            return true;
    }
}
void cv_wait(void* cv, MutexState* m, int64_t deadline, bool* timed_out)
{
    mutex_unlock(m);
    block_on(cv, deadline);
    if (timed_out)
        *timed_out = sim::now_ns() >= deadline;
    mutex_lock(m);
}
void cv_signal(void* cv, bool) { sim::wake_all(cv); }
}    // namespace simrt

// ---------------------------------------------------------------------- pthread interposition
using namespace sim;
extern "C"
{
    int pthread_create(pthread_t* out,
                       const pthread_attr_t* attr,
                       void* (*fn)(void*),
                       void* arg)
    {
        if (!tls_self)
            return real_sym<pthread_create_t>("pthread_create")(out, attr, fn, arg);
        auto t = new_thread();
        t->fn = fn;
        t->arg = arg;
        t->internal = true;
        start_real(t, attr);
        *out = t->real;
        yield(5);
        return 0;
    }
    int pthread_join(pthread_t th, void** ret)
    {
        static auto real = real_sym<pthread_join_t>("pthread_join");
        if (tls_self)
        {
            for (auto t : threads)
                if (t->id > 0 && pthread_equal(t->real, th))
                {
                    while (t->st != DONE)
                        block_on(t);
                    hb_acquire(t);
                    int rc = real(th, ret);
                    t->real = 0;
                    return rc;
                }
        }
        return real(th, ret);
    }
    int pthread_cancel(pthread_t th)
    {
        if (!tls_self)
            return real_sym<int (*)(pthread_t)>("pthread_cancel")(th);
        yield(7);
        for (auto t : threads)
            if (t->id > 0 && t->real && pthread_equal(t->real, th))
            {
                t->cancel = true;
                if (t->st == BLOCKED && t->cancellable)
                    t->st = RUNNABLE;    // whatever it waits for looks again
                return 0;
            }
        return ESRCH;
    }
    int pthread_setcancelstate(int st, int* old)
    {
        if (!tls_self)
            return real_sym<int (*)(int, int*)>("pthread_setcancelstate")(st, old);
        if (old)
            *old = tls_self->cancellable ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE;
        tls_self->cancellable = st == PTHREAD_CANCEL_ENABLE;
        return 0;
    }
    int pthread_setcanceltype(int, int* old)
    {
        if (old)
            *old = PTHREAD_CANCEL_DEFERRED;
        return 0;
    }
    void pthread_testcancel(void) { test_cancel(); }
    typedef int (*mtx_fn)(pthread_mutex_t*);
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        static mtx_fn real = real_sym<mtx_fn>("pthread_mutex_lock");
        static mtx_fn tryl = real_sym<mtx_fn>("pthread_mutex_trylock");
        if (!tls_self || threads.size() < 2)
            return real(m);
        yield(6);
        for (;;)
        {
            int rc = tryl(m);
            if (rc != EBUSY)
            {
                if (rc == 0)
                    hb_acquire(m);
                return rc;
            }
            block_on(m);
        }
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        static mtx_fn tryl = real_sym<mtx_fn>("pthread_mutex_trylock");
        int rc = tryl(m);
        if (rc == 0 && tls_self)
            hb_acquire(m);
        return rc;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        static mtx_fn real = real_sym<mtx_fn>("pthread_mutex_unlock");
        if (!tls_self || threads.size() < 2)
            return real(m);
        hb_release(m);
        int rc = real(m);
        wake_all(m);
        return rc;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!tls_self)
            return real_sym<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m);
        pthread_mutex_unlock(m);
        block_on(c);
        pthread_mutex_lock(m);
        return 0;
    }
    static int cond_until(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* t)
    {
        struct timespec n;
        clock_gettime(clk, &n);
        int64_t left = ((int64_t)t->tv_sec - n.tv_sec) * 1000000000ll + (t->tv_nsec - n.tv_nsec);
        int64_t end = now_ns() + (left > 0 ? left : 0);
        pthread_mutex_unlock(m);
        if (left > 0)
            block_on(c, end);
        bool late = now_ns() >= end;
        pthread_mutex_lock(m);
        return late ? ETIMEDOUT : 0;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
    {
        if (!tls_self)
            return real_sym<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
                "pthread_cond_timedwait")(c, m, t);
        return cond_until(c, m, CLOCK_REALTIME, t);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
    {
        if (!tls_self)
            return real_sym<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>(
                "pthread_cond_clockwait")(c, m, k, t);
        return cond_until(c, m, k, t);
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (!tls_self)
            return real_sym<int (*)(pthread_cond_t*)>("pthread_cond_signal")(c);
        wake_all(c);    // a wakeup without a signal is allowed
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!tls_self)
            return real_sym<int (*)(pthread_cond_t*)>("pthread_cond_broadcast")(c);
        wake_all(c);
        return 0;
    }
    // The first ints of a pthread_rwlock_t (all zero at first): the writer's number + 1, how many readers.
    static int rw_take(pthread_rwlock_t* l, bool write, bool wait)
    {
        int* p = reinterpret_cast<int*>(l);
        int me = tls_self ? self_id() + 1 : 1;
        if (tls_self)
            yield(6);
        while (p[0] || (write && p[1]))
        {
            if (p[0] == me)
                return EDEADLK;
            if (!wait || !tls_self)
                return EBUSY;
            block_on(l);
        }
        if (write)
            p[0] = me;
        else
            ++p[1];
        if (tls_self)
        {
            hb_acquire(l);
            if (write)
                hb_acquire(reinterpret_cast<char*>(l) + 1);
        }
        return 0;
    }
    int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
    {
        memset(l, 0, sizeof *l);
        return 0;
    }
    int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
    int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_take(l, false, true); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_take(l, true, true); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_take(l, false, false); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_take(l, true, false); }
    int pthread_rwlock_unlock(pthread_rwlock_t* l)
    {
        int* p = reinterpret_cast<int*>(l);
        if (p[0])
        {
            if (tls_self)
                hb_release(l);
            p[0] = 0;
        }
        else if (p[1] > 0)
        {
            if (tls_self)
                hb_release(reinterpret_cast<char*>(l) + 1);
            --p[1];
        }
        else
            return EPERM;
        if (tls_self)
            wake_all(l);
        return 0;
    }
    typedef int (*once_fn)(pthread_once_t*, void (*)());
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        // own implementation: 0 = new, 1 = running, 2 = done (matches PTHREAD_ONCE_INIT == 0)
        int* p = reinterpret_cast<int*>(o);
        while (*p == 1)
            block_on(o);
        if (*p == 2)
        {
            hb_acquire(o);
            return 0;
        }
        *p = 1;
        f();
        hb_release(o);
        *p = 2;
        if (tls_self)
            wake_all(o);
        return 0;
    }
    // Function-local statics: same protocol as libstdc++ (byte 0 = done), blocking via scheduler.
    int __cxa_guard_acquire(long long int* g)
    {
        auto* b = reinterpret_cast<volatile unsigned char*>(g);
        for (;;)
        {
            if (b[0])
            {
                hb_acquire(g);
                return 0;
            }
            if (!b[1])
            {
                b[1] = 1;
                return 1;
            }
            if (!tls_self)
                abort();
            block_on(g);
        }
    }
    void __cxa_guard_release(long long int* g)
    {
        auto* b = reinterpret_cast<volatile unsigned char*>(g);
        if (tls_self)
            hb_release(g);
        b[1] = 0;
        __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
        if (tls_self)
            wake_all(g);
    }
    void __cxa_guard_abort(long long int* g)
    {
        auto* b = reinterpret_cast<volatile unsigned char*>(g);
        b[1] = 0;
        if (tls_self)
            wake_all(g);
    }
}
