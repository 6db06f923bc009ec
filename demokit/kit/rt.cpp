// Real-time runtime of the demonstrations: pthread-based locks, real clock, stand-in for libfuse.
#include "kit.h"
#include <absl/synchronization/mutex.h>
#include <condition_variable>
#include <cstdarg>
#include <ftw.h>
#include <fuse.h>
#include <fuse_lowlevel.h>
#include <mutex>
#include <shared_mutex>
#include <unistd.h>
namespace simrt
{
struct Big
{
    std::mutex m;
    std::condition_variable cv;
};
static Big& big()
{
    static Big* b = new Big;
    return *b;
}
static thread_local int t_id = 0;
static int me()
{
    static std::atomic<int> n{0};
    if (!t_id)
        t_id = ++n;
    return t_id;
}
// writer preference, like absl::Mutex
void mutex_lock(MutexState* s)
{
    std::unique_lock<std::mutex> l(big().m);
    ++s->writers_waiting;
    big().cv.wait(l, [&] { return s->writer == -1 && s->nreaders == 0; });
    --s->writers_waiting;
    s->writer = me();
}
bool mutex_trylock(MutexState* s)
{
    std::unique_lock<std::mutex> l(big().m);
    if (s->writer != -1 || s->nreaders)
        return false;
    s->writer = me();
    return true;
}
void mutex_unlock(MutexState* s)
{
    std::unique_lock<std::mutex> l(big().m);
    if (s->writer != -1)
        s->writer = -1;
    else if (s->nreaders)
        --s->nreaders;
    big().cv.notify_all();
}
void mutex_rlock(MutexState* s)
{
    std::unique_lock<std::mutex> l(big().m);
    big().cv.wait(l, [&] { return s->writer == -1 && s->writers_waiting == 0; });
    ++s->nreaders;
}
bool mutex_tryrlock(MutexState* s)
{
    std::unique_lock<std::mutex> l(big().m);
    if (s->writer != -1 || s->writers_waiting)
        return false;
    ++s->nreaders;
    return true;
}
void mutex_runlock(MutexState* s) { mutex_unlock(s); }
void mutex_destroy(MutexState*) {}
bool mutex_held_excl(const MutexState* s) { return s->writer == me(); }
bool mutex_await(MutexState* s, const std::function<bool()>& cond, int64_t deadline, bool shared)
{
    while (!cond())
    {
        if (deadline != INT64_MAX && now_ns() >= deadline)
            return false;
        mutex_unlock(s);
        usleep(1000);
        shared ? mutex_rlock(s) : mutex_lock(s);
    }
    return true;
}
static std::atomic<uint64_t> g_gen{0};
void cv_wait(void*, MutexState* s, int64_t deadline, bool* to)
{
    uint64_t g = g_gen;
    mutex_unlock(s);
    while (g == g_gen)
    {
        if (deadline != INT64_MAX && now_ns() >= deadline)
        {
            if (to)
                *to = true;
            break;
        }
        usleep(1000);
    }
    mutex_lock(s);
}
void cv_signal(void*, bool) { ++g_gen; }
uint64_t hash_salt() noexcept { return 1; }
int64_t now_ns()
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}
}    // namespace simrt
namespace sim
{
uint64_t mix64(uint64_t a, uint64_t b)
{
    Rng r(a * 31 + b);
    return r.next();
}
std::string strf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char b[8192];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
void violation(const std::string& tag, const std::string& msg)
{
    fprintf(stderr, "DEMO FAILED: %s: %s\n", tag.c_str(), msg.c_str());
    fflush(stderr);
    _exit(1);
}
int64_t now_ns() { return simrt::now_ns(); }
const char* const kClsName[C_COUNT] = {};
int cls_from_name(std::string_view) { return 0; }
}    // namespace sim
namespace h
{
static thread_local fuse_context tl_ctx;
void set_fuse_context(void* pd, uint32_t uid, uint32_t gid)
{
    tl_ctx = {};
    tl_ctx.private_data = pd;
    tl_ctx.uid = uid;
    tl_ctx.gid = gid;
    tl_ctx.pid = 4242;
}
}    // namespace h
static std::string g_scratch;
static int rmf(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void cleanup()
{
    if (!g_scratch.empty())
        nftw(g_scratch.c_str(), rmf, 32, FTW_DEPTH | FTW_PHYS);
}
std::string scratch()
{
    if (g_scratch.empty())
    {
        char t[] = "/tmp/securefs-demo-XXXXXX";
        if (!mkdtemp(t))
            abort();
        g_scratch = t;
        h::g_data_dir = g_scratch + "/data";
        ::mkdir(h::g_data_dir.c_str(), 0755);
    }
    return g_scratch;
}
void wipe() { cleanup(); }
extern "C"
{
struct fuse_context* fuse_get_context(void) { return &h::tl_ctx; }
int fuse_version(void) { return 29; }
__attribute__((weak)) size_t fuse_chan_bufsize(struct fuse_chan*) { return 1 << 16; }
__attribute__((weak)) struct fuse_session* fuse_get_session(struct fuse*) { return nullptr; }
__attribute__((weak)) void fuse_session_exit(struct fuse_session*) {}
__attribute__((weak)) int fuse_session_exited(struct fuse_session*) { return 1; }
__attribute__((weak)) struct fuse_chan* fuse_session_next_chan(struct fuse_session*, struct fuse_chan*) { return nullptr; }
__attribute__((weak)) void fuse_session_process_buf(struct fuse_session*, const struct fuse_buf*, struct fuse_chan*) {}
__attribute__((weak)) int fuse_session_receive_buf(struct fuse_session*, struct fuse_buf*, struct fuse_chan**) { return 0; }
__attribute__((weak)) struct fuse* fuse_setup(int, char*[], const struct fuse_operations*, size_t, char**, int*, void*) { return nullptr; }
__attribute__((weak)) int fuse_start_cleanup_thread(struct fuse*) { return 0; }
__attribute__((weak)) void fuse_stop_cleanup_thread(struct fuse*) {}
__attribute__((weak)) void fuse_teardown(struct fuse*, char*) {}
}
int main()
{
    scratch();
    // the work runs in a child so that a crash of the code under test still cleans up
    pid_t pid = fork();
    if (pid == 0)
    {
        alarm(120);
        int rc = demo();
        fflush(stdout);
        fflush(stderr);
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    cleanup();
    if (WIFSIGNALED(st))
    {
        fprintf(stderr, "DEMO FAILED: killed by signal %d\n", WTERMSIG(st));
        return 1;
    }
    return WEXITSTATUS(st);
}
