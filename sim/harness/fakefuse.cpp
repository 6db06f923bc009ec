// Stand-in for libfuse: request context, and a session fed by the simulation (see life.h).
#include "life.h"

#include <fuse.h>
#include <fuse_lowlevel.h>

#include <cerrno>
#include <csignal>
#include <cstring>

namespace h
{
static thread_local fuse_context tl_ctx;
void set_fuse_context(void* private_data, uint32_t uid, uint32_t gid)
{
    tl_ctx = {};
    tl_ctx.private_data = private_data;
    tl_ctx.uid = uid;
    tl_ctx.gid = gid;
    tl_ctx.pid = 4242;
}
Sess* g_sess = nullptr;
int g_fail_setup = 0;
std::function<bool()> g_on_setup;
static int g_req_op = 1000000;
static constexpr size_t kBufSize = 0x21000;

static Sess& live(const void* p, const char* what)
{
    auto s = g_sess;
    if (!s || (p != static_cast<fuse*>(s) && p != static_cast<fuse_session*>(s) && p != static_cast<fuse_chan*>(s)))
        sim::violation("mount-session", std::string(what) + " is called for a session that does not exist");
    if (s->torn)
        sim::violation("mount-session", std::string(what) + " is called after fuse_teardown");
    return *s;
}
void Sess::end()
{
    exited = true;
    sim::wake_all(this);
    if (!exit_at)
        exit_at = sim::now_ns();
}
void kill_queue(Sess& s)
{
    for (auto r : s.q)
    {
        r->state = 3;
        ++s.dropped;
        sim::wake_all(r);
    }
    s.q.clear();
    sim::wake_all(&s);
}
int submit(Sess& s, Req& r)
{
    r.uid = tl_ctx.uid;
    r.gid = tl_ctx.gid;
    if (s.dead || s.torn)
    {
        ++s.dropped;
        return -ENOTCONN;
    }
    sim::hb_release(&r);
    s.q.push_back(&r);
    ++s.submitted;
    sim::wake_all(&s);
    while (r.state < 2)
        sim::block_on(&r);
    sim::hb_acquire(&r);
    if (r.state == 3)
        return -ENOTCONN;
    return r.rc;
}
}    // namespace h
using namespace h;

extern "C"
{
struct fuse_context* fuse_get_context(void) { return &h::tl_ctx; }
int fuse_version(void) { return 29; }
static void exit_handler(int)
{
    if (g_sess && !g_sess->torn)
        g_sess->end();
}
struct fuse* fuse_setup(int argc,
                        char* argv[],
                        const struct fuse_operations* op,
                        size_t op_size,
                        char** mountpoint,
                        int* multithreaded,
                        void* user_data)
{
    sim::yield(20);
    if (h::g_on_setup && h::g_on_setup())
        return nullptr;
    if (g_fail_setup == 1)
    {
        ++sim::R->faults_fired[sim::C_OPEN];
        return nullptr;
    }
    auto s = new Sess;
    memcpy(&s->op, op, std::min(op_size, sizeof(s->op)));
    s->user = user_data;
    bool dash_o = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        s->args.push_back(a);
        if (dash_o)
            dash_o = false;
        else if (a == "-o")
            dash_o = true;
        else if (a == "-s")
            s->multithreaded = false;
        else if (a[0] != '-')
            s->mountpoint = a;
    }
    for (int sig : {SIGHUP, SIGINT, SIGTERM})
    {
        // only where there is none
        struct sigaction old{}, sa{};
        sa.sa_handler = exit_handler;
        if (sigaction(sig, nullptr, &old) == 0 && old.sa_handler == SIG_DFL)
            sigaction(sig, &sa, nullptr);
    }
    *mountpoint = strdup(s->mountpoint.c_str());
    *multithreaded = s->multithreaded;
    g_sess = s;
    sim::wake_all(&g_sess);
    return s;
}
struct fuse_session* fuse_get_session(struct fuse* f) { return &live(f, "fuse_get_session"); }
struct fuse_chan* fuse_session_next_chan(struct fuse_session* se, struct fuse_chan* prev)
{
    auto& s = live(se, "fuse_session_next_chan");
    return prev || g_fail_setup == 3 ? nullptr : &s;
}
size_t fuse_chan_bufsize(struct fuse_chan* c)
{
    live(c, "fuse_chan_bufsize");
    return kBufSize;
}
void fuse_session_exit(struct fuse_session* se)
{
    auto& s = live(se, "fuse_session_exit");
    sim::yield(21);
    s.end();
    sim::trace("session exit");
}
int fuse_session_exited(struct fuse_session* se)
{
    auto& s = live(se, "fuse_session_exited");
    sim::yield(22);
    return s.exited;
}
int fuse_session_receive_buf(struct fuse_session* se, struct fuse_buf* buf, struct fuse_chan** chp)
{
    auto& s = live(se, "fuse_session_receive_buf");
    if (!chp || *chp != static_cast<fuse_chan*>(&s))
        sim::violation("mount-session", "a request is received from an unknown channel");
    if (buf->size < kBufSize || !buf->mem)
        sim::violation("mount-session", "a request is received into a buffer that is too small");
    sim::yield(23);
    ++s.receivers;
    struct Leave
    {
        Sess& s;
        ~Leave() { --s.receivers; }
    } leave{s};
    for (;;)
    {
        sim::test_cancel();
        if (s.dead)
        {
            s.end();    // ENODEV
            return 0;
        }
        if (s.fail_receive)
        {
            int e = s.fail_receive;
            s.fail_receive = 0;
            ++sim::R->faults_fired[sim::C_READ];
            return -e;
        }
        if (!s.q.empty() && (s.inited || s.processing == 0))
            break;
        sim::block_on(&s);
        if (sim::cfg.eintr_per_mille && s.q.empty() && !s.dead && !s.fail_receive)
        {
            sim::test_cancel();
            return -EINTR;
        }
    }
    // from here on the request is taken off the queue
    if (s.exited)
        return 0;
    Req* r = s.q.front();
    s.q.pop_front();
    r->state = 1;
    ++s.received;
    s.activity.push_back(sim::now_ns());
    if (s.activity.size() > 64)
        s.activity.pop_front();
    ++s.processing;
    s.max_processing = std::max(s.max_processing, s.processing);
    size_t n = sizeof(r) + r->payload.size();
    if (n > kBufSize)
        sim::harness_error("request too long");
    memcpy(buf->mem, &r, sizeof(r));
    memcpy((char*)buf->mem + sizeof(r), r->payload.data(), r->payload.size());
    buf->size = n;
    return (int)n;
}
void fuse_session_process_buf(struct fuse_session* se, const struct fuse_buf* buf, struct fuse_chan* c)
{
    auto& s = live(se, "fuse_session_process_buf");
    live(c, "fuse_session_process_buf");
    Req* r;
    memcpy(&r, buf->mem, sizeof(r));
    sim::hb_acquire(r);
    sim::hb_acquire(&s.processing);    // libfuse's own lock
    set_fuse_context(s.user, r->uid, r->gid);
    sim::begin_op(++g_req_op);
    int rc = r->run((const char*)buf->mem + sizeof(r));
    sim::end_op();
    if (s.torn)
        sim::violation("mount-session", "a request is still being processed after fuse_teardown");
    sim::hb_release(&s.processing);
    --s.processing;
    r->rc = rc;
    r->state = 2;
    sim::hb_release(r);
    sim::wake_all(r);
    sim::wake_all(&s);
    sim::yield(24);
}
int fuse_start_cleanup_thread(struct fuse* f)
{
    auto& s = live(f, "fuse_start_cleanup_thread");
    if (g_fail_setup == 2)
    {
        ++sim::R->faults_fired[sim::C_OPEN];
        return -1;
    }
    s.cleaning = true;
    return 0;
}
void fuse_stop_cleanup_thread(struct fuse* f)
{
    auto& s = live(f, "fuse_stop_cleanup_thread");
    if (!s.cleaning)
        sim::violation("mount-session", "fuse_stop_cleanup_thread without a cleanup thread");
    s.cleaning = false;
}
void fuse_teardown(struct fuse* f, char* mountpoint)
{
    auto& s = live(f, "fuse_teardown");
    sim::yield(25);
    if (s.receivers || s.processing)
        sim::violation("mount-session", "fuse_teardown while worker threads use the session");
    if (s.cleaning)
        sim::violation("mount-session", "fuse_teardown while the cleanup thread runs");
    s.dead = true;
    kill_queue(s);
    if (s.inited && s.op.destroy)
    {
        set_fuse_context(s.user, 0, 0);
        s.op.destroy(s.user);
    }
    s.torn = true;
    free(mountpoint);
    sim::wake_all(&s);
    sim::trace("teardown");
}
int fuse_main_real(int, char**, const struct fuse_operations*, size_t, void*) { return 1; }
}
