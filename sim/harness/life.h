#pragma once
// A mount made by the real `mount` command: its requests go through a stand-in for libfuse's session to
// the real worker threads.
#include "h.h"

#include <deque>

struct fuse
{
    int dummy;
};
struct fuse_session
{
    int dummy;
};
struct fuse_chan
{
    int dummy;
};
namespace h
{
struct Req
{
    std::function<int(const char* payload)> run;
    std::string payload;    // copied through the buffer of the worker that receives the request
    int state = 0;          // 0 queued, 1 received, 2 answered, 3 never received
    int rc = 0;
    int op = 0;
    uint32_t uid = 0, gid = 0;
};
struct Sess : fuse, fuse_session, fuse_chan
{
    fuse_operations op{};
    void* user = nullptr;
    std::vector<std::string> args;
    std::string mountpoint;
    std::deque<Req*> q;
    bool multithreaded = true;
    bool inited = false;       // INIT was answered
    bool exited = false;       // fuse_session_exit was called
    bool dead = false;         // the kernel has ended the connection
    bool torn = false;         // fuse_teardown was called
    bool cleaning = false;     // the cleanup thread runs
    int fail_receive = 0;      // the next receive fails with this
    int receivers = 0, processing = 0, max_processing = 0;
    uint64_t received = 0, submitted = 0, dropped = 0;
    std::deque<int64_t> activity;    // when requests were received
    int64_t exit_at = 0;
    void end();
};
extern Sess* g_sess;    // of the mount that was set up last
// what goes wrong while mounting: 0 nothing, 1 fuse_setup, 2 the cleanup thread, 3 no channel
extern int g_fail_setup;
// When set, called first by fuse_setup; it fails if this returns true.
extern std::function<bool()> g_on_setup;
// Sends a request and waits for the answer; -ENOTCONN when nobody received it.
int submit(Sess& s, Req& r);
void kill_queue(Sess& s);
}    // namespace h
