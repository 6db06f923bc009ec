// Simulator replacement for absl/synchronization/mutex.h: every lock operation is a scheduling
// point of the simulator; blocking is done by the simulator's scheduler, never by the kernel.
#pragma once
#include <absl/base/thread_annotations.h>
#include <absl/time/time.h>
#include <atomic>
#include <cstdint>
#include <functional>

namespace simrt
{
struct MutexState
{
    int32_t writer = -1;       // sim thread id holding exclusively
    int32_t nreaders = 0;
    int32_t writers_waiting = 0;
    uint32_t magic = 0x51A17EC5u;
    void* hb = nullptr;        // vector clock storage, owned by runtime
};
void mutex_lock(MutexState*);
bool mutex_trylock(MutexState*);
void mutex_unlock(MutexState*);
void mutex_rlock(MutexState*);
bool mutex_tryrlock(MutexState*);
void mutex_runlock(MutexState*);
void mutex_destroy(MutexState*);
bool mutex_held_excl(const MutexState*);
// Waits until cond(arg) or deadline (unix ns, INT64_MAX = never). Called with mutex held.
bool mutex_await(MutexState*, const std::function<bool()>& cond, int64_t deadline_ns, bool shared);
void cv_wait(void* cv, MutexState*, int64_t deadline_ns, bool* timed_out);
void cv_signal(void* cv, bool all);
int64_t now_ns();
}    // namespace simrt

namespace absl
{
ABSL_NAMESPACE_BEGIN
class Condition
{
public:
    Condition(bool (*func)(void*), void* arg) : fn_([=]() { return func(arg); }) {}
    template <typename T>
    Condition(bool (*func)(T*), T* arg) : fn_([=]() { return func(arg); })
    {
    }
    template <typename T, typename = void>
    Condition(bool (*func)(T*), typename std::common_type<T>::type* arg)
        : fn_([=]() { return func(arg); })
    {
    }
    template <typename T>
    Condition(bool (*func)(const T*), T* arg)
        : fn_([=]() { return func(arg); })
    {
    }
    template <typename T>
    Condition(T* object, bool (T::*method)()) : fn_([=]() { return (object->*method)(); })
    {
    }
    template <typename T>
    Condition(const T* object, bool (T::*method)() const)
        : fn_([=]() { return (object->*method)(); })
    {
    }
    explicit Condition(const bool* cond) : fn_([=]() { return *cond; }) {}
    template <typename T, typename E = decltype(static_cast<bool (T::*)() const>(&T::operator()))>
    explicit Condition(const T* obj) : fn_([=]() { return (*obj)(); })
    {
    }
    bool Eval() const { return fn_(); }
    const std::function<bool()>& fn() const { return fn_; }

private:
    std::function<bool()> fn_;
};

namespace sim_internal
{
    inline int64_t to_deadline(absl::Time t)
    {
        if (t == absl::InfiniteFuture())
            return INT64_MAX;
        return absl::ToUnixNanos(t);
    }
    inline int64_t to_deadline(absl::Duration d)
    {
        if (d == absl::InfiniteDuration())
            return INT64_MAX;
        return simrt::now_ns() + absl::ToInt64Nanoseconds(d);
    }
}    // namespace sim_internal

class ABSL_LOCKABLE Mutex
{
public:
    Mutex() = default;
    ~Mutex() { simrt::mutex_destroy(&s_); }
    Mutex(const Mutex&) = delete;
    Mutex& operator=(const Mutex&) = delete;

    void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { simrt::mutex_lock(&s_); }
    void Unlock() ABSL_UNLOCK_FUNCTION() { simrt::mutex_unlock(&s_); }
    bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return simrt::mutex_trylock(&s_); }
    void ReaderLock() ABSL_SHARED_LOCK_FUNCTION()
    {
        simrt::mutex_rlock(&s_);
    }
    // absl allows Unlock-family only in matching mode; LockGuard in securefs always calls Unlock,
    // which absl's implementation also accepts for a shared holder in NDEBUG builds.
    void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { simrt::mutex_runlock(&s_); }
    bool ReaderTryLock() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return simrt::mutex_tryrlock(&s_); }
    void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
    void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
    bool WriterTryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
    void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
    void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
    bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
    void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { ReaderLock(); }
    void unlock_shared() ABSL_UNLOCK_FUNCTION() { ReaderUnlock(); }
    void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
    void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
    void AssertNotHeld() const {}

    void Await(const Condition& c) { simrt::mutex_await(&s_, c.fn(), INT64_MAX, false); }
    bool AwaitWithTimeout(const Condition& c, absl::Duration d)
    {
        return simrt::mutex_await(&s_, c.fn(), sim_internal::to_deadline(d), false);
    }
    bool AwaitWithDeadline(const Condition& c, absl::Time t)
    {
        return simrt::mutex_await(&s_, c.fn(), sim_internal::to_deadline(t), false);
    }
    void LockWhen(const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        Lock();
        Await(c);
    }
    bool LockWhenWithTimeout(const Condition& c, absl::Duration d) ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        Lock();
        return AwaitWithTimeout(c, d);
    }
    bool LockWhenWithDeadline(const Condition& c, absl::Time t) ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        Lock();
        return AwaitWithDeadline(c, t);
    }
    void ForgetDeadlockInfo() {}
    void EnableDebugLog(const char*) {}

    simrt::MutexState* sim_state() { return &s_; }

private:
    simrt::MutexState s_;
};

class ABSL_SCOPED_LOCKABLE MutexLock
{
public:
    explicit MutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) { mu_->Lock(); }
    explicit MutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(&mu) { mu_->Lock(); }
    MutexLock(Mutex* mu, const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu)
    {
        mu_->LockWhen(c);
    }
    ~MutexLock() ABSL_UNLOCK_FUNCTION() { mu_->Unlock(); }
    MutexLock(const MutexLock&) = delete;
    MutexLock& operator=(const MutexLock&) = delete;

private:
    Mutex* const mu_;
};
using WriterMutexLock = MutexLock;
class ABSL_SCOPED_LOCKABLE ReaderMutexLock
{
public:
    explicit ReaderMutexLock(Mutex* mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(mu)
    {
        mu_->ReaderLock();
    }
    explicit ReaderMutexLock(Mutex& mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(&mu)
    {
        mu_->ReaderLock();
    }
    ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { mu_->ReaderUnlock(); }
    ReaderMutexLock(const ReaderMutexLock&) = delete;
    ReaderMutexLock& operator=(const ReaderMutexLock&) = delete;

private:
    Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE MutexLockMaybe
{
public:
    explicit MutexLockMaybe(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu)
    {
        if (mu_)
            mu_->Lock();
    }
    ~MutexLockMaybe() ABSL_UNLOCK_FUNCTION()
    {
        if (mu_)
            mu_->Unlock();
    }

private:
    Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock
{
public:
    explicit ReleasableMutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu)
    {
        mu_->Lock();
    }
    ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION()
    {
        if (mu_)
            mu_->Unlock();
    }
    void Release() ABSL_UNLOCK_FUNCTION()
    {
        mu_->Unlock();
        mu_ = nullptr;
    }

private:
    Mutex* mu_;
};
class CondVar
{
public:
    CondVar() = default;
    CondVar(const CondVar&) = delete;
    void Wait(Mutex* mu) { simrt::cv_wait(this, mu->sim_state(), INT64_MAX, nullptr); }
    bool WaitWithTimeout(Mutex* mu, absl::Duration d)
    {
        bool to = false;
        simrt::cv_wait(this, mu->sim_state(), sim_internal::to_deadline(d), &to);
        return to;
    }
    bool WaitWithDeadline(Mutex* mu, absl::Time t)
    {
        bool to = false;
        simrt::cv_wait(this, mu->sim_state(), sim_internal::to_deadline(t), &to);
        return to;
    }
    void Signal() { simrt::cv_signal(this, false); }
    void SignalAll() { simrt::cv_signal(this, true); }

private:
    char dummy_ = 0;
};
ABSL_NAMESPACE_END
}    // namespace absl
