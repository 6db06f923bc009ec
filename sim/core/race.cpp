// Runtime of the "race" flavour: the repository's sources are compiled with -fsanitize=thread, and their
// memory accesses arrive here instead of at libtsan. Happens-before comes from the simulated mutexes,
// threads and requests (hb_acquire / hb_release), so a report depends only on the schedule of the run.
// The allocator below never hands out released memory again while a quarantine lasts, and checks every
// instrumented access against it.
#include "sim.h"

#ifdef SIM_RACE
#include <atomic>
#include <cerrno>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace
{
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr uintptr_t kSize = 6ull << 30;
constexpr uintptr_t kShadow = 0x120000000000ull;    // one byte per 8 bytes of the arena
constexpr uintptr_t kIndex = 0x130000000000ull;     // one uint32 per 8 bytes of the arena
enum : uint8_t
{
    FRESH = 0xf0,    // never handed out, or red zone
    FREED = 0xfd
};
bool ready = false;
std::atomic_flag heap_lock = ATOMIC_FLAG_INIT;
uintptr_t bump = kBase;
uint8_t* shadow_of(uintptr_t a) { return reinterpret_cast<uint8_t*>(kShadow + ((a - kBase) >> 3)); }
bool in_arena(uintptr_t a) { return a - kBase < kSize; }

void map_at(uintptr_t at, size_t len)
{
    void* p = mmap(reinterpret_cast<void*>(at),
                   len,
                   PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                   -1,
                   0);
    if (p != reinterpret_cast<void*>(at))
        _exit(97);
}
void init_heap()
{
    map_at(kBase, kSize);
    map_at(kShadow, kSize / 8);
    map_at(kIndex, kSize / 2);
    ready = true;
}
struct Head
{
    uint64_t size;
    uint32_t magic;
    uint32_t unused;
};
constexpr uint32_t kMagic = 0xa110ca7e, kMagicAligned = 0xa110ca7f, kMagicFree = 0xdeadf4ee;
constexpr size_t kRed = 16;
size_t round_class(size_t n)
{
    if (n <= 256)
        return (n + 15) & ~15ull;
    size_t step = 1ull << (63 - __builtin_clzll(n) - 3);
    return (n + step - 1) & ~(step - 1);
}
// A released chunk; written over the first bytes of the user's memory.
struct Free
{
    Free* next;
    size_t chunk;
};
// Released chunks in the order of their release; reused once there are more than kQuarantine bytes.
constexpr size_t kQuarantine = 192u << 20;
Free *q_head = nullptr, *q_tail = nullptr;
size_t q_bytes = 0;
struct Bin
{
    size_t cls;
    Free* list;
};
Bin bins[256];
int n_bins = 0;
Bin& bin(size_t cls)
{
    for (int i = 0; i < n_bins; ++i)
        if (bins[i].cls == cls)
            return bins[i];
    if (n_bins == 256)
        _exit(96);
    bins[n_bins].cls = cls;
    return bins[n_bins++];
}
struct Lock
{
    Lock()
    {
        while (heap_lock.test_and_set(std::memory_order_acquire))
            ;
    }
    ~Lock() { heap_lock.clear(std::memory_order_release); }
};
// The runtime's own memory is of no interest.
thread_local int inside = 0;
struct In
{
    In() { ++inside; }
    ~In() { --inside; }
};
void on_alloc(uintptr_t a, size_t n);
void on_free(uintptr_t a, size_t n, void* pc);

void* do_alloc(size_t n, size_t align, bool zero)
{
    Lock l;
    if (!ready)
        init_heap();
    if (align < 16)
        align = 16;
    if (n > kSize / 4)
        return nullptr;
    n = n ? n : 1;
    size_t want = round_class((n < 16 ? 16 : n) + sizeof(Head) + kRed + (align > 16 ? align : 0));
    uintptr_t c = 0;
    bool used = false;
    if (q_bytes > kQuarantine)
    {
        while (q_bytes > kQuarantine - (kQuarantine / 8) && q_head)
        {
            Free* f = q_head;
            q_head = f->next;
            if (!q_head)
                q_tail = nullptr;
            q_bytes -= f->chunk;
            Bin& b = bin(f->chunk);
            f->next = b.list;
            b.list = f;
        }
    }
    if (Bin& b = bin(want); b.list && align == 16)
    {
        c = reinterpret_cast<uintptr_t>(b.list) - sizeof(Head);
        b.list = b.list->next;
        used = true;
    }
    else
    {
        c = bump;
        bump += want;
        if (bump > kBase + kSize)
            _exit(95);
        memset(shadow_of(c), FRESH, want / 8);
    }
    uintptr_t u = c + sizeof(Head);
    u = (u + align - 1) & ~(uintptr_t)(align - 1);
    auto* h = reinterpret_cast<Head*>(u - sizeof(Head));
    if (used)
        memset(shadow_of(c), FRESH, want / 8);
    h->size = n;
    h->magic = align > 16 ? kMagicAligned : kMagic;
    memset(shadow_of(u), 0, n / 8);
    if (n % 8)
        *shadow_of(u + n) = (uint8_t)(n % 8);
    if (zero && used)
        memset(reinterpret_cast<void*>(u), 0, n);
    else if (!zero)
        memset(reinterpret_cast<void*>(u), 0xcd, n < 4096 ? n : 4096);
    on_alloc(u, n);
    return reinterpret_cast<void*>(u);
}
Head* head_of(void* p) { return reinterpret_cast<Head*>(reinterpret_cast<uintptr_t>(p) - sizeof(Head)); }
void bad_free(const char* what);
void do_free(void* p, void* pc)
{
    if (!p)
        return;
    auto u = reinterpret_cast<uintptr_t>(p);
    if (!in_arena(u))
        return;    // from before this allocator was ready
    auto* h = head_of(p);
    if (h->magic != kMagic && h->magic != kMagicAligned)
    {
        if (h->magic == kMagicFree)
            bad_free("memory is released twice");
        bad_free("something that was never allocated is released");
        return;
    }
    size_t n = h->size;
    on_free(u, n, pc);
    Lock l;
    bool aligned = h->magic == kMagicAligned;
    h->magic = kMagicFree;
    memset(shadow_of(u), FREED, n ? (n + 7) / 8 : 1);
    if (aligned)
        return;    // rare: never reused
    size_t cls = round_class((n < 16 ? 16 : n) + sizeof(Head) + kRed);
    auto* f = reinterpret_cast<Free*>(u);
    f->chunk = cls;
    f->next = nullptr;
    if (q_tail)
        q_tail->next = f;
    else
        q_head = f;
    q_tail = f;
    q_bytes += cls;
}
}    // namespace

extern "C"
{
    void* malloc(size_t n) { return do_alloc(n, 16, false); }
    void free(void* p) { do_free(p, __builtin_return_address(0)); }
    void* calloc(size_t a, size_t b)
    {
        size_t n;
        if (__builtin_mul_overflow(a, b, &n))
            return nullptr;
        return do_alloc(n, 16, true);
    }
    void* realloc(void* p, size_t n)
    {
        if (!p)
            return do_alloc(n, 16, false);
        if (!n)
        {
            do_free(p, __builtin_return_address(0));
            return nullptr;
        }
        auto* h = head_of(p);
        if (h->magic != kMagic && h->magic != kMagicAligned)
            bad_free("realloc of released memory");
        void* q = do_alloc(n, 16, false);
        if (!q)
            return nullptr;
        memcpy(q, p, h->size < n ? h->size : n);
        do_free(p, __builtin_return_address(0));
        return q;
    }
    // Aligned blocks are never handed out twice (a run does not last long enough for that to matter).
    void* memalign(size_t a, size_t n) { return do_alloc(n, a, false); }
    void* aligned_alloc(size_t a, size_t n) { return do_alloc(n, a, false); }
    int posix_memalign(void** out, size_t a, size_t n)
    {
        void* p = do_alloc(n, a, false);
        if (!p)
            return ENOMEM;
        *out = p;
        return 0;
    }
    void* valloc(size_t n) { return do_alloc(n, 4096, false); }
    size_t malloc_usable_size(void* p) { return p ? head_of(p)->size : 0; }
}

// ---------------------------------------------------------------------- happens-before
namespace
{
using Clock = std::vector<uint32_t>;
struct State
{
    std::vector<Clock> vc;    // per thread
    std::unordered_map<uintptr_t, Clock> objs;
};
State* S = nullptr;
uint32_t generation = 1;
bool recording = false;    // more than one thread is alive
Clock& clock_of(int t)
{
    if (!S)
        S = new State;
    if ((size_t)t >= S->vc.size())
        S->vc.resize(t + 1);
    auto& c = S->vc[t];
    if ((size_t)t >= c.size())
    {
        c.resize(t + 1);
        c[t] = 1;
    }
    return c;
}
void merge(Clock& a, const Clock& b)
{
    if (a.size() < b.size())
        a.resize(b.size());
    for (size_t i = 0; i < b.size(); ++i)
        if (a[i] < b[i])
            a[i] = b[i];
}
}    // namespace
namespace sim
{
void hb_acquire(const void* o)
{
    int t = self_id();
    if (t < 0)
        return;
    In in;
    auto& c = clock_of(t);
    auto it = S->objs.find(reinterpret_cast<uintptr_t>(o));
    if (it != S->objs.end())
        merge(c, it->second);
}
void hb_release(const void* o)
{
    int t = self_id();
    if (t < 0)
        return;
    In in;
    auto& c = clock_of(t);
    merge(S->objs[reinterpret_cast<uintptr_t>(o)], c);
    ++c[t];
}
void race_threads(int live)
{
    bool r = live > 1;
    if (r && !recording)
        ++generation;    // everything so far happened before the new thread
    recording = r;
}
}    // namespace sim

// ---------------------------------------------------------------------- shadow cells
namespace
{
struct Entry
{
    uint32_t clk;
    uint16_t tid;
    uint8_t mask;
    bool write : 1, atomic : 1, freed : 1;
    void* pc;
};
struct Cell
{
    uint32_t gen;
    uint32_t n;
    Entry e[10];
};
std::deque<Cell>* cells = nullptr;
struct Seg
{
    uintptr_t lo, hi;
    uint32_t* idx;
};
Seg segs[4];
int n_segs = -1;
std::atomic<uint64_t> n_checked{0};
bool busy = false;

void find_segs()
{
    n_segs = 0;
    dl_iterate_phdr(
        [](dl_phdr_info* i, size_t, void*)
        {
            if (!i->dlpi_name || !strstr(i->dlpi_name, "libsut.so"))
                return 0;
            for (int k = 0; k < i->dlpi_phnum && n_segs < 4; ++k)
            {
                auto& p = i->dlpi_phdr[k];
                if (p.p_type != PT_LOAD || !(p.p_flags & PF_W))
                    continue;
                Seg s;
                s.lo = (i->dlpi_addr + p.p_vaddr) & ~7ull;
                s.hi = i->dlpi_addr + p.p_vaddr + p.p_memsz;
                size_t len = ((s.hi - s.lo) / 8 + 1) * 4;
                s.idx = static_cast<uint32_t*>(mmap(
                    nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
                segs[n_segs++] = s;
            }
            return 0;
        },
        nullptr);
}
uint32_t* index_of(uintptr_t a)
{
    if (in_arena(a))
        return reinterpret_cast<uint32_t*>(kIndex) + ((a - kBase) >> 3);
    for (int i = 0; i < n_segs; ++i)
        if (a >= segs[i].lo && a < segs[i].hi)
            return segs[i].idx + ((a - segs[i].lo) >> 3);
    return nullptr;
}
std::string where(void* pc)
{
    Dl_info i;
    if (!pc || !dladdr(pc, &i))
        return "?";
    std::string s;
    if (i.dli_sname)
    {
        int st;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        s = d ? d : i.dli_sname;
        if (auto k = s.find('('); k != std::string::npos)
            s.resize(k);
        if (s.size() > 160)
            s.resize(160);
        s += sim::strf("+0x%zx", (size_t)((char*)pc - (char*)i.dli_saddr));
    }
    const char* b = strrchr(i.dli_fname, '/');
    s += sim::strf(" (%s+0x%zx)", b ? b + 1 : i.dli_fname, (size_t)((char*)pc - (char*)i.dli_fbase));
    return s;
}
const char* kind(const Entry& e)
{
    return e.freed ? "release of it" : e.atomic ? (e.write ? "atomic write" : "atomic read") : e.write ? "write" : "read";
}
void report(uintptr_t a, const Entry& now, const Entry& old)
{
    busy = true;
    sim::violation("data-race",
                   sim::strf("two accesses to the same memory without synchronisation: %s by thread %d in %s, and "
                             "earlier %s by thread %d in %s",
                             kind(now),
                             now.tid,
                             where(now.pc).c_str(),
                             kind(old),
                             old.tid,
                             where(old.pc).c_str()));
    (void)a;
}
void touch(uintptr_t g, uint8_t mask, bool write, bool atomic, bool freed, void* pc, int t, const Clock& c)
{
    uint32_t* ix = index_of(g);
    if (!ix)
        return;
    if (!*ix)
    {
        if (freed)
            return;
        if (!cells)
        {
            cells = new std::deque<Cell>;
            cells->push_back({});
        }
        *ix = (uint32_t)cells->size();
        cells->push_back({generation, 0, {}});
    }
    Cell& cell = (*cells)[*ix];
    if (cell.gen != generation)
    {
        cell.gen = generation;
        cell.n = 0;
    }
    Entry now{c[t], (uint16_t)t, mask, write, atomic, freed, pc};
    uint32_t k = 0;
    for (uint32_t i = 0; i < cell.n; ++i)
    {
        Entry& e = cell.e[i];
        bool keep = true;
        if (e.mask & mask)
        {
            bool before = e.tid == t || (e.tid < c.size() && e.clk <= c[e.tid]);
            if (!before && (e.write || write) && !(e.atomic && atomic))
                report(g, now, e);
            // covered by the new access?
            if (before && (e.mask & ~mask) == 0 && (write || !e.write) && (!atomic || e.atomic))
                keep = false;
        }
        if (keep)
            cell.e[k++] = e;
    }
    cell.n = k;
    if (cell.n == sizeof cell.e / sizeof *cell.e)
    {
        memmove(cell.e, cell.e + 1, sizeof(Entry) * (cell.n - 1));
        --cell.n;
    }
    cell.e[cell.n++] = now;
}
void bad_access(uintptr_t a, size_t n, bool write, void* pc)
{
    busy = true;
    uint8_t s = *shadow_of(a);
    for (size_t i = 0; i < n && !s; ++i)
        s = *shadow_of(a + i);
    sim::violation(s == FREED ? "use-after-free" : "out-of-bounds",
                   sim::strf("%s of %zu bytes %s in %s",
                             write ? "a write" : "a read",
                             n,
                             s == FREED ? "of memory that was released already" : "outside of allocated memory",
                             where(pc).c_str()));
}
void bad_free(const char* what)
{
    if (sim::R)
        sim::violation("bad-free", what);
    _exit(94);
}
inline void access(void* p, size_t n, bool write, bool atomic, void* pc)
{
    auto a = reinterpret_cast<uintptr_t>(p);
    if (!sim::R || busy || inside || !n)
        return;
    int t = sim::self_id();
    if (t < 0)
        return;
    In in;
    if (in_arena(a))
    {
        for (uintptr_t x = a & ~7ull; x < a + n; x += 8)
            if (uint8_t s = *shadow_of(x))
            {
                size_t end = a + n - x;
                if (s >= FRESH || end > s)
                    bad_access(a, n, write, pc);
            }
    }
    if (!recording)
        return;
    if (n_segs < 0)
        find_segs();
    auto& c = clock_of(t);
    ++n_checked;
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8)
    {
        unsigned lo = x < a ? (unsigned)(a - x) : 0, hi = a + n - x >= 8 ? 8 : (unsigned)(a + n - x);
        touch(x, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic, false, pc, t, c);
    }
}
void on_alloc(uintptr_t a, size_t n)
{
    // nobody else knows this memory yet
    if (!cells)
        return;
    for (uintptr_t x = a; x < a + n; x += 8)
    {
        uint32_t i = reinterpret_cast<uint32_t*>(kIndex)[(x - kBase) >> 3];
        if (i)
            (*cells)[i].n = 0;
    }
}
void on_free(uintptr_t a, size_t n, void* pc)
{
    if (!recording || busy || inside || !cells)
        return;
    int t = sim::self_id();
    if (t < 0)
        return;
    In in;
    auto& c = clock_of(t);
    for (uintptr_t x = a; x < a + n; x += 8)
        if (reinterpret_cast<uint32_t*>(kIndex)[(x - kBase) >> 3])
            touch(x, 0xff, true, false, true, pc, t, c);
}
}    // namespace
namespace sim
{
uint64_t race_checked() { return n_checked; }
}

#define PC __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(N)                                                                                      \
    void __tsan_read##N(void* p) { access(p, N, false, false, PC); }                               \
    void __tsan_write##N(void* p) { access(p, N, true, false, PC); }                               \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, true, PC); }                       \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(N)                                                                                     \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); }                     \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); }
    URW(2) URW(4) URW(8) URW(16)
    void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
    void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
    void __tsan_vptr_update(void** p, void* v)
    {
        if (*p != v)
            access(p, 8, true, false, PC);
    }
    void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }

    // memcpy and the like, as called by the repository's objects
    void* __wrap_memcpy(void* d, const void* s, size_t n)
    {
        access(const_cast<void*>(s), n, false, false, PC);
        access(d, n, true, false, PC);
        return memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, size_t n)
    {
        access(const_cast<void*>(s), n, false, false, PC);
        access(d, n, true, false, PC);
        return memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int v, size_t n)
    {
        access(d, n, true, false, PC);
        return memset(d, v, n);
    }
    int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        access(const_cast<void*>(a), n, false, false, PC);
        access(const_cast<void*>(b), n, false, false, PC);
        return memcmp(a, b, n);
    }
}
// Ciphers and MACs keep their state in Crypto++, which is not instrumented: using one is a write to it.
#define ENC _ZN8CryptoPP28AuthenticatedSymmetricCipher22EncryptAndAuthenticateEPhS1_mPKhiS3_mS3_m
#define DEC _ZN8CryptoPP28AuthenticatedSymmetricCipher16DecryptAndVerifyEPhPKhmS3_iS3_mS3_m
#define CMAC_U _ZN8CryptoPP9CMAC_Base6UpdateEPKhm
#define CMAC_F _ZN8CryptoPP9CMAC_Base14TruncatedFinalEPhm
#define HMAC_U _ZN8CryptoPP9HMAC_Base6UpdateEPKhm
#define HMAC_F _ZN8CryptoPP9HMAC_Base14TruncatedFinalEPhm
#define WRAP2(x) __wrap_##x
#define WRAP(x) WRAP2(x)
using bytes = unsigned char*;
using cbytes = const unsigned char*;
extern "C"
{
    void ENC(void*, bytes, bytes, size_t, cbytes, int, cbytes, size_t, cbytes, size_t);
    bool DEC(void*, bytes, cbytes, size_t, cbytes, int, cbytes, size_t, cbytes, size_t);
    void CMAC_U(void*, cbytes, size_t);
    void CMAC_F(void*, bytes, size_t);
    void HMAC_U(void*, cbytes, size_t);
    void HMAC_F(void*, bytes, size_t);
    void WRAP(ENC)(void* o, bytes ct, bytes mac, size_t nm, cbytes iv, int ni, cbytes h, size_t nh, cbytes m, size_t n)
    {
        access(o, 8, true, false, PC);
        access((void*)m, n, false, false, PC);
        access((void*)h, nh, false, false, PC);
        access((void*)iv, ni, false, false, PC);
        access(ct, n, true, false, PC);
        access(mac, nm, true, false, PC);
        ENC(o, ct, mac, nm, iv, ni, h, nh, m, n);
    }
    bool WRAP(DEC)(void* o, bytes m, cbytes mac, size_t nm, cbytes iv, int ni, cbytes h, size_t nh, cbytes ct, size_t n)
    {
        access(o, 8, true, false, PC);
        access((void*)ct, n, false, false, PC);
        access((void*)mac, nm, false, false, PC);
        access((void*)h, nh, false, false, PC);
        access((void*)iv, ni, false, false, PC);
        access(m, n, true, false, PC);
        return DEC(o, m, mac, nm, iv, ni, h, nh, ct, n);
    }
    void WRAP(CMAC_U)(void* o, cbytes p, size_t n)
    {
        access(o, 8, true, false, PC);
        access((void*)p, n, false, false, PC);
        CMAC_U(o, p, n);
    }
    void WRAP(CMAC_F)(void* o, bytes p, size_t n)
    {
        access(o, 8, true, false, PC);
        access(p, n, true, false, PC);
        CMAC_F(o, p, n);
    }
    void WRAP(HMAC_U)(void* o, cbytes p, size_t n)
    {
        access(o, 8, true, false, PC);
        access((void*)p, n, false, false, PC);
        HMAC_U(o, p, n);
    }
    void WRAP(HMAC_F)(void* o, bytes p, size_t n)
    {
        access(o, 8, true, false, PC);
        access(p, n, true, false, PC);
        HMAC_F(o, p, n);
    }
}
// ---------------------------------------------------------------------- atomics
namespace
{
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void before(void* p, size_t n, bool write, int mo, void* pc)
{
    if (!sim::R || busy)
        return;
    if (recording)
        sim::yield(8);
    access(p, n, write, true, pc);
    if (!recording)
        return;
    if (acq(mo))
        sim::hb_acquire(p);
    if (rel(mo) && write)
        sim::hb_release(p);
}
}
extern "C"
{
#define AT(N, T)                                                                                                   \
    T __tsan_atomic##N##_load(const volatile T* p, int mo)                                                         \
    {                                                                                                              \
        before((void*)p, sizeof(T), false, mo, PC);                                                                \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                               \
    }                                                                                                              \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo)                                                      \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                              \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo)                                                      \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                              \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo)                                                     \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                              \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo)                                                     \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                              \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo)                                                     \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                              \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo)                                                      \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                              \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo)                                                     \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                         \
    }                                                                                                              \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo)                                                    \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                              \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int)                          \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
    }                                                                                                              \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int)                            \
    {                                                                                                              \
        before((void*)p, sizeof(T), true, mo, PC);                                                                 \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
    }
    AT(8, uint8_t)
    AT(16, uint16_t)
    AT(32, uint32_t)
    AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
}
#else
namespace sim
{
void race_threads(int) {}
uint64_t race_checked() { return 0; }
}
#endif
