// Deterministic simulation runtime for MPS-Basic.
//
// Linked with the real, unmodified objects of mps (or of a generator) it owns every source of
// nondeterminism the program has:
//   * files, directories, console, stdin   - libc entry points interposed below ("I/O seam")
//   * clock                                - clock_gettime & co.               ("clock seam")
//   * memory allocation and its contents   - operator new/malloc of the app    ("memory seam")
//   * OpenMP threads                       - an own implementation of the libgomp ABI whose threads are
//                                            parked and released one at a time; who runs is decided by a seeded
//                                            scheduler that may preempt at every memory access (the app is
//                                            compiled with -fsanitize=thread, the __tsan_* callbacks are here)
//   * process death                        - a kill can be placed at every I/O operation, inside a write,
//                                            and at every n-th memory access
// One plan file (text) decides everything; the result (JSON) is a pure function of plan + code.
// The binary is a fork server: it reads plan paths on stdin, forks one child per plan (= one incarnation of
// the simulated process, with a fresh address space) and prints its wait status.

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <istream>
#include <ostream>
#include <iostream>
#include <new>
#include <random>
#include <streambuf>
#include <string>
#include <unordered_map>
#include <vector>

extern "C" int app_main(int argc, char** argv);

// ------------------------------------------------------------------ helpers
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// growable byte buffer on the real heap (never touches the simulated heap)
struct Buf {
    char* p  = nullptr;
    size_t n = 0, cap = 0;
    void add(const void* d, size_t k) {
        if (n + k > cap) {
            cap = (n + k) * 2 + 256;
            p   = (char*) __real_realloc(p, cap);
        }
        __real_memcpy(p + n, d, k);
        n += k;
    }
    void str(const char* s) { add(s, strlen(s)); }
    void fmt(const char* f, ...) {
        char b[2048];
        va_list ap;
        va_start(ap, f);
        int k = vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        if (k > (int) sizeof b - 1) k = sizeof b - 1;
        add(b, k);
    }
    void jstr(const char* s) {
        str("\"");
        for (; *s; s++) {
            unsigned char c = *s;
            if (c == '"' || c == '\\') {
                char b[3] = {'\\', (char) c, 0};
                str(b);
            } else if (c < 0x20) {
                fmt("\\u%04x", c);
            } else
                add(s, 1);
        }
        str("\"");
    }
};

#define MAXT 32
enum { K_NONE, K_ERR, K_PERR, K_SHORT, K_EINTR, K_KILL, K_KILLAFTER, K_TORN, K_STALL, K_EOF };
static const char* KN[] = {"none", "err", "perr", "short", "eintr", "kill", "killafter", "torn", "stall", "eof"};

struct Fault {
    uint64_t op;
    int kind;
    int64_t arg;
    bool fired;
};
struct Dec {
    uint32_t region;
    uint64_t acc;
    int tid;
};

struct Plan {
    uint64_t seed = 1;
    char cwd[512] = ".", root[512] = "/nonexistent", result[512] = "", conout[512] = "", conerr[512] = "", raw[512] = "";
    std::vector<std::string> args;
    std::string in;
    std::vector<int> inchunks;
    bool inerr = false; // stdin ends with EIO instead of EOF
    int cstream = 0; // console faults: 0 both streams, 1 standard output, 2 standard error
    std::vector<Fault> faults, cfaults;
    int64_t quota = -1, quotaRelease = -1;
    int shortP = 0, eintrP = 0, shortMax = 64;
    uint64_t afrom = 0;
    uint64_t acount = 0;
    int place   = 0; // of memory blocks
    int memfill = 0; // 0 zero, 1 0xff, 2 random, 3 0x7f, 4 small doubles
    int clock = 0;
    int64_t clockBase = 1700000000ll * 1000000000ll;
    int threads = 1, teamVary = 0;
    int smode = 0; // 0 run to completion in order, 1 random order, 2 random preemption, 3 pct, 4 explicit list
    double sp = 0.01;
    int sd = 2;
    double smean = 2000;
    std::vector<Dec> list;
    int log = 0, race = 1, slog = 0, heap = 1, tty = 0;
    uint64_t budget = 4000000000ull, opbudget = 2000000ull;
    uint64_t killacc = 0;
    int cpu = -1, alarmS = 200, hangS = 30;
    uint64_t aslr = 0;
    uint64_t heapLimit = 0, blockLimit = 0; // bytes and blocks of heap in use at any time
    int fdLimit = 0;        // files open at any time
    char gateReq[512] = "", gateGo[512] = ""; // several processes: each runs a granted number of I/O operations at a time
};
static Plan P;

struct FdInfo {
    bool used = false, wr = false, eof = false, stdio = false;
    int path = -1;
};
struct OpRec {
    uint8_t cls;
    int path;
    int64_t len, ret;
};
enum { C_OR, C_OW, C_RD, C_WR, C_CL, C_MK, C_ST, C_CP, C_CH, C_RN, C_UL, C_SY, C_TR, C_SK, C_N };
static const char* CN[] = {"or", "ow", "rd", "wr", "cl", "mk", "st", "cp", "ch", "rn", "ul", "sy", "tr", "sk"};

struct Race {
    int a, b;
    bool aw, bw;
    uintptr_t pca, pcb;
    uint64_t addr;
    uint32_t region;
};

struct State {
    bool on = false; // app is running, seams active
    int rt  = 0;     // inside runtime: do not intercept
    uint64_t hash = 1469598103934665603ull;
    uint64_t ops = 0, cops = 0, allocs = 0, clockReads = 0, accs = 0, inreads = 0;
    int64_t written = 0;
    int64_t realNs = 0, monoNs = 0;
    double simulatedNs = 0;
    uint64_t cnt[C_N] = {};
    uint64_t fired[16] = {};
    uint64_t firedQuota = 0, firedShort = 0, firedEintr = 0, firedAlloc = 0, clockJumps = 0, clockBack = 0, memFilled = 0;
    int perr[C_N] = {};
    Rng io{1}, ck{1}, sc{1}, mem{1}, ap{1};
    FdInfo fd[1024];
    Buf paths; // NUL separated
    std::vector<const char*>* pathv = nullptr;
    std::vector<OpRec>* oplog = nullptr;
    Buf conout, conerr;
    size_t inpos = 0, inchunk = 0;
    int escapes = 0;
    char escape[512] = "";
    char badmem[256] = "";
    // OpenMP
    bool par = false;
    int nthr = 1, cur = 0;
    uint32_t region = 0, epoch = 0;
    uint64_t racc = 0, nextPre = ~0ull;
    uint64_t switches = 0, preempts = 0, regionsPar = 0, maxTeam = 1;
    uint64_t schash = 1469598103934665603ull;
    std::vector<Dec>* dlog = nullptr;
    size_t li = 0;
    std::vector<uint64_t>* pctpts = nullptr;
    size_t pcti = 0;
    std::vector<Race>* races = nullptr;
    uint64_t nraces = 0;
    int icv = 0;
    uint32_t atRegion = 0;
};
static State S;
static char stuckMsg[600];
static void finish(const char* kind, int code) __attribute__((noreturn));

static inline void hmix(uint64_t& h, uint64_t v) {
    for (int i = 0; i < 8; i++) {
        h ^= (v >> (8 * i)) & 0xff;
        h *= 1099511628211ull;
    }
}
static void hstr(uint64_t& h, const char* s) {
    for (; *s; s++) {
        h ^= (unsigned char) *s;
        h *= 1099511628211ull;
    }
}

template <typename F> static F realfn(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    return (F) p;
}
#define REAL(name) (([]() { static auto f = realfn<decltype(&::name)>(#name); return f; })())

// ------------------------------------------------------------------ memory seam
static char* const ARENA   = (char*) 0x200000000000ull;
static const size_t ASIZE  = 4ull << 30;
static uint8_t* const SHAD = (uint8_t*) 0x210000000000ull; // one byte per 16 bytes: number of valid bytes
static size_t abump        = 0;
static size_t atop         = ASIZE; // blocks placed from the upper end downwards
struct FreeQ {
    std::vector<char*>* q = nullptr;
    size_t head           = 0;
};
static FreeQ freeq[8192 + 64];
static bool arenaOk = false;

static inline bool inArena(const void* p) { return (size_t) ((char*) p - ARENA) < ASIZE; }

static void arenaInit() {
    void* a = mmap(ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(SHAD, ASIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    arenaOk = (a == ARENA && b == SHAD);
    if (!arenaOk) {
        static const char m[] = "simulator: cannot map arena\n";
        syscall(SYS_write, 2, m, sizeof m - 1);
        _exit(97);
    }
    abump = 4096;
}

static inline size_t classOf(size_t r) { // r = rounded payload size, multiple of 16
    if (r <= 65536) return r / 16;
    int b = 64 - __builtin_clzll(r - 1);
    return 8192 + b;
}
static void fillMem(char* p, size_t n) {
    auto fill = [](char* q, size_t k) {
        switch (P.memfill) {
        case 0: __real_memset(q, 0, k); break;
        case 1: __real_memset(q, 0xff, k); break;
        case 3: __real_memset(q, 0x7f, k); break;
        case 4:
            for (size_t i = 0; i + 8 <= k; i += 8) {
                double d = (double) (S.mem.below(2000)) * 0.001 - 1.0;
                __real_memcpy(q + i, &d, 8);
            }
            break;
        default:
            for (size_t i = 0; i + 8 <= k; i += 8) {
                uint64_t d = S.mem.next();
                __real_memcpy(q + i, &d, 8);
            }
        }
    };
    S.memFilled += n;
    if (n <= (1 << 20))
        fill(p, n);
    else {
        fill(p, 65536);
        fill(p + ((n - 65536) & ~15ull), 65536);
    }
}
static void race_forget(const void* p, size_t n);

static uint64_t liveBytes = 0, peakBytes = 0, liveBlocks = 0, peakBlocks = 0, firedHeap = 0, firedFd = 0;
static int openFds = 0, peakFds = 0;
static void* arenaAlloc(size_t n, size_t align = 16) {
    if ((P.heapLimit && liveBytes + n > P.heapLimit) || (P.blockLimit && liveBlocks >= P.blockLimit)) {
        firedHeap++;
        return nullptr;
    }
    size_t r = (n + 15) & ~15ull;
    if (r == 0) r = 16;
    if (align > 16) r += align;
    size_t c = classOf(r);
    if (c >= 8192) r = 1ull << (c - 8192);
    char* p = nullptr;
    FreeQ& q = freeq[c];
    size_t keep = c >= 8192 ? 1 : 16;
    // where the block lies: 0 ascending, 1 descending, 2 with gaps, 3 anywhere of these
    int place = P.place == 3 ? (int) S.mem.below(3) : P.place;
    if (q.q && q.q->size() - q.head > keep) {
        if (place) std::swap((*q.q)[q.head], (*q.q)[place == 1 ? q.q->size() - 1 : q.head + S.mem.below(q.q->size() - q.head)]);
        p = (*q.q)[q.head++];
        if (q.head > 4096) {
            q.q->erase(q.q->begin(), q.q->begin() + q.head);
            q.head = 0;
        }
    } else {
        size_t gap = place == 2 ? 16 * S.mem.below(64) : 0;
        if (abump + r + gap + 48 > atop) return nullptr;
        if (place == 1) {
            atop -= r + 32;
            p = ARENA + atop + 16;
        } else {
            abump += gap;
            p = ARENA + abump + 16;
            abump += r + 32;
        }
    }
    liveBytes += n;
    if (++liveBlocks > peakBlocks) peakBlocks = liveBlocks;
    if (liveBytes > peakBytes) peakBytes = liveBytes;
    char* u = p;
    if (align > 16) u = (char*) (((uintptr_t) p + align - 1) & ~(align - 1));
    // header in the 16 bytes before the block: payload size and class
    ((uint64_t*) (p - 16))[0] = n | ((uint64_t) (u - p) << 48);
    ((uint64_t*) (p - 16))[1] = c;
    if (u != p) ((uint64_t*) (u - 16))[0] = n | ((uint64_t) (u - p) << 48), ((uint64_t*) (u - 16))[1] = c;
    size_t s0 = (size_t) (u - ARENA) / 16, full = n / 16;
    __real_memset(SHAD + s0, 16, full);
    if (n % 16 || n == 0) SHAD[s0 + full] = n % 16;
    fillMem(u, (n + 15) & ~15ull);
    __real_memset(u + n, 0xa5, 16); // there are 16 bytes to spare behind every block
    race_forget(u, n);
    return u;
}
static void badmem(const char* what, const void* a, size_t n, uintptr_t pc);
static uintptr_t exeBase();
static void arenaFree(void* v) {
    if (!v) return;
    char* u    = (char*) v;
    uint64_t h = ((uint64_t*) (u - 16))[0];
    size_t n = h & 0xffffffffffffull, off = h >> 48, c = ((uint64_t*) (u - 16))[1];
    size_t s0 = (size_t) (u - ARENA) / 16;
    if ((n >= 16 && SHAD[s0] != 16) || (n > 0 && n < 16 && SHAD[s0] != n)) {
        if (S.on) badmem("invalid or double free", v, 0, 0);
        return;
    }
    for (int i = 0; i < 16; i++)
        if ((unsigned char) u[n + i] != 0xa5) {
            if (S.on) badmem("write behind the end of a block", v, n, 0);
            break;
        }
    __real_memset(SHAD + s0, 0, (n + 15) / 16);
    liveBytes -= n;
    liveBlocks--;
    if (S.on && n <= 65536) __real_memset(u, 0xdd, n);
    race_forget(u, n);
    FreeQ& q = freeq[c];
    S.rt++;
    if (!q.q) q.q = new std::vector<char*>();
    q.q->push_back(u - off);
    S.rt--;
}
static inline bool memActive() { return S.on && !S.rt; }
// Dead stack below the caller is as indeterminate as fresh heap memory: it is refilled at every allocation.
static __attribute__((noinline)) void dirtyStack() {
    if (!P.memfill || S.par) return;
    volatile uint64_t b[384];
    uint64_t x = P.memfill == 1 ? ~0ull : P.memfill == 3 ? 0x7f7f7f7f7f7f7f7full : S.mem.next();
    if (P.memfill == 4) {
        double d = (double) (x % 2000) * 0.001 - 1.0;
        __real_memcpy(&x, &d, 8);
    }
    for (int i = 0; i < 384; i++) {
        b[i] = x;
        if (P.memfill == 2) x = x * 6364136223846793005ull + 1442695040888963407ull;
    }
    asm volatile("" ::"r"(b) : "memory");
    S.memFilled += sizeof b;
}
struct Site {
    uintptr_t pc;
    uint64_t count, first, last, pick[3];
};
static Site sites[4096];
static int nsites = 0;
static void noteSite(uintptr_t pc, uint64_t i) {
    size_t h = (pc * 0x9E3779B97F4A7C15ull) >> 52;
    for (int k = 0; k < 4096; k++, h = (h + 1) & 4095) {
        Site& s = sites[h];
        if (!s.count) {
            if (nsites > 3500) return;
            nsites++;
            s.pc    = pc;
            s.first = i;
        } else if (s.pc != pc)
            continue;
        s.count++;
        s.last = i;
        static Rng pickRng(20240229);
        for (auto& q : s.pick) // three seeded samples
            if (pickRng.below(s.count) == 0) q = i;
        return;
    }
}
static bool allocFails(void* pc) {
    dirtyStack();
    uint64_t i = S.allocs++;
    if (P.log) noteSite((uintptr_t) pc, i);
    if (P.acount && i >= P.afrom && i < P.afrom + P.acount) {
        S.firedAlloc++;
        hmix(S.hash, 0xA110C);
        hmix(S.hash, i);
        return true;
    }
    return false;
}
extern "C" void* __wrap_malloc(size_t n) {
    if (!memActive()) return __real_malloc(n);
    if (allocFails(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = arenaAlloc(n);
    if (!p) errno = ENOMEM;
    return p;
}
extern "C" void __wrap_free(void* p) {
    if (p && inArena(p))
        arenaFree(p);
    else
        __real_free(p);
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
    if (!memActive()) return __real_calloc(a, b);
    void* p = __wrap_malloc(a * b);
    if (p) __real_memset(p, 0, a * b);
    return p;
}
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (p && inArena(p)) {
        void* q = __wrap_malloc(n);
        if (!q) return nullptr;
        size_t o = ((uint64_t*) ((char*) p - 16))[0] & 0xffffffffffffull;
        __real_memcpy(q, p, o < n ? o : n);
        arenaFree(p);
        return q;
    }
    if (!p) return __wrap_malloc(n);
    return __real_realloc(p, n);
}
extern "C" int __wrap_posix_memalign(void** o, size_t al, size_t n) {
    if (!memActive()) {
        void* p = aligned_alloc(al, (n + al - 1) / al * al);
        *o = p;
        return p ? 0 : ENOMEM;
    }
    if (allocFails(__builtin_return_address(0))) return ENOMEM;
    *o = arenaAlloc(n, al);
    return *o ? 0 : ENOMEM;
}
static void* opnew(size_t n, size_t al, bool thr, void* pc) {
    if (!memActive()) {
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
        if (!p && thr) throw std::bad_alloc();
        return p;
    }
    void* p = nullptr;
    if (n < (1ull << 40) && !allocFails(pc)) p = arenaAlloc(n, al);
    if (!p && thr) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return opnew(n, 16, true, __builtin_return_address(0)); }
void* operator new[](size_t n) { return opnew(n, 16, true, __builtin_return_address(0)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return opnew(n, 16, false, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return opnew(n, 16, false, __builtin_return_address(0)); }
void* operator new(size_t n, std::align_val_t a) { return opnew(n, (size_t) a, true, __builtin_return_address(0)); }
void* operator new[](size_t n, std::align_val_t a) { return opnew(n, (size_t) a, true, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

// ------------------------------------------------------------------ clock seam
static void clockTick() {
    S.clockReads++;
    int64_t d = 0;
    switch (P.clock) {
    case 0: d = 1000000; break;
    case 1: d = 0; break;
    case 2: d = -(int64_t) S.ck.below(1000000000) - 1; break;
    case 3: d = (int64_t) S.ck.below(2000000000); break;
    case 4:
        d = (int64_t) S.ck.below(20000000);
        if (S.ck.below(10) == 0) {
            int64_t mag = 1000000000ll << S.ck.below(29); // up to ~8.5 years
            d           = S.ck.below(2) ? mag : -mag;
            S.clockJumps++;
        }
        break;
    case 5: d = 3600ll * 1000000000ll + (int64_t) S.ck.below(1000000000); break; // an hour per reading: stalled node
    }
    if (d < 0) S.clockBack++;
    int64_t r = S.realNs + d;
    if (r > 8000000000000000000ll || r < -8000000000000000000ll) r = P.clockBase; // wrap: yet another jump
    S.realNs = r;
    if (d > 0) S.monoNs += d, S.simulatedNs += (double) d;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    if (!S.on || S.rt) return syscall(SYS_clock_gettime, id, t);
    clockTick();
    int64_t v  = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? S.realNs : S.monoNs;
    t->tv_sec  = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    if (t->tv_nsec < 0) t->tv_nsec += 1000000000, t->tv_sec--; // dates before 1970
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec  = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* o) noexcept {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
static void aYield();
static void simSleep(const struct timespec* r) {
    int64_t d = r->tv_sec * 1000000000ll + r->tv_nsec;
    S.realNs += d;
    S.monoNs += d;
    S.simulatedNs += (double) d;
}
extern "C" int nanosleep(const struct timespec* r, struct timespec* m) {
    if (!S.on) return syscall(SYS_nanosleep, r, m);
    simSleep(r);
    aYield();
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec* r, struct timespec* m) {
    if (!S.on) return syscall(SYS_clock_nanosleep, c, f, r, m) ? errno : 0;
    if (!(f & TIMER_ABSTIME)) simSleep(r);
    aYield();
    return 0;
}
extern "C" int usleep(useconds_t u) {
    struct timespec r = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000};
    return nanosleep(&r, nullptr);
}
extern "C" unsigned sleep(unsigned s) {
    struct timespec r = {(time_t) s, 0};
    nanosleep(&r, nullptr);
    return 0;
}
extern "C" ssize_t getrandom(void* b, size_t n, unsigned f) {
    if (!S.on) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((char*) b)[i] = (char) S.mem.next();
    return n;
}

extern "C" int getentropy(void* b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}
extern "C" uint32_t arc4random(void) noexcept {
    uint32_t v = 0;
    getrandom(&v, sizeof v, 0);
    return v;
}
extern "C" clock_t clock(void) noexcept {
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
extern "C" pid_t getpid(void) noexcept {
    if (!S.on) return syscall(SYS_getpid);
    return 1000 + (pid_t) (P.seed % 30000);
}
extern "C" int isatty(int fd) noexcept {
    if (S.on && fd >= 0 && fd <= 2 && P.tty) return 1;
    errno = ENOTTY;
    return 0;
}
unsigned int std::random_device::_M_getval() {
    uint32_t v = 0;
    getrandom(&v, sizeof v, 0);
    return v;
}

// ------------------------------------------------------------------ threads the program starts itself (pthread seam)
// One of them runs at a time. Another one gets its turn, by a seeded choice, at an I/O operation, when a lock is taken,
// on creation, and whenever the running one has to wait. Threads never end natively: they are parked when done.
static const int MAXA = 64;
struct AThr {
    pthread_t pt;
    sem_t sem;
    bool done = false, gone = false; // gone: joined or detached, the slot is used again once done
    void* (*fn)(void*) = nullptr;
    void *arg = nullptr, *ret = nullptr;
};
static AThr* ath  = nullptr;
static int nath   = 1; // with the main thread
static int aMode  = 0; // 0: switch only when waiting, 1: run at once and switch rarely, 2: switch often
static uint64_t aIdle = 0, aSwitches = 0;
static __thread int atid = 0;
static void aPass(int to) {
    if (to == atid) return;
    int rt = S.rt, er = errno;
    S.rt = 0;
    aSwitches++;
    hmix(S.hash, 0xA7 + to);
    sem_post(&ath[to].sem);
    while (sem_wait(&ath[atid].sem) != 0) {}
    S.rt  = rt;
    errno = er;
}
static int aOther() { // somebody else who has not ended, -1 if there is nobody
    int c[MAXA], n = 0;
    for (int i = 0; i < nath; i++)
        if (i != atid && !ath[i].done) c[n++] = i;
    return n ? c[S.ap.below(n)] : -1;
}
static void aPoint() {
    aIdle = 0;
    if (nath < 2 || S.par || aMode == 0) return;
    if (S.ap.below(aMode == 1 ? 20 : 3)) return;
    int to = aOther();
    if (to >= 0) aPass(to);
}
static void aYield() { // the running thread cannot go on, or does not want to
    if (nath < 2 || S.par) return;
    if (++aIdle > 100000) finish("deadlock", 96);
    int to = aOther();
    if (to >= 0) aPass(to);
}
static void* aMain(void* x) {
    int i = (int) (intptr_t) x;
    atid  = i;
    for (;;) {
        while (sem_wait(&ath[i].sem) != 0) {}
        S.rt        = 0;
        ath[i].ret  = ath[i].fn(ath[i].arg);
        ath[i].done = true;
        aIdle       = 0;
        int to      = aOther();
        if (to < 0) to = 0;
        sem_post(&ath[to].sem);
    }
}
extern "C" int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
    if (!S.on || S.rt) return REAL(pthread_create)(o, a, fn, arg);
    if (!ath) {
        S.rt++;
        ath = new AThr[MAXA];
        for (int i = 0; i < MAXA; i++) sem_init(&ath[i].sem, 0, 0);
        ath[0].pt = pthread_self();
        S.rt--;
    }
    int i = 1;
    while (i < nath && !(ath[i].done && ath[i].gone)) i++;
    if (i >= MAXA) return EAGAIN;
    ath[i].fn   = fn;
    ath[i].arg  = arg;
    ath[i].done = ath[i].gone = false;
    if (i == nath) {
        S.rt++;
        int r = REAL(pthread_create)(&ath[i].pt, nullptr, aMain, (void*) (intptr_t) i);
        S.rt--;
        if (r) return r;
        nath++;
    }
    if (a) {
        int d = 0;
        pthread_attr_getdetachstate(a, &d);
        ath[i].gone = d == PTHREAD_CREATE_DETACHED;
    }
    *o = ath[i].pt;
    hmix(S.hash, 0xA11);
    if (aMode == 1 || (aMode == 2 && S.ap.below(2))) aPass(i);
    return 0;
}
static int aFind(pthread_t t) {
    for (int i = 0; ath && i < nath; i++)
        if (pthread_equal(ath[i].pt, t)) return i;
    return -1;
}
extern "C" int pthread_join(pthread_t t, void** ret) {
    int i = aFind(t);
    if (!S.on || S.rt || i < 0) return REAL(pthread_join)(t, ret);
    while (!ath[i].done) aYield();
    aIdle       = 0;
    ath[i].gone = true;
    if (ret) *ret = ath[i].ret;
    return 0;
}
extern "C" int pthread_detach(pthread_t t) noexcept {
    int i = aFind(t);
    if (!S.on || S.rt || i < 0) return REAL(pthread_detach)(t);
    ath[i].gone = true;
    return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!S.on || S.rt || nath < 2) return REAL(pthread_mutex_lock)(m);
    aPoint();
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        aYield();
    }
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!S.on || S.rt || nath < 2) return REAL(pthread_cond_wait)(c, m);
    pthread_mutex_unlock(m);
    aYield(); // may wake for no reason
    uint64_t k = aIdle;
    pthread_mutex_lock(m);
    aIdle = k;
    return 0;
}
static int aTimed(pthread_cond_t*, pthread_mutex_t* m) {
    pthread_cond_wait(nullptr, m);
    return S.ap.below(8) ? 0 : ETIMEDOUT;
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (!S.on || S.rt || nath < 2) return REAL(pthread_cond_timedwait)(c, m, t);
    return aTimed(c, m);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (!S.on || S.rt || nath < 2) return REAL(pthread_cond_clockwait)(c, m, k, t);
    return aTimed(c, m);
}
extern "C" int sched_yield(void) noexcept {
    aYield();
    return 0;
}
// what libstdc++ waits with for futures and atomics
extern "C" long syscall(long nr, ...) noexcept {
    va_list v;
    va_start(v, nr);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (nr == SYS_futex && S.on && !S.rt && nath > 1) {
        int op = (int) b & 127;
        if (op == 0 || op == 9) { // FUTEX_WAIT, FUTEX_WAIT_BITSET
            if (*(volatile int*) a != (int) c) {
                errno = EAGAIN;
                return -1;
            }
            aYield();
            return 0;
        }
    }
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    long r;
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if ((unsigned long) r > -4096ul) {
        errno = (int) -r;
        return -1;
    }
    return r;
}

// ------------------------------------------------------------------ I/O seam
static int pathId(const char* p) {
    // path relative to the scratch root, so that nothing depends on where the scratch directory is
    char abs[2048];
    if (p[0] == '/')
        snprintf(abs, sizeof abs, "%s", p);
    else
        snprintf(abs, sizeof abs, "%s/%s", P.cwd, p);
    // textual normalisation of "//", "/./", "/../"
    char out[2048];
    size_t o = 0;
    const char* s = abs;
    while (*s) {
        while (*s == '/') s++;
        const char* e = s;
        while (*e && *e != '/') e++;
        size_t k = e - s;
        if (k == 0) break;
        if (k == 1 && s[0] == '.') {
        } else if (k == 2 && s[0] == '.' && s[1] == '.') {
            while (o > 0 && out[o - 1] != '/') o--;
            if (o > 0) o--;
        } else if (o + k + 2 < sizeof out) {
            out[o++] = '/';
            __real_memcpy(out + o, s, k);
            o += k;
        }
        s = e;
    }
    out[o]    = 0;
    size_t rl = strlen(P.root);
    const char* rel = out;
    if (strncmp(out, P.root, rl) == 0 && (out[rl] == '/' || out[rl] == 0)) rel = out[rl] ? out + rl + 1 : ".";
    // a directory above the scratch root: named by its distance from it
    char up[32];
    size_t ol = strlen(out);
    if (rel == out && ol < rl && strncmp(out, P.root, ol) == 0 && (P.root[ol] == '/' || ol == 0)) {
        int n = 0;
        for (size_t i = ol; i < rl; i++) n += P.root[i] == '/';
        snprintf(up, sizeof up, "/^%d", n);
        rel = up;
    }
    S.rt++;
    static std::unordered_map<std::string, int>* ids = nullptr;
    if (!ids) ids = new std::unordered_map<std::string, int>();
    auto it = ids->find(rel);
    int id;
    if (it == ids->end()) {
        S.pathv->push_back(strdup(rel));
        id = S.pathv->size() - 1;
        (*ids)[rel] = id;
    } else
        id = it->second;
    S.rt--;
    return id;
}
static bool outside(int pid) { return (*S.pathv)[pid][0] == '/'; }
static bool guardWrite(int pid) { // true: refuse
    const char* p = (*S.pathv)[pid];
    if (!outside(pid)) return false;
    if (strcmp(p, "/dev/null") == 0) return false;
    S.escapes++;
    snprintf(S.escape, sizeof S.escape, "%s", p);
    return true;
}

static void kill9() { finish("killed", 137); }

struct OpCtl {
    int kind    = K_NONE; // what to do
    int64_t arg = 0;
};
// With several simulated processes in one world only one of them runs at any time: before each I/O operation a process
// needs a grant, a number of operations it may perform before it asks again.
static int gateReqFd = -1, gateGoFd = -1;
static int64_t gateLeft = 0;
static void gateEnd() {
    if (gateReqFd >= 0) syscall(SYS_write, gateReqFd, "e", 1ul);
}
static void gate() {
    if (gateReqFd < 0) return;
    if (gateLeft == 0) {
        int64_t n = 0;
        if (syscall(SYS_write, gateReqFd, "p", 1ul) != 1) syscall(SYS_exit_group, 96);
        for (size_t d = 0; d < sizeof n;) {
            ssize_t k = syscall(SYS_read, gateGoFd, (char*) &n + d, sizeof n - d);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) syscall(SYS_exit_group, 96);
            d += k;
        }
        gateLeft = n;
    }
    if (gateLeft > 0) gateLeft--;
}
// Registers one I/O operation and decides its fate.
static OpCtl opBegin(int cls) {
    OpCtl c;
    aPoint();
    gate();
    uint64_t i = S.ops++;
    S.cnt[cls]++;
    if (S.ops > P.opbudget) finish("budget", 98);
    for (auto& f : P.faults)
        if (f.op == i) {
            f.fired = true;
            S.fired[f.kind]++;
            c.kind = f.kind;
            c.arg  = f.arg;
            if (f.kind == K_PERR) {
                S.perr[cls] = (int) f.arg;
                if (cls == C_WR) S.perr[C_CP] = (int) f.arg;
                if (cls == C_CP) S.perr[C_WR] = (int) f.arg;
                c.kind = K_ERR;
            }
            if (f.kind == K_STALL) {
                S.realNs += f.arg;
                S.monoNs += f.arg;
                S.simulatedNs += (double) f.arg;
                c.kind = K_NONE;
            }
            if (f.kind == K_KILL) {
                hmix(S.hash, 0xDEAD);
                hmix(S.hash, i);
                kill9();
            }
            break;
        }
    if (c.kind == K_NONE && S.perr[cls]) c.kind = K_ERR, c.arg = S.perr[cls];
    return c;
}
static void opEnd(int cls, int path, int64_t len, int64_t ret, const OpCtl& c) {
    hmix(S.hash, cls);
    hstr(S.hash, path >= 0 ? (*S.pathv)[path] : "?");
    hmix(S.hash, len);
    hmix(S.hash, ret);
    if (P.log) {
        S.rt++;
        S.oplog->push_back({(uint8_t) cls, path, len, ret});
        S.rt--;
    }
    if (c.kind == K_KILLAFTER || c.kind == K_TORN) kill9();
}
static int errOf(int64_t a) { return a > 0 ? (int) a : EIO; }

static ssize_t rawRead(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t rawWrite(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t rawWriteAll(int fd, const void* b, size_t n) {
    size_t d = 0;
    while (d < n) {
        ssize_t k = rawWrite(fd, (const char*) b + d, n - d);
        if (k <= 0) return d ? (ssize_t) d : k;
        d += k;
    }
    return d;
}
static inline bool tracked(int fd) { return S.on && !S.rt && fd >= 0 && fd < 1024 && S.fd[fd].used; }

static ssize_t simRead(int fd, void* b, size_t n) {
    FdInfo& f = S.fd[fd];
    OpCtl c   = opBegin(C_RD);
    ssize_t r = 0;
    size_t m  = n;
    if (c.kind == K_EOF) f.eof = true;
    if (c.kind == K_ERR) {
        errno = errOf(c.arg);
        r     = -1;
    } else if (c.kind == K_EINTR) {
        errno = EINTR;
        r     = -1;
    } else if (f.eof) {
        r = 0;
    } else {
        if (c.kind == K_SHORT && c.arg > 0 && (size_t) c.arg < m) m = c.arg;
        if (c.kind == K_NONE && (P.shortP || P.eintrP) && n > 0) {
            if (P.eintrP && !f.stdio && (int) S.io.below(1000) < P.eintrP) {
                S.firedEintr++;
                errno = EINTR;
                r     = -1;
                m     = 0;
            } else if ((int) S.io.below(1000) < P.shortP && m > 1) {
                S.firedShort++;
                size_t k = 1 + S.io.below(P.shortMax);
                if (k < m) m = k;
            }
        }
        if (r == 0 && m > 0) r = rawRead(fd, b, m);
    }
    int e = errno;
    opEnd(C_RD, f.path, n, r, c);
    errno = e;
    return r;
}
// cls: C_WR or C_CP
static ssize_t simWriteCls(int fd, const void* b, size_t n, int cls) {
    FdInfo& f = S.fd[fd];
    OpCtl c   = opBegin(cls);
    ssize_t r = 0;
    size_t m  = n;
    if (P.quotaRelease >= 0 && (int64_t) S.ops > P.quotaRelease) P.quota = -1;
    if (c.kind == K_ERR) {
        errno = errOf(c.arg);
        r     = -1;
    } else if (c.kind == K_EINTR) {
        errno = EINTR;
        r     = -1;
    } else if (c.kind == K_TORN) {
        if ((size_t) c.arg < m) m = c.arg;
        if (m) r = rawWriteAll(fd, b, m);
    } else {
        if (c.kind == K_SHORT && c.arg > 0 && (size_t) c.arg < m) m = c.arg;
        if (c.kind == K_NONE && (P.shortP || P.eintrP) && n > 0) {
            if (P.eintrP && cls == C_WR && !f.stdio && (int) S.io.below(1000) < P.eintrP) {
                S.firedEintr++;
                errno = EINTR;
                r     = -1;
                m     = 0;
            } else if ((int) S.io.below(1000) < P.shortP && m > 1) {
                S.firedShort++;
                size_t k = 1 + S.io.below(P.shortMax);
                if (k < m) m = k;
            }
        }
        if (r == 0 && m > 0 && P.quota >= 0) {
            if (S.written >= P.quota) {
                S.firedQuota++;
                errno = ENOSPC;
                r     = -1;
                m     = 0;
            } else if (S.written + (int64_t) m > P.quota) {
                S.firedQuota++;
                m = P.quota - S.written;
            }
        }
        if (r == 0 && m > 0) r = rawWriteAll(fd, b, m);
        if (r > 0) S.written += r;
    }
    int e = errno;
    opEnd(cls, f.path, n, r, c);
    errno = e;
    return r;
}
static ssize_t simWrite(int fd, const void* b, size_t n) { return simWriteCls(fd, b, n, C_WR); }

static int simOpen(int dirfd, const char* path, int flags, mode_t mode) {
    if (!S.on || S.rt) return syscall(SYS_openat, dirfd, path, flags, mode);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int pid = pathId(path);
    int cls = wr ? C_OW : C_OR;
    OpCtl c = opBegin(cls);
    int r;
    if (c.kind == K_ERR || c.kind == K_EINTR) {
        errno = c.kind == K_EINTR ? EINTR : errOf(c.arg);
        r     = -1;
    } else if (P.fdLimit && openFds >= P.fdLimit) {
        firedFd++;
        errno = EMFILE;
        r     = -1;
    } else if (wr && guardWrite(pid)) {
        errno = EACCES;
        r     = -1;
    } else {
        r = syscall(SYS_openat, dirfd, path, flags, mode);
        if (r >= 0 && r < 1024) {
            if (++openFds > peakFds) peakFds = openFds;
            S.fd[r].used = true;
            S.fd[r].wr   = wr;
            S.fd[r].eof  = false;
            S.fd[r].stdio = false;
            S.fd[r].path = pid;
        }
    }
    int e = errno;
    opEnd(cls, pid, flags & O_ACCMODE, r >= 0 ? 0 : -1, c);
    errno = e;
    return r;
}
static mode_t vmode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; }
#define OPENFN(NAME)                                                                                                   \
    extern "C" int NAME(const char* p, int f, ...) {                                                                   \
        va_list ap;                                                                                                    \
        va_start(ap, f);                                                                                               \
        mode_t m = vmode(f, ap);                                                                                       \
        va_end(ap);                                                                                                    \
        return simOpen(AT_FDCWD, p, f, m);                                                                             \
    }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(NAME)                                                                                                 \
    extern "C" int NAME(int d, const char* p, int f, ...) {                                                            \
        va_list ap;                                                                                                    \
        va_start(ap, f);                                                                                               \
        mode_t m = vmode(f, ap);                                                                                       \
        va_end(ap);                                                                                                    \
        return simOpen(d, p, f, m);                                                                                    \
    }
OPENATFN(openat)
OPENATFN(openat64)
extern "C" int creat(const char* p, mode_t m) { return simOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
extern "C" int creat64(const char* p, mode_t m) { return simOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int simClose(int fd, bool reallyClose) {
    FdInfo& f = S.fd[fd];
    OpCtl c   = opBegin(C_CL);
    int path  = f.path;
    f.used    = false;
    openFds--;
    int r     = reallyClose ? (int) syscall(SYS_close, fd) : 0;
    if (c.kind == K_ERR || c.kind == K_EINTR) {
        errno = errOf(c.kind == K_EINTR ? EINTR : c.arg);
        r     = -1;
    }
    int e = errno;
    opEnd(C_CL, path, f.wr, r, c);
    errno = e;
    return r;
}
extern "C" int close(int fd) {
    if (!tracked(fd)) return syscall(SYS_close, fd);
    return simClose(fd, true);
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
    if (!tracked(fd)) return rawRead(fd, b, n);
    return simRead(fd, b, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    if (!tracked(fd)) return rawWrite(fd, b, n);
    return simWrite(fd, b, n);
}
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o) {
    if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, o);
    OpCtl c = opBegin(C_RD);
    ssize_t r;
    if (c.kind == K_ERR) {
        errno = errOf(c.arg);
        r     = -1;
    } else
        r = syscall(SYS_pread64, fd, b, n, o);
    int e = errno;
    opEnd(C_RD, S.fd[fd].path, n, r, c);
    errno = e;
    return r;
}
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    OpCtl c = opBegin(C_WR);
    ssize_t r;
    if (c.kind == K_ERR) {
        errno = errOf(c.arg);
        r     = -1;
    } else
        r = syscall(SYS_pwrite64, fd, b, n, o);
    int e = errno;
    opEnd(C_WR, S.fd[fd].path, n, r, c);
    errno = e;
    return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int k) {
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, k);
    size_t n = 0;
    for (int i = 0; i < k; i++) n += v[i].iov_len;
    char* tmp = (char*) __real_malloc(n + 1);
    size_t o  = 0;
    for (int i = 0; i < k; i++) {
        __real_memcpy(tmp + o, v[i].iov_base, v[i].iov_len);
        o += v[i].iov_len;
    }
    ssize_t r = simWrite(fd, tmp, n);
    int e     = errno;
    __real_free(tmp);
    errno = e;
    return r;
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int k) {
    if (!tracked(fd)) return syscall(SYS_readv, fd, v, k);
    for (int i = 0; i < k; i++)
        if (v[i].iov_len) return simRead(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static ssize_t simCopy(int out, int in, off_t* off, off_t* ooff, size_t n) {
    // one in-kernel copy step: read from the source, write to the target through the copy class
    size_t m = n > 65536 ? 65536 : n;
    char* tmp = (char*) __real_malloc(m + 1);
    ssize_t r = off ? syscall(SYS_pread64, in, tmp, m, *off) : syscall(SYS_read, in, tmp, m);
    if (r > 0) {
        ssize_t w;
        if (tracked(out) && !ooff)
            w = simWriteCls(out, tmp, r, C_CP);
        else
            w = ooff ? syscall(SYS_pwrite64, out, tmp, r, *ooff) : syscall(SYS_write, out, tmp, r);
        int e = errno;
        if (w < r && !off) syscall(SYS_lseek, in, (w < 0 ? 0 : w) - r, SEEK_CUR);
        if (w > 0 && off) *off += w;
        if (w > 0 && ooff) *ooff += w;
        errno = e;
        r     = w;
    }
    int e = errno;
    __real_free(tmp);
    errno = e;
    return r;
}
extern "C" ssize_t sendfile(int o, int i, off_t* off, size_t n) {
    if (!S.on || S.rt) return syscall(SYS_sendfile, o, i, off, n);
    return simCopy(o, i, off, nullptr, n);
}
extern "C" ssize_t sendfile64(int o, int i, off64_t* off, size_t n) {
    if (!S.on || S.rt) return syscall(SYS_sendfile, o, i, off, n);
    return simCopy(o, i, (off_t*) off, nullptr, n);
}
extern "C" ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned f) {
    if (!S.on || S.rt) return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
    return simCopy(o, i, (off_t*) io, (off_t*) oo, n);
}
template <typename F> static int simple(int cls, int pid, bool writes, F real) {
    OpCtl c = opBegin(cls);
    int r;
    if (c.kind == K_ERR || c.kind == K_EINTR) {
        errno = c.kind == K_EINTR ? EINTR : errOf(c.arg);
        r     = -1;
    } else if (writes && pid >= 0 && guardWrite(pid)) {
        errno = EACCES;
        r     = -1;
    } else
        r = real();
    int e = errno;
    opEnd(cls, pid, 0, r, c);
    errno = e;
    return r;
}
extern "C" int mkdir(const char* p, mode_t m) noexcept {
    if (!S.on || S.rt) return syscall(SYS_mkdir, p, m);
    return simple(C_MK, pathId(p), true, [&] { return (int) syscall(SYS_mkdir, p, m); });
}
extern "C" int mkdirat(int d, const char* p, mode_t m) noexcept {
    if (!S.on || S.rt) return syscall(SYS_mkdirat, d, p, m);
    return simple(C_MK, pathId(p), true, [&] { return (int) syscall(SYS_mkdirat, d, p, m); });
}
extern "C" int unlink(const char* p) noexcept {
    if (!S.on || S.rt) return syscall(SYS_unlink, p);
    return simple(C_UL, pathId(p), true, [&] { return (int) syscall(SYS_unlink, p); });
}
extern "C" int unlinkat(int d, const char* p, int f) noexcept {
    if (!S.on || S.rt) return syscall(SYS_unlinkat, d, p, f);
    if (d != AT_FDCWD && p[0] != '/') { // relative to a directory handle: only used below the scratch root
        if (d < 0 || d >= 1024 || !S.fd[d].used || outside(S.fd[d].path)) {
            S.escapes++;
            errno = EACCES;
            return -1;
        }
        return simple(C_UL, S.fd[d].path, true, [&] { return (int) syscall(SYS_unlinkat, d, p, f); });
    }
    return simple(C_UL, pathId(p), true, [&] { return (int) syscall(SYS_unlinkat, d, p, f); });
}
extern "C" int rmdir(const char* p) noexcept {
    if (!S.on || S.rt) return syscall(SYS_rmdir, p);
    return simple(C_UL, pathId(p), true, [&] { return (int) syscall(SYS_rmdir, p); });
}
extern "C" int remove(const char* p) noexcept {
    if (unlink(p) == 0) return 0;
    if (errno == EISDIR || errno == EPERM) return rmdir(p);
    return -1;
}
extern "C" int rename(const char* a, const char* b) noexcept {
    if (!S.on || S.rt) return syscall(SYS_rename, a, b);
    if (guardWrite(pathId(a))) {
        errno = EACCES;
        return -1;
    }
    return simple(C_RN, pathId(b), true, [&] { return (int) syscall(SYS_rename, a, b); });
}
extern "C" int renameat(int d, const char* a, int d2, const char* b) noexcept {
    if (!S.on || S.rt) return syscall(SYS_renameat, d, a, d2, b);
    return rename(a, b);
}
extern "C" int link(const char* a, const char* b) noexcept {
    if (!S.on || S.rt) return syscall(SYS_link, a, b);
    return simple(C_RN, pathId(b), true, [&] { return (int) syscall(SYS_link, a, b); });
}
extern "C" int symlink(const char* a, const char* b) noexcept {
    if (!S.on || S.rt) return syscall(SYS_symlink, a, b);
    return simple(C_RN, pathId(b), true, [&] { return (int) syscall(SYS_symlink, a, b); });
}
extern "C" int truncate(const char* p, off_t n) noexcept {
    if (!S.on || S.rt) return syscall(SYS_truncate, p, n);
    return simple(C_TR, pathId(p), true, [&] { return (int) syscall(SYS_truncate, p, n); });
}
extern "C" int ftruncate(int fd, off_t n) noexcept {
    if (!tracked(fd)) return syscall(SYS_ftruncate, fd, n);
    return simple(C_TR, S.fd[fd].path, false, [&] { return (int) syscall(SYS_ftruncate, fd, n); });
}
extern "C" int fchmod(int fd, mode_t m) noexcept {
    if (!tracked(fd)) return syscall(SYS_fchmod, fd, m);
    return simple(C_CH, S.fd[fd].path, false, [&] { return (int) syscall(SYS_fchmod, fd, m); });
}
extern "C" int chmod(const char* p, mode_t m) noexcept {
    if (!S.on || S.rt) return syscall(SYS_chmod, p, m);
    return simple(C_CH, pathId(p), true, [&] { return (int) syscall(SYS_chmod, p, m); });
}
extern "C" int fsync(int fd) {
    if (!tracked(fd)) return syscall(SYS_fsync, fd);
    return simple(C_SY, S.fd[fd].path, false, [&] { return 0; });
}
extern "C" int fdatasync(int fd) {
    if (!tracked(fd)) return syscall(SYS_fdatasync, fd);
    return simple(C_SY, S.fd[fd].path, false, [&] { return 0; });
}
extern "C" int stat(const char* p, struct stat* s) noexcept {
    if (!S.on || S.rt) return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
    return simple(C_ST, pathId(p), false, [&] { return (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); });
}
extern "C" int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*) s); }
extern "C" int lstat(const char* p, struct stat* s) noexcept {
    if (!S.on || S.rt) return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
    return simple(C_ST, pathId(p), false, [&] { return (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); });
}
extern "C" int lstat64(const char* p, struct stat64* s) noexcept { return lstat(p, (struct stat*) s); }

// destructive or process-level calls the program has no business making: refused and recorded
#define DENY(DECL, RET)                                                                                                \
    extern "C" DECL {                                                                                                  \
        if (S.on) {                                                                                                    \
            S.escapes++;                                                                                               \
            snprintf(S.escape, sizeof S.escape, "process-level call");                                                \
        }                                                                                                              \
        errno = EPERM;                                                                                                 \
        return RET;                                                                                                    \
    }
DENY(int system(const char*), -1)
DENY(FILE* popen(const char*, const char*), nullptr)
DENY(int execve(const char*, char* const*, char* const*) noexcept, -1)
DENY(int execvp(const char*, char* const*) noexcept, -1)
DENY(int execv(const char*, char* const*) noexcept, -1)
DENY(int kill(pid_t, int) noexcept, -1)
DENY(int mount(const char*, const char*, const char*, unsigned long, const void*) noexcept, -1)

// FILE* level
struct CookieFile {
    FILE* f;
    int fd;
};
static CookieFile cookies[256];
static int ncookies = 0;
static ssize_t ck_read(void* c, char* b, size_t n) {
    int fd = (int) (intptr_t) c;
    return tracked(fd) ? simRead(fd, b, n) : rawRead(fd, b, n);
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
    int fd    = (int) (intptr_t) c;
    ssize_t r = tracked(fd) ? simWrite(fd, b, n) : rawWrite(fd, b, n);
    return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int w) {
    off64_t r = syscall(SYS_lseek, (int) (intptr_t) c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void*) { return 0; }
static void conSwitch(FILE* f, FILE* g);
extern "C" FILE* fopen64(const char* p, const char* m) {
    if (!S.on || S.rt) return REAL(fopen64)(p, m);
    int fl = 0;
    bool plus = strchr(m, '+');
    if (m[0] == 'r')
        fl = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w')
        fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else
        fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) fl |= O_EXCL;
    if (strchr(m, 'e')) fl |= O_CLOEXEC;
    int fd = simOpen(AT_FDCWD, p, fl, 0666);
    if (fd < 0) return nullptr;
    S.fd[fd].stdio = true;
    S.rt++;
    FILE* f = fopencookie((void*) (intptr_t) fd, m, {ck_read, ck_write, ck_seek, ck_close});
    S.rt--;
    int slot = -1;
    for (int i = 0; i < ncookies; i++)
        if (!cookies[i].f) slot = i;
    if (slot < 0 && ncookies < 256) slot = ncookies++;
    if (slot < 0) abort();
    cookies[slot] = {f, fd};
    return f;
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
extern "C" int fileno(FILE* f) noexcept {
    for (int i = 0; i < ncookies; i++)
        if (cookies[i].f == f) return cookies[i].fd;
    return REAL(fileno)(f);
}
extern "C" int fclose(FILE* f) {
    for (int i = 0; i < ncookies; i++)
        if (cookies[i].f == f) {
            int fd       = cookies[i].fd;
            bool t       = tracked(fd);
            int fr       = fflush(f); // pending stdio data reaches the seam first
            cookies[i].f = nullptr;
            int r        = t ? simClose(fd, false) : 0;
            int e        = errno;
            S.rt++;
            REAL(fclose)(f);
            S.rt--;
            syscall(SYS_close, fd);
            errno = e;
            return (r < 0 || fr < 0) ? EOF : 0;
        }
    return REAL(fclose)(f);
}

extern "C" FILE* freopen64(const char* p, const char* m, FILE* f) {
    if (!S.on || S.rt) return REAL(freopen64)(p, m, f);
    if (!p) return f;
    FILE* g = fopen64(p, m);
    conSwitch(f, g);
    return g;
}
extern "C" FILE* freopen(const char* p, const char* m, FILE* f) { return freopen64(p, m, f); }

// console and stdin
static ssize_t conWrite(void* c, const char* b, size_t n) {
    Buf& o     = c ? S.conerr : S.conout;
    uint64_t i = S.cops++;
    if (S.on && S.cops > P.opbudget) finish("budget", 98);
    for (auto& f : P.cfaults)
        if (S.on && (f.op == i || (f.kind == K_PERR && i >= f.op)) && (!P.cstream || P.cstream == (c ? 2 : 1))) {
            f.fired = true;
            S.fired[f.kind]++;
            if (f.kind == K_KILL) kill9();
            if (f.kind == K_STALL) { // a console nobody reads for a while
                S.realNs += f.arg;
                S.monoNs += f.arg;
                S.simulatedNs += (double) f.arg;
                continue;
            }
            errno = f.kind == K_EINTR ? EINTR : errOf(f.arg);
            return 0;
        }
    o.add(b, n);
    return n;
}
static ssize_t inRead(void*, char* b, size_t n) {
    S.inreads++;
    if (S.inreads + S.cops > P.opbudget) finish("budget", 98);
    if (S.inpos >= P.in.size()) {
        if (P.inerr) {
            errno = EIO;
            return -1;
        }
        return 0;
    }
    size_t k = P.in.size() - S.inpos;
    if (S.inchunk < P.inchunks.size()) {
        int q = P.inchunks[S.inchunk++];
        if (q > 0 && (size_t) q < k) k = q;
    }
    if (k > n) k = n;
    __real_memcpy(b, P.in.data() + S.inpos, k);
    S.inpos += k;
    return k;
}
class ConBuf : public std::streambuf {
    FILE* f;

public:
    explicit ConBuf(FILE* f) : f(f) {}
    void to(FILE* g) { f = g; }

protected:
    int_type overflow(int_type c) override {
        if (S.cops > P.opbudget) finish("budget", 98);
        if (c == traits_type::eof()) return 0;
        return fputc(c, f) == EOF ? traits_type::eof() : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (S.cops > P.opbudget) finish("budget", 98);
        return fwrite(s, 1, n, f);
    }
    int sync() override { return fflush(f); }
};
static ConBuf *cbOut, *cbErr;
static void conSwitch(FILE* f, FILE* g) { // freopen of a console stream
    if (f == stdout) {
        fflush(stdout);
        if (g) stdout = g;
        if (g) cbOut->to(g);
    } else if (f == stderr) {
        if (g) stderr = g;
        if (g) cbErr->to(g);
    } else if (f != stdin)
        fclose(f);
}
class InBuf : public std::streambuf {
    FILE* f;

protected:
    int_type underflow() override {
        int c = getc(f);
        if (c == EOF) return traits_type::eof();
        ungetc(c, f);
        return c;
    }
    int_type uflow() override {
        int c = getc(f);
        return c == EOF ? traits_type::eof() : c;
    }
    int_type pbackfail(int_type c) override { return c == traits_type::eof() ? c : ungetc(c, f); }

public:
    explicit InBuf(FILE* f) : f(f) {}
};

// ------------------------------------------------------------------ OpenMP seam: scheduler
enum { T_RUN, T_BAR, T_LOCK, T_DONE };
struct WS {
    bool init = false, single = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    bool up = true;
    int kind = 0; // 0 static 1 dynamic 2 guided
    int sect = 0, nsect = 0;
};
struct Thr {
    sem_t sem;
    pthread_t pt;
    bool made = false;
    int state = T_DONE;
    int wsi = 0;
    int locks = 0; // currently held lock id (0 none)
    void* wait = nullptr;
    int nested = 0;
    long statDone = 0;
};
static Thr th[MAXT];
static __thread int myTid = 0;
static __thread int nestLevel = 0;
static void (*jobFn)(void*);
static void* jobData;
static std::vector<WS>* wss;
static bool quitting = false;

struct ShadowEnt {
    uint64_t key; // granule+1
    uint32_t epoch;
    uint8_t rd[MAXT], wr[MAXT], lk[MAXT];
    uint32_t pc[MAXT];
};
static ShadowEnt* sht = nullptr;
static size_t shn = 0, shcount = 0;
static uintptr_t exeBase() {
    static uintptr_t b = 0;
    if (!b) {
        Dl_info i;
        if (dladdr((void*) &app_main, &i)) b = (uintptr_t) i.dli_fbase;
    }
    return b;
}
static inline size_t shHash(uint64_t g) { return (g * 0x9E3779B97F4A7C15ull) >> 20; }
static ShadowEnt* shFind(uint64_t g, bool create) {
    if (!sht) {
        shn = 1 << 14;
        sht = (ShadowEnt*) __real_calloc(shn, sizeof(ShadowEnt));
    }
    size_t i = shHash(g) & (shn - 1);
    while (sht[i].key && sht[i].key != g + 1) i = (i + 1) & (shn - 1);
    if (sht[i].key) return &sht[i];
    if (!create) return nullptr;
    if (shcount * 2 > shn) { // grow, dropping entries of past epochs
        ShadowEnt* o = sht;
        size_t on    = shn;
        size_t live  = 0;
        for (size_t k = 0; k < on; k++)
            if (o[k].key && o[k].epoch == S.epoch) live++;
        if (live * 4 > on) shn *= 2;
        sht     = (ShadowEnt*) __real_calloc(shn, sizeof(ShadowEnt));
        shcount = 0;
        for (size_t k = 0; k < on; k++)
            if (o[k].key && o[k].epoch == S.epoch) {
                size_t j = shHash(o[k].key - 1) & (shn - 1);
                while (sht[j].key) j = (j + 1) & (shn - 1);
                sht[j] = o[k];
                shcount++;
            }
        __real_free(o);
        return shFind(g, true);
    }
    sht[i].key   = g + 1;
    sht[i].epoch = S.epoch - 1;
    shcount++;
    return &sht[i];
}
static void race_forget(const void* p, size_t n) {
    if (!S.par || !sht || n > (1 << 20)) return;
    for (uint64_t g = (uint64_t) p >> 3; g <= ((uint64_t) p + n + 7) >> 3; g++)
        if (ShadowEnt* e = shFind(g, false)) e->epoch = S.epoch - 1;
}
static void raceAccess(uintptr_t a, size_t n, bool w, int lock, uintptr_t pc) {
    int t = S.cur;
    if (myTid != t) return;
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        size_t lo = g << 3 > a ? 0 : a & 7, hi = ((g + 1) << 3) < a + n ? 8 : (a + n) - (g << 3);
        uint8_t mask = (uint8_t) (((1u << hi) - 1) & ~((1u << lo) - 1));
        ShadowEnt* e = shFind(g, true);
        if (e->epoch != S.epoch) {
            e->epoch = S.epoch;
            __real_memset(e->rd, 0, MAXT);
            __real_memset(e->wr, 0, MAXT);
            __real_memset(e->lk, 0, MAXT);
        }
        for (int o = 0; o < S.nthr; o++) {
            if (o == t) continue;
            bool conf = (e->wr[o] & mask) || (w && (e->rd[o] & mask));
            if (conf && !(lock && e->lk[o] == lock)) {
                S.nraces++;
                if (S.races->size() < 20) {
                    S.rt++;
                    S.races->push_back({o, t, (e->wr[o] & mask) != 0, w, e->pc[o], pc - exeBase(), a, S.region});
                    S.rt--;
                }
            }
        }
        if (w)
            e->wr[t] |= mask;
        else
            e->rd[t] |= mask;
        e->lk[t] = lock;
        e->pc[t] = (uint32_t) (pc - exeBase());
    }
}

static void decide(int to, bool forced) {
    (void) forced;
    hmix(S.schash, S.region);
    hmix(S.schash, S.racc);
    hmix(S.schash, to);
    if (P.slog) {
        S.rt++;
        S.dlog->push_back({S.region, S.racc, to});
        S.rt--;
    }
}
static void planNext() {
    S.nextPre = ~0ull;
    if (S.nthr < 2) return;
    switch (P.smode) {
    case 2: {
        double u  = S.sc.unit();
        double p  = P.sp;
        uint64_t k = 1;
        if (p < 1) {
            double x = __builtin_log(1 - u) / __builtin_log(1 - p);
            k        = x > 1e9 ? 1000000000ull : (uint64_t) x + 1;
        }
        S.nextPre = S.racc + k;
        break;
    }
    case 3:
        while (S.pcti < S.pctpts->size() && (*S.pctpts)[S.pcti] <= S.racc) S.pcti++;
        if (S.pcti < S.pctpts->size()) S.nextPre = (*S.pctpts)[S.pcti];
        break;
    case 4:
        while (S.li < P.list.size() && (P.list[S.li].region < S.region || (P.list[S.li].region == S.region && P.list[S.li].acc <= S.racc)))
            S.li++;
        if (S.li < P.list.size() && P.list[S.li].region == S.region) S.nextPre = P.list[S.li].acc;
        break;
    }
}
static int runnableOther(int self) { // pick by seeded choice, -1 if none
    int c[MAXT], n = 0;
    for (int i = 0; i < S.nthr; i++)
        if (i != self && th[i].state == T_RUN) c[n++] = i;
    if (!n) return -1;
    if (P.smode == 0) return c[0];
    if (P.smode == 4) {
        // explicit decision recorded for this very point?
        for (size_t k = S.li > 4 ? S.li - 4 : 0; k < P.list.size() && P.list[k].region <= S.region; k++)
            if (P.list[k].region == S.region && P.list[k].acc == S.racc)
                for (int i = 0; i < n; i++)
                    if (c[i] == P.list[k].tid) return c[i];
        return c[0];
    }
    return c[S.sc.below(n)];
}
static void switchTo(int to) {
    int me = myTid;
    if (to == me) return;
    S.cur = to;
    S.switches++;
    sem_post(&th[to].sem);
    while (sem_wait(&th[me].sem) != 0) {}
}
static void preempt() {
    int to = runnableOther(S.cur);
    if (to >= 0) {
        S.preempts++;
        decide(to, false);
    }
    planNext();
    if (to >= 0) switchTo(to);
}
static void blockSwitch() { // current thread cannot continue now
    int to = runnableOther(S.cur);
    if (to < 0) finish("deadlock", 96);
    decide(to, true);
    switchTo(to);
}
static void* workerMain(void* a) {
    myTid = (int) (intptr_t) a;
    for (;;) {
        while (sem_wait(&th[myTid].sem) != 0) {}
        if (quitting) return nullptr;
        jobFn(jobData);
        th[myTid].state = T_DONE;
        int to          = runnableOther(myTid);
        if (to < 0) {
            bool all = true;
            for (int i = 0; i < S.nthr; i++)
                if (th[i].state != T_DONE) all = false;
            if (!all) finish("deadlock", 96);
            to = 0;
        }
        decide(to, true);
        S.cur = to;
        S.switches++;
        sem_post(&th[to].sem);
    }
}
static int chooseTeam(unsigned nt) {
    int T = nt ? (int) nt : (S.icv ? S.icv : P.threads);
    if (P.teamVary) T = 1 + (int) S.sc.below(P.threads); // the implementation may supply fewer threads
    if (T > MAXT) T = MAXT;
    if (T < 1) T = 1;
    return T;
}
static void runTeam(void (*fn)(void*), void* data, int T) {
    S.region++;
    S.regionsPar++;
    if ((uint64_t) T > S.maxTeam) S.maxTeam = T;
    S.epoch += 2;
    S.racc = 0;
    S.nthr = T;
    jobFn   = fn;
    jobData = data;
    S.rt++;
    if (!wss) wss = new std::vector<WS>();
    wss->clear();
    for (int i = 0; i < T; i++) {
        th[i].state = T_RUN;
        th[i].wsi   = 0;
        th[i].locks = 0;
        if (i > 0 && !th[i].made) {
            sem_init(&th[i].sem, 0, 0);
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 1 << 20);
            if (pthread_create(&th[i].pt, &at, workerMain, (void*) (intptr_t) i) != 0) _exit(97);
            th[i].made = true;
        }
    }
    if (P.smode == 3) {
        S.pctpts->clear();
        S.pcti = 0;
        for (int i = 0; i < P.sd; i++) S.pctpts->push_back((uint64_t) (-P.smean * __builtin_log(1 - S.sc.unit())) + 1);
        for (size_t i = 0; i < S.pctpts->size(); i++)
            for (size_t j = i + 1; j < S.pctpts->size(); j++)
                if ((*S.pctpts)[j] < (*S.pctpts)[i]) std::swap((*S.pctpts)[i], (*S.pctpts)[j]);
    }
    S.rt--;
    S.par = true;
    planNext();
    // who starts?
    int first = 0;
    if (P.smode == 1 || P.smode == 2 || P.smode == 3) first = (int) S.sc.below(T);
    if (P.smode == 4)
        for (auto& d : P.list)
            if (d.region == S.region && d.acc == 0 && d.tid < T) {
                first = d.tid;
                break;
            }
    if (first != 0) {
        decide(first, true);
        switchTo(first);
    }
    fn(data);
    th[0].state = T_DONE;
    for (;;) {
        bool all = true;
        for (int i = 0; i < T; i++)
            if (th[i].state != T_DONE) all = false;
        if (all) break;
        int to = runnableOther(0);
        if (to < 0) finish("deadlock", 96);
        decide(to, true);
        switchTo(to);
    }
    S.par  = false;
    S.nthr = 1;
    S.cur  = 0;
    S.nextPre = ~0ull;
}
extern "C" void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    if (!S.on || S.par || atid) {
        nestLevel++;
        fn(data);
        nestLevel--;
        return;
    }
    int T = chooseTeam(nt);
    if (T == 1) {
        nestLevel++;
        S.rt++;
        if (!wss) wss = new std::vector<WS>();
        wss->clear();
        S.rt--;
        th[0].wsi = 0;
        fn(data);
        nestLevel--;
        return;
    }
    runTeam(fn, data, T);
}
static inline int teamSize() { return (S.par && nestLevel == 0) ? S.nthr : 1; }
static inline int teamId() { return (S.par && nestLevel == 0) ? myTid : 0; }
extern "C" {
int omp_get_thread_num() { return teamId(); }
int omp_get_num_threads() { return teamSize(); }
int omp_get_max_threads() { return S.icv ? S.icv : P.threads; }
int omp_get_num_procs() { return P.threads; }
void omp_set_num_threads(int n) { S.icv = n > 0 ? (n > MAXT ? MAXT : n) : 1; }
int omp_in_parallel() { return S.par; }
int omp_get_level() { return (S.par ? 1 : 0) + nestLevel; }
int omp_get_active_level() { return S.par ? 1 : 0; }
int omp_get_team_size(int) { return teamSize(); }
int omp_get_ancestor_thread_num(int) { return teamId(); }
int omp_get_thread_limit() { return MAXT; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 1, *c = 0; }
int omp_get_cancellation() { return 0; }
double omp_get_wtime() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
double omp_get_wtick() { return 1e-9; }

static void doBarrier() {
    if (teamSize() == 1) return;
    th[myTid].state = T_BAR;
    bool all        = true;
    for (int i = 0; i < S.nthr; i++)
        if (th[i].state == T_RUN || th[i].state == T_LOCK) all = false;
    if (all) {
        for (int i = 0; i < S.nthr; i++)
            if (th[i].state == T_BAR) th[i].state = T_RUN;
        S.epoch += 2;
        return;
    }
    blockSwitch();
}
void GOMP_barrier() { doBarrier(); }

static std::vector<std::pair<void*, int>>* lockOwner;
static int* ownerOf(void* l) {
    S.rt++;
    if (!lockOwner) lockOwner = new std::vector<std::pair<void*, int>>();
    for (auto& x : *lockOwner)
        if (x.first == l) {
            S.rt--;
            return &x.second;
        }
    lockOwner->emplace_back(l, -1);
    S.rt--;
    return &lockOwner->back().second;
}
static int lockId(void* l) {
    for (size_t i = 0; i < lockOwner->size(); i++)
        if ((*lockOwner)[i].first == l) return 1 + (int) (i % 200);
    return 1;
}
static void acquire(void* l) {
    if (teamSize() == 1) return;
    if (S.racc + 1 >= S.nextPre) {}
    for (;;) {
        int* o = ownerOf(l);
        if (*o < 0) {
            *o              = myTid;
            th[myTid].locks = lockId(l);
            return;
        }
        th[myTid].state = T_LOCK;
        th[myTid].wait  = l;
        blockSwitch();
    }
}
static void release(void* l) {
    if (teamSize() == 1) return;
    *ownerOf(l)     = -1;
    th[myTid].locks = 0;
    for (int i = 0; i < S.nthr; i++)
        if (th[i].state == T_LOCK && th[i].wait == l) th[i].state = T_RUN;
}
static char defaultCrit, atomicCrit;
void GOMP_critical_start() { acquire(&defaultCrit); }
void GOMP_critical_end() { release(&defaultCrit); }
void GOMP_critical_name_start(void** p) { acquire(p); }
void GOMP_critical_name_end(void** p) { release(p); }
void GOMP_atomic_start() { acquire(&atomicCrit); }
void GOMP_atomic_end() { release(&atomicCrit); }
void omp_init_lock(void* l) { *(int*) l = 0; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { acquire(l); }
void omp_unset_lock(void* l) { release(l); }
int omp_test_lock(void* l) {
    if (teamSize() == 1) return 1;
    if (*ownerOf(l) >= 0) return 0;
    acquire(l);
    return 1;
}

static WS& ws(bool fresh) {
    Thr& t = th[teamId()];
    if (fresh) t.wsi++;
    S.rt++;
    while ((int) wss->size() < t.wsi) wss->emplace_back();
    S.rt--;
    return (*wss)[t.wsi - 1];
}
bool GOMP_single_start() {
    if (teamSize() == 1) return true;
    WS& w = ws(true);
    if (w.single) return false;
    w.single = true;
    return true;
}
static bool wsNext(WS& w, long* is, long* ie) {
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
    long c    = w.chunk > 0 ? w.chunk : 1;
    if (w.kind == 2) {
        long g = left / teamSize();
        if (g > c) c = g;
    }
    if (c > left) c = left;
    *is = w.next;
    *ie = w.next + c * w.incr;
    w.next = *ie;
    return true;
}
static bool wsStart(long s, long e, long i, long c, int kind, long* is, long* ie) {
    WS& w = ws(true);
    if (!w.init) {
        w.init = true;
        w.next = s, w.end = e, w.incr = i, w.chunk = c, w.kind = kind;
    }
    return wsNext(w, is, ie);
}
#define LOOPS(NAME, KIND)                                                                                              \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return wsStart(s, e, i, c, KIND, is, ie); } \
    bool GOMP_loop_##NAME##_next(long* is, long* ie) { return wsNext(ws(false), is, ie); }
LOOPS(dynamic, 1)
LOOPS(guided, 2)
LOOPS(static, 1)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 2)
LOOPS(ordered_dynamic, 1)
LOOPS(ordered_guided, 2)
LOOPS(ordered_static, 1)
#define LOOPR(NAME)                                                                                                    \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return wsStart(s, e, i, 1, 1, is, ie); } \
    bool GOMP_loop_##NAME##_next(long* is, long* ie) { return wsNext(ws(false), is, ie); }
LOOPR(runtime)
LOOPR(maybe_nonmonotonic_runtime)
LOOPR(nonmonotonic_runtime)
static bool uNext(WS& w, unsigned long long* is, unsigned long long* ie) {
    unsigned long long left;
    if (w.up) {
        if (w.unext >= w.uend) return false;
        left = (w.uend - w.unext + w.uincr - 1) / w.uincr;
    } else {
        if (w.unext <= w.uend) return false;
        left = (w.unext - w.uend - w.uincr - 1) / -w.uincr;
    }
    unsigned long long c = w.uchunk ? w.uchunk : 1;
    if (w.kind == 2 && left / teamSize() > c) c = left / teamSize();
    if (c > left) c = left;
    *is = w.unext;
    *ie = w.unext + c * w.uincr;
    w.unext = *ie;
    return true;
}
static bool uStart(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, int kind,
                   unsigned long long* is, unsigned long long* ie) {
    WS& w = ws(true);
    if (!w.init) {
        w.init = true;
        w.up = up, w.unext = s, w.uend = e, w.uincr = i, w.uchunk = c, w.kind = kind;
    }
    return uNext(w, is, ie);
}
typedef unsigned long long ull;
#define LOOPU(NAME, KIND)                                                                                              \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { return uStart(up, s, e, i, c, KIND, is, ie); } \
    bool GOMP_loop_ull_##NAME##_next(ull* is, ull* ie) { return uNext(ws(false), is, ie); }
LOOPU(dynamic, 1)
LOOPU(guided, 2)
LOOPU(static, 1)
LOOPU(nonmonotonic_dynamic, 1)
LOOPU(nonmonotonic_guided, 2)
void GOMP_loop_end() { doBarrier(); }
void GOMP_loop_end_nowait() {}
#define PARLOOP(NAME, KIND)                                                                                            \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl) { \
        parLoop(fn, d, nt, s, e, i, c, KIND, fl);                                                                      \
    }
static void parLoop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, int kind, unsigned) {
    auto pre = [&](int T) {
        WS w;
        w.init = true;
        w.next = s, w.end = e, w.incr = i, w.chunk = c, w.kind = kind;
        S.rt++;
        wss->push_back(w);
        S.rt--;
        for (int k = 0; k < T; k++) th[k].wsi = 1;
    };
    if (!S.on || S.par) { // serial: emulate by a private work share on this thread
        // nested region inside a team is not used by this program; run it with a local loop
        nestLevel++;
        S.rt++;
        static std::vector<WS>* saved;
        saved = wss;
        wss   = new std::vector<WS>();
        S.rt--;
        int keep  = th[0].wsi;
        pre(1);
        fn(d);
        th[0].wsi = keep;
        wss       = saved;
        nestLevel--;
        return;
    }
    int T = chooseTeam(nt);
    S.rt++;
    if (!wss) wss = new std::vector<WS>();
    S.rt--;
    if (T == 1) {
        nestLevel++;
        wss->clear();
        pre(1);
        fn(d);
        nestLevel--;
        return;
    }
    struct Ctx {
        void (*fn)(void*);
        void* d;
    };
    // runTeam clears the work shares, so install ours through a trampoline executed by whoever comes first
    struct Tr {
        void (*fn)(void*);
        void* d;
        long s, e, i, c;
        int kind;
    };
    static Tr tr;
    tr = {fn, d, s, e, i, c, kind};
    runTeam(
        [](void* v) {
            Tr* t = (Tr*) v;
            WS& w = ws(true);
            if (!w.init) {
                w.init = true;
                w.next = t->s, w.end = t->e, w.incr = t->i, w.chunk = t->c, w.kind = t->kind;
            }
            t->fn(t->d);
        },
        &tr, T
    );
}
PARLOOP(dynamic, 1)
PARLOOP(guided, 2)
PARLOOP(static, 1)
PARLOOP(nonmonotonic_dynamic, 1)
PARLOOP(nonmonotonic_guided, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { parLoop(fn, d, nt, s, e, i, 1, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { parLoop(fn, d, nt, s, e, i, 1, 1, fl); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { parLoop(fn, d, nt, s, e, i, 1, 1, fl); }
unsigned GOMP_sections_next() {
    WS& w = ws(false);
    if (w.sect >= w.nsect) return 0;
    return ++w.sect;
}
unsigned GOMP_sections_start(unsigned n) {
    WS& w = ws(true);
    if (!w.init) w.init = true, w.nsect = n;
    return GOMP_sections_next();
}
void GOMP_sections_end() { doBarrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
    static struct { void (*fn)(void*); void* d; unsigned n; } tr;
    tr = {fn, d, n};
    GOMP_parallel([](void* v) {
        auto* t = (decltype(&tr)) v;
        WS& w   = ws(true);
        if (!w.init) w.init = true, w.nsect = t->n;
        t->fn(t->d);
    }, &tr, nt, 0);
}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    if (cpy) {
        char* b = (char*) alloca(sz + al);
        char* a = (char*) (((uintptr_t) b + al - 1) & ~(uintptr_t) (al - 1));
        cpy(a, data);
        fn(a);
    } else
        fn(data);
}
} // extern C

// ------------------------------------------------------------------ memory access callbacks
static void badmem(const char* what, const void* a, size_t n, uintptr_t pc) {
    snprintf(S.badmem, sizeof S.badmem, "%s of %zu bytes at arena+0x%zx pc=0x%zx", what, n, (size_t) ((char*) a - ARENA), (size_t) (pc ? pc - exeBase() : 0));
    finish("badmem", 95);
}
static inline void heapCheck(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    size_t o = a - (uintptr_t) ARENA;
    if (o >= ASIZE) return;
    size_t g0 = o >> 4, g1 = (o + n - 1) >> 4;
    for (size_t g = g0; g <= g1; g++) {
        unsigned v    = SHAD[g];
        size_t endOff = (g == g1) ? ((o + n - 1) & 15) : 15;
        if (endOff >= v) badmem(w ? "write outside live memory" : "read outside live memory", (void*) a, n, pc);
    }
}
static inline __attribute__((always_inline)) void onAccess(void* p, size_t n, bool w, int lock) {
    if (!S.on || S.rt) return;
    uintptr_t pc = (uintptr_t) __builtin_return_address(0);
    uint64_t i   = ++S.accs;
    if (__builtin_expect(i == P.killacc, 0)) kill9();
    if (__builtin_expect(i > P.budget, 0)) finish("budget", 98);
    if (P.heap) heapCheck((uintptr_t) p, n, w, pc);
    if (S.par) {
        if (P.race) raceAccess((uintptr_t) p, n, w, lock ? lock : th[myTid].locks, pc);
        if (++S.racc >= S.nextPre) preempt();
    }
}
extern "C" {
#define RW(N)                                                                                                          \
    void __tsan_read##N(void* p) { onAccess(p, N, false, 0); }                                                         \
    void __tsan_write##N(void* p) { onAccess(p, N, true, 0); }                                                         \
    void __tsan_unaligned_read##N(void* p) { onAccess(p, N, false, 0); }                                               \
    void __tsan_unaligned_write##N(void* p) { onAccess(p, N, true, 0); }                                               \
    void __tsan_volatile_read##N(void* p) { onAccess(p, N, false, 0); }                                                \
    void __tsan_volatile_write##N(void* p) { onAccess(p, N, true, 0); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) {
    if (n) onAccess(p, n, false, 0);
}
void __tsan_write_range(void* p, size_t n) {
    if (n) onAccess(p, n, true, 0);
}
void __tsan_vptr_update(void** p, void*) { onAccess(p, 8, true, 0); }
void __tsan_vptr_read(void** p) { onAccess(p, 8, false, 0); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (S.on && !S.rt && n) {
        onAccess((void*) s, n, false, 0);
        onAccess(d, n, true, 0);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (S.on && !S.rt && n) {
        onAccess((void*) s, n, false, 0);
        onAccess(d, n, true, 0);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (S.on && !S.rt && n) onAccess(d, n, true, 0);
    return __real_memset(d, c, n);
}
#define LKA 255
#define ATOMICS(B, T)                                                                                                  \
    T __tsan_atomic##B##_load(const volatile T* a, int) { onAccess((void*) a, sizeof(T), false, LKA); return *a; }     \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); *a = v; }      \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { onAccess((void*) a, sizeof(T), true, LKA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { onAccess((void*) a, sizeof(T), true, LKA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { onAccess((void*) a, sizeof(T), true, LKA); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ result
static void writeFile(const char* path, const char* p, size_t n) {
    if (!path[0]) return;
    int fd = syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) return;
    rawWriteAll(fd, p, n);
    syscall(SYS_close, fd);
}
// what lies behind the blocks still in use
static void checkTails() {
    for (int part = 0; part < 2; part++) {
        size_t g = (part ? atop : 0) / 16, e = (part ? ASIZE : abump) / 16;
        for (; g + 1 < e; g++) {
            if (!SHAD[g] || SHAD[g + 1]) continue;
            char* t = ARENA + g * 16 + SHAD[g];
            for (int i = 0; i < 16; i++)
                if ((unsigned char) t[i] != 0xa5) badmem("write behind the end of a block", t, 0, 0);
        }
    }
}
static void finish(const char* kind, int code) {
    S.on = false;
    S.rt++;
    Buf b;
    b.fmt("{\"kind\":\"%s\",\"code\":%d,\"hash\":\"%016llx\",\"schash\":\"%016llx\",", kind, code, (ull) S.hash, (ull) S.schash);
    b.fmt("\"ops\":%llu,\"cops\":%llu,\"allocs\":%llu,\"clock\":%llu,\"accs\":%llu,\"written\":%lld,\"inreads\":%llu,", (ull) S.ops, (ull) S.cops,
          (ull) S.allocs, (ull) S.clockReads, (ull) S.accs, (long long) S.written, (ull) S.inreads);
    b.fmt("\"regions\":%llu,\"switches\":%llu,\"preempts\":%llu,\"maxteam\":%llu,\"nraces\":%llu,", (ull) S.regionsPar, (ull) S.switches,
          (ull) S.preempts, (ull) S.maxTeam, (ull) S.nraces);
    b.fmt("\"simns\":%.0f,\"clockjumps\":%llu,\"clockback\":%llu,\"memfilled\":%llu,", S.simulatedNs, (ull) S.clockJumps, (ull) S.clockBack, (ull) S.memFilled);
    b.fmt("\"escapes\":%d,\"escape\":", S.escapes);
    b.jstr(S.escape);
    b.str(",\"badmem\":");
    b.jstr(S.badmem);
    b.str(",\"fired\":{");
    for (int i = 1; i < 10; i++) b.fmt("\"%s\":%llu,", KN[i], (ull) S.fired[i]);
    b.fmt("\"quota\":%llu,\"rshort\":%llu,\"reintr\":%llu,\"alloc\":%llu,\"heaplimit\":%llu,\"fdlimit\":%llu},", (ull) S.firedQuota, (ull) S.firedShort, (ull) S.firedEintr, (ull) S.firedAlloc,
          (ull) firedHeap, (ull) firedFd);
    b.fmt("\"livebytes\":%llu,\"peakbytes\":%llu,\"peakblocks\":%llu,\"openfds\":%d,\"peakfds\":%d,", (ull) liveBytes, (ull) peakBytes, (ull) peakBlocks, openFds, peakFds);
    b.str("\"cnt\":{");
    for (int i = 0; i < C_N; i++) b.fmt("%s\"%s\":%llu", i ? "," : "", CN[i], (ull) S.cnt[i]);
    b.fmt("},\"stuck\":\"%s\",\"races\":[", stuckMsg);
    if (S.races)
        for (size_t i = 0; i < S.races->size(); i++) {
            Race& r = (*S.races)[i];
            b.fmt("%s[%d,%d,%d,%d,%llu,%llu,%u]", i ? "," : "", r.a, r.b, r.aw, r.bw, (ull) r.pca, (ull) r.pcb, r.region);
        }
    b.str("]");
    if (P.log && S.oplog) {
        b.str(",\"paths\":[");
        for (size_t i = 0; i < S.pathv->size(); i++) {
            if (i) b.str(",");
            b.jstr((*S.pathv)[i]);
        }
        b.str("],\"oplog\":[");
        for (size_t i = 0; i < S.oplog->size(); i++) {
            OpRec& r = (*S.oplog)[i];
            b.fmt("%s[\"%s\",%d,%lld,%lld]", i ? "," : "", CN[r.cls], r.path, (long long) r.len, (long long) r.ret);
        }
        b.str("],\"sites\":[");
        bool c = false;
        for (auto& s : sites)
            if (s.count) {
                b.fmt("%s[%llu,%llu,%llu,%llu,%llu,%llu]", c ? "," : "", (ull) s.count, (ull) s.first, (ull) s.last, (ull) s.pick[0], (ull) s.pick[1], (ull) s.pick[2]);
                c = true;
            }
        b.str("]");
    }
    if (P.slog && S.dlog) {
        b.str(",\"sched\":[");
        for (size_t i = 0; i < S.dlog->size(); i++)
            b.fmt("%s[%u,%llu,%d]", i ? "," : "", (*S.dlog)[i].region, (ull) (*S.dlog)[i].acc, (*S.dlog)[i].tid);
        b.str("]");
    }
    b.str("}\n");
    writeFile(P.conout, S.conout.p, S.conout.n);
    writeFile(P.conerr, S.conerr.p, S.conerr.n);
    writeFile(P.result, b.p, b.n);
    gateEnd();
    syscall(SYS_exit_group, code & 0xff);
    __builtin_unreachable();
}
static void onExit(int code, void*) {
    if (!S.on) return;
    fflush(stdout);
    fflush(stderr);
    checkTails();
    finish("exit", code & 0xff);
}
static void onSignal(int sig) {
    if (!S.on) syscall(SYS_exit_group, 128 + sig);
    const char* k = sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : sig == SIGALRM ? "wallclock" : sig == SIGPROF ? "hang" : sig == SIGPIPE ? "pipe" : "ill";
    if (sig == SIGALRM) { // for whoever looks into it
        int n = snprintf(stuckMsg, sizeof stuckMsg, "rt %d par %d cur %d atid %d tid %d nath %d region %u acc %llu:", S.rt, (int) S.par, S.cur, atid, myTid, nath, S.region,
                         (unsigned long long) S.racc);
        for (int i = 0; i < S.nthr && n < (int) sizeof stuckMsg - 32; i++) n += snprintf(stuckMsg + n, sizeof stuckMsg - n, " %d", th[i].state);
    }
    finish(k, 128 + sig);
}

// ------------------------------------------------------------------ plan
static void cpy(char* d, const char* s, size_t n) { snprintf(d, n, "%s", s); }
static bool parsePlan(const char* file) {
    FILE* f = fopen(file, "r");
    if (!f) return false;
    char* line = nullptr;
    size_t cap = 0;
    ssize_t k;
    while ((k = getline(&line, &cap, f)) > 0) {
        while (k > 0 && (line[k - 1] == '\n' || line[k - 1] == '\r')) line[--k] = 0;
        char* v = strchr(line, ' ');
        if (!v) continue;
        *v++ = 0;
        std::string key = line;
        long long a = 0, b = 0, c = 0;
        char w[64];
        if (key == "seed") P.seed = strtoull(v, 0, 10);
        else if (key == "cwd") cpy(P.cwd, v, sizeof P.cwd);
        else if (key == "root") cpy(P.root, v, sizeof P.root);
        else if (key == "result") cpy(P.result, v, sizeof P.result);
        else if (key == "conout") cpy(P.conout, v, sizeof P.conout);
        else if (key == "conerr") cpy(P.conerr, v, sizeof P.conerr);
        else if (key == "raw") cpy(P.raw, v, sizeof P.raw);
        else if (key == "arg") P.args.push_back(v);
        else if (key == "env") putenv(strdup(v));
        else if (key == "stdin") { // hex
            for (size_t i = 0; v[i] && v[i + 1]; i += 2) {
                char h[3] = {v[i], v[i + 1], 0};
                P.in.push_back((char) strtol(h, 0, 16));
            }
        } else if (key == "inchunk") P.inchunks.push_back(atoi(v));
        else if (key == "inerr") P.inerr = atoi(v);
        else if (key == "fault" || key == "cfault") {
            if (sscanf(v, "%lld %63s %lld", &a, w, &b) == 3) {
                int kind = K_NONE;
                for (int i = 0; i < 10; i++)
                    if (!strcmp(w, KN[i])) kind = i;
                (key == "fault" ? P.faults : P.cfaults).push_back({(uint64_t) a, kind, b, false});
            }
        } else if (key == "quota") sscanf(v, "%lld %lld", &a, &b), P.quota = a, P.quotaRelease = strchr(v, ' ') ? b : -1;
        else if (key == "shortio") sscanf(v, "%d %d %d", &P.shortP, &P.eintrP, &P.shortMax);
        else if (key == "afault") sscanf(v, "%lld %lld", &a, &b), P.afrom = a, P.acount = b;
        else if (key == "cstream") P.cstream = atoi(v);
        else if (key == "memfill") P.memfill = atoi(v);
        else if (key == "place") P.place = atoi(v);
        else if (key == "clock") P.clock = atoi(v);
        else if (key == "clockbase") P.clockBase = atoll(v);
        else if (key == "threads") P.threads = atoi(v);
        else if (key == "teamvary") P.teamVary = atoi(v);
        else if (key == "smode") P.smode = atoi(v);
        else if (key == "sp") P.sp = atof(v);
        else if (key == "sd") P.sd = atoi(v);
        else if (key == "smean") P.smean = atof(v);
        else if (key == "sw") {
            if (sscanf(v, "%lld %lld %lld", &a, &b, &c) == 3) P.list.push_back({(uint32_t) a, (uint64_t) b, (int) c});
        } else if (key == "log") P.log = atoi(v);
        else if (key == "slog") P.slog = atoi(v);
        else if (key == "tty") P.tty = atoi(v);
        else if (key == "race") P.race = atoi(v);
        else if (key == "heap") P.heap = atoi(v);
        else if (key == "budget") P.budget = strtoull(v, 0, 10);
        else if (key == "opbudget") P.opbudget = strtoull(v, 0, 10);
        else if (key == "killacc") P.killacc = strtoull(v, 0, 10);
        else if (key == "heaplimit") P.heapLimit = strtoull(v, 0, 10);
        else if (key == "blocklimit") P.blockLimit = strtoull(v, 0, 10);
        else if (key == "fdlimit") P.fdLimit = atoi(v);
        else if (key == "gatereq") cpy(P.gateReq, v, sizeof P.gateReq);
        else if (key == "gatego") cpy(P.gateGo, v, sizeof P.gateGo);
        else if (key == "cpu") P.cpu = atoi(v);
        else if (key == "alarm") P.alarmS = atoi(v);
        else if (key == "hang") P.hangS = atoi(v);
        else return false;
    }
    free(line);
    fclose(f);
    return true;
}

static __attribute__((noinline)) void paintStack() {
    size_t n         = 512 * 1024;
    volatile char* p = (volatile char*) alloca(n);
    fillMem((char*) p, n);
    asm volatile("" ::"r"(p) : "memory");
}
static InBuf* cbIn;

static void child(const char* plan) {
    if (!parsePlan(plan)) {
        fprintf(stderr, "simulator: bad plan %s\n", plan);
        _exit(97);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl = {4ull << 30, 4ull << 30};
    setrlimit(RLIMIT_FSIZE, &rl);
    if (chdir(P.cwd) != 0) _exit(97);
    int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    int raw = open(P.raw[0] ? P.raw : "/dev/null", O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(raw, 1);
    dup2(raw, 2);
    close(raw);
    close(nul);
    if (P.cpu >= 0) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(P.cpu, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    umask(022);
    if (P.gateReq[0]) { // far above the descriptors the program gets to see
        int a = open(P.gateReq, O_RDWR), b = open(P.gateGo, O_RDWR);
        gateReqFd = fcntl(a, F_DUPFD_CLOEXEC, 900);
        gateGoFd  = fcntl(b, F_DUPFD_CLOEXEC, 900);
        close(a);
        close(b);
        if (gateReqFd < 0 || gateGoFd < 0) _exit(97);
    }
    S.io  = Rng(P.seed * 4 + 1);
    S.ck  = Rng(P.seed * 4 + 2);
    S.sc  = Rng(P.seed * 4 + 3);
    S.mem = Rng(P.seed * 4 + 4);
    S.ap  = Rng(P.seed * 4 + 0x5eed0001ull);
    aMode = (int) S.ap.below(3);
    S.realNs = P.clockBase;
    S.monoNs = 1000000000ll;
    S.pathv  = new std::vector<const char*>();
    S.oplog  = new std::vector<OpRec>();
    S.dlog   = new std::vector<Dec>();
    S.pctpts = new std::vector<uint64_t>();
    S.races  = new std::vector<Race>();
    exeBase();
    sem_init(&th[0].sem, 0, 0);
    arenaInit();
    FILE* so = fopencookie(nullptr, "w", {nullptr, conWrite, nullptr, nullptr});
    FILE* se = fopencookie((void*) 1, "w", {nullptr, conWrite, nullptr, nullptr});
    FILE* si = fopencookie(nullptr, "r", {inRead, nullptr, nullptr, nullptr});
    setvbuf(so, nullptr, P.tty ? _IOLBF : _IOFBF, 4096);
    setvbuf(se, nullptr, _IONBF, 0);
    stdout = so;
    stderr = se;
    stdin  = si;
    cbOut  = new ConBuf(so);
    cbErr  = new ConBuf(se);
    cbIn   = new InBuf(si);
    std::cout.rdbuf(cbOut);
    std::cerr.rdbuf(cbErr);
    std::clog.rdbuf(cbErr);
    std::cin.rdbuf(cbIn);
    on_exit(onExit, nullptr);
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_handler       = onSignal;
    sa.sa_flags         = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    alarm(P.alarmS);
    struct itimerval itv = {{0, 0}, {P.hangS, 0}};
    setitimer(ITIMER_PROF, &itv, nullptr);
    std::vector<char*> av;
    for (auto& a : P.args) av.push_back(strdup(a.c_str()));
    av.push_back(nullptr);
    paintStack();
    S.on  = true;
    int r = app_main((int) P.args.size(), av.data());
    exit(r);
}

// main is never reached with the seams on: S.on is set only in the child
int main(int argc, char** argv) {
    if (!(argc > 1 && !strcmp(argv[1], "--noreexec"))) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            char* na[] = {argv[0], (char*) "--noreexec", nullptr};
            syscall(SYS_execve, "/proc/self/exe", na, environ);
        }
    }
    // resolve everything that is resolved lazily before forking
    REAL(fopen64);
    REAL(fileno);
    REAL(fclose);
    char line[1024];
    while (fgets(line, sizeof line, stdin)) {
        size_t k = strlen(line);
        while (k && (line[k - 1] == '\n')) line[--k] = 0;
        if (!k) continue;
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            child(line);
            _exit(97);
        }
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        printf("status %d\n", st);
        fflush(stdout);
    }
    return 0;
}
