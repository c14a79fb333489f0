// Native runtime of the contract language: replays counterexamples and searches for failing inputs
// against the real code (ASan/UBSan build, real standard library).
#include "hvc.hpp"

#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

extern "C" {
struct hvc_root {
    const char* name;
    void (*fn)();
};
extern const hvc_root hvc_roots[];
}

namespace {
struct Shared {
    volatile std::uint64_t seed;
    volatile int failed;
    char id[400];
    volatile std::uint64_t trials;
    volatile std::uint64_t accepted;
};
Shared* sh = nullptr;
jmp_buf jb;
bool replayNamed = false;
bool inTrial = false;
bool quietMode = false;

// plain malloc based containers only: operator new is instrumented
struct Rng {
    std::uint64_t s;
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
};
Rng rng{1};
std::uint64_t pool[4096];
int npool = 0;
std::uint64_t dict[8192];
int ndict = 0;

struct Named {
    char* name;
    std::uint64_t value;
    int used;
};
Named* named = nullptr;
int nnamed = 0;

struct Blk {
    void* p;
    std::size_t n;
    int kind;  // 1 heap (operator new), 2 lent, 3 ghost
    bool live;
};
Blk* blks = nullptr;
int nblks = 0, cblks = 0;
bool tracking = false;

void addBlk(void* p, std::size_t n, int kind)
{
    // an address can be reused after free: drop stale dead records for it
    for (int i = 0; i < nblks; ++i) {
        if (blks[i].p == p && !blks[i].live) {
            blks[i] = {p, n, kind, true};
            return;
        }
    }
    if (nblks == cblks) {
        cblks = cblks ? cblks * 2 : 256;
        blks = static_cast<Blk*>(realloc(blks, cblks * sizeof(Blk)));
    }
    blks[nblks++] = {p, n, kind, true};
}
Blk* findBlk(const void* p)
{
    for (int i = nblks - 1; i >= 0; --i) {
        if (blks[i].live && p >= blks[i].p && static_cast<const char*>(p) <= static_cast<char*>(blks[i].p) + blks[i].n) {
            return &blks[i];
        }
    }
    return nullptr;
}
[[noreturn]] void abandon()
{
    longjmp(jb, 1);
}
[[noreturn]] void fail(const char* id)
{
    if (!inTrial) {
        fprintf(stderr, "failure outside a trial: %s\n", id);
        _exit(3);
    }
    inTrial = false;
    tracking = false;
    sh->failed = 1;
    snprintf(sh->id, sizeof sh->id, "%s", id);
    if (!quietMode) {
        fprintf(stderr, "FAILED: %s\n", id);
    }
    longjmp(jb, 2);
}
std::uint64_t gen(int bits, const char* name)
{
    std::uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    std::uint64_t v;
    switch (rng.next() % 16) {
        case 0:
        case 1:
        case 2:
            v = rng.next() % 4;
            break;
        case 3:
        case 4:
            v = rng.next() % 16;
            break;
        case 5:
            v = rng.next() % 200;
            break;
        case 6:
            v = m - rng.next() % 3;
            break;
        case 7:
            v = (m >> 1) + rng.next() % 3;
            break;
        case 8:
        case 9:
        case 10:
            v = npool ? pool[rng.next() % npool] + (rng.next() % 3) - 1 : rng.next();
            break;
        case 11:
            v = npool ? pool[rng.next() % npool] : rng.next() % 70;
            break;
        case 12:
            v = ndict ? dict[rng.next() % ndict] : rng.next();
            break;
        case 13:
            v = ndict ? dict[rng.next() % ndict] + (rng.next() % 3) - 1 : 1ULL << (rng.next() % 64);
            break;
        case 14:
            v = 1ULL << (rng.next() % 64);
            break;
        default:
            v = rng.next();
    }
    return v & m;
}
}  // namespace

void* operator new(std::size_t n)
{
    if (tracking && n > (1ULL << 30)) {
        if (n > (1ULL << 47)) {
            throw std::bad_alloc();
        }
        abandon();
    }
    void* p = malloc(n ? n : 1);
    if (tracking) {
        addBlk(p, n, 1);
    }
    return p;
}
void* operator new[](std::size_t n)
{
    return operator new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return operator new(n);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return operator new(n);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    operator delete(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    operator delete(p);
}
void operator delete(void* p) noexcept
{
    if (p == nullptr) {
        return;
    }
    if (tracking) {
        for (int i = nblks - 1; i >= 0; --i) {
            if (blks[i].p == p) {
                if (blks[i].kind == 2) {
                    fail("freeing storage that is not owned heap memory");
                }
                if (!blks[i].live) {
                    fail("double free");
                }
                blks[i].live = false;
                break;
            }
        }
    }
    free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    operator delete(p);
}
void operator delete[](void* p) noexcept
{
    operator delete(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    operator delete(p);
}

extern "C" {
bool hvc_symbolic()
{
    return false;
}
std::uint64_t hvc_any(const char* name, int bits)
{
    std::uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    if (replayNamed) {
        for (int i = 0; i < nnamed; ++i) {
            if (!named[i].used && strcmp(named[i].name, name) == 0) {
                named[i].used = 1;
                return named[i].value & m;
            }
        }
        return 0;
    }
    auto v = gen(bits, name);
    if (npool < 4096) {
        pool[npool++] = v;
    }
    if (getenv("HVC_TRACE") != nullptr) {
        fprintf(stderr, "  input %s = %lld (0x%llx)\n", name, (long long)v, (unsigned long long)v);
    }
    return v;
}
void hvc_assume(bool c)
{
    if (!c) {
        abandon();
    }
}
void hvc_assert(bool c, const char* id)
{
    if (!c) {
        fail(id);
    }
}
void hvc_cover(const char*) {}
int hvc_replaying()
{
    return replayNamed ? 1 : 0;
}
std::uint64_t hvc_uf(const char* name, std::uint64_t a, std::uint64_t b)
{
    // some function of its arguments, a different one in every trial
    std::uint64_t h = sh->seed * 0x9E3779B97F4A7C15ULL + a * 0xBF58476D1CE4E5B9ULL + b * 0x94D049BB133111EBULL;
    for (; *name != 0; ++name) {
        h = (h ^ static_cast<unsigned char>(*name)) * 1099511628211ULL;
    }
    h ^= h >> 29;
    h *= 0x94D049BB133111EBULL;
    return h ^ (h >> 32);
}
void hvc_note(const char*) {}
void hvc_infeasible() {}
int hvc_concrete(std::uint64_t)
{
    return 1;
}
void hvc_forall_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t), void* ctx, const char* id)
{
    for (; lo < hi; ++lo) {
        if (!fn(ctx, lo)) {
            fail(id);
        }
    }
}
void hvc_forall2_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t, std::uint64_t), void* ctx, const char* id)
{
    for (auto i = lo; i < hi; ++i) {
        for (auto j = lo; j < hi; ++j) {
            if (!fn(ctx, i, j)) {
                fail(id);
            }
        }
    }
}
void hvc_assume_forall_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t), void* ctx)
{
    for (; lo < hi; ++lo) {
        if (!fn(ctx, lo)) {
            abandon();
        }
    }
}
void hvc_assume_forall2_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t, std::uint64_t), void* ctx)
{
    for (auto i = lo; i < hi; ++i) {
        for (auto j = lo; j < hi; ++j) {
            if (!fn(ctx, i, j)) {
                abandon();
            }
        }
    }
}
std::uint64_t hvc_first_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t), void* ctx)
{
    for (; lo < hi; ++lo) {
        if (fn(ctx, lo)) {
            return lo;
        }
    }
    return hi;
}
static void fillArray(unsigned char* p, std::uint64_t stride, std::uint64_t n, const char* name)
{
    if (replayNamed) {
        memset(p, 0, stride * n);
        auto ln = strlen(name);
        char done[64] = {0};
        (void)done;
        for (int i = 0; i < nnamed; ++i) {
            if (!named[i].used && strncmp(named[i].name, name, ln) == 0 && named[i].name[ln] == '[') {
                unsigned long long idx = 0, f = 0, w = 0;
                if (sscanf(named[i].name + ln, "[%llu].%llu.%llu", &idx, &f, &w) == 3 && idx < n && f + w <= stride && w <= 8) {
                    memcpy(p + idx * stride + f, &named[i].value, w);
                }
            } else if (!named[i].used && strncmp(named[i].name, name, ln) == 0 && named[i].name[ln] == '.') {
                unsigned long long f = 0, w = 0;
                if (sscanf(named[i].name + ln, ".%llu.%llu", &f, &w) == 2 && f + w <= stride * n && w <= 8) {
                    memcpy(p + f, &named[i].value, w);
                }
            }
        }
        return;
    }
    auto mode = rng.next() % 3;
    for (std::uint64_t i = 0; i < n * stride; ++i) {
        p[i] = mode == 0 ? (unsigned char)rng.next() : mode == 1 ? (unsigned char)(rng.next() % 3) : (unsigned char)gen(8, name);
    }
}
static void* arr(const char* name, std::uint64_t stride, std::uint64_t n, std::uint64_t cap, int kind)
{
    if (cap > (1ULL << 28) || cap * stride > (1ULL << 28)) {
        abandon();
    }
    auto* p = static_cast<unsigned char*>(malloc(stride * cap ? stride * cap : 1));
    addBlk(p, stride * cap, kind);
    fillArray(p, stride, n, name);
    return p;
}
void* hvc_array(const char* name, std::uint64_t stride, std::uint64_t n, std::uint64_t cap)
{
    return arr(name, stride, n, cap, 1);
}
void* hvc_lend(const char* name, std::uint64_t stride, std::uint64_t n, std::uint64_t cap)
{
    return arr(name, stride, n, cap, 2);
}
void* hvc_ghost(std::uint64_t n)
{
    if (n > (1ULL << 28)) {
        abandon();
    }
    void* p = malloc(n ? n : 1);
    addBlk(p, n, 3);
    return p;
}
void hvc_havoc(void* p, std::uint64_t n, const char* name)
{
    fillArray(static_cast<unsigned char*>(p), 1, n, name);
}
int hvc_live(const void* p)
{
    if (p == nullptr) {
        return 0;
    }
    return findBlk(p) != nullptr ? 1 : 0;
}
int hvc_same_object(const void* p, const void* q)
{
    return findBlk(p) == findBlk(q) ? 1 : 0;
}
int hvc_heap_live_except(const void* p, const void* q)
{
    int n = 0;
    for (int i = 0; i < nblks; ++i) {
        auto& b = blks[i];
        if (b.live && b.kind == 1) {
            auto in = [&](const void* x) { return x != nullptr && x >= b.p && static_cast<const char*>(x) <= static_cast<char*>(b.p) + b.n; };
            if (!in(p) && !in(q)) {
                ++n;
            }
        }
    }
    return n;
}
std::uint64_t hvc_room(const void* p)
{
    auto* b = findBlk(p);
    if (b == nullptr) {
        return ~0ULL;
    }
    return static_cast<char*>(b->p) + b->n - static_cast<const char*>(p);
}
}

static void resetBlks()
{
    tracking = false;
    for (int i = 0; i < nblks; ++i) {
        if (blks[i].live) {
            free(blks[i].p);
        }
    }
    nblks = 0;
}

static int trial(void (*fn)())
{
    npool = 0;
    for (int i = 0; i < nnamed; ++i) {
        named[i].used = 0;
    }
    int r = setjmp(jb);
    if (r == 0) {
        inTrial = true;
        tracking = true;
        try {
            fn();
        }
        catch (const std::exception& e) {
            tracking = false;
            fail((std::string("uncaught exception ") + e.what()).c_str());
        }
        catch (...) {
            fail("uncaught exception");
        }
        inTrial = false;
        resetBlks();
        return 0;
    }
    inTrial = false;
    resetBlks();
    return r;
}

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_segv=1:detect_stack_use_after_return=0:malloc_context_size=4";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:print_stacktrace=0";
}

int main(int argc, char** argv)
{
    // native replay ROOT FILE | native search ROOT SECONDS SEED OUTFILE [dict ints...]
    if (argc < 4) {
        return 2;
    }
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    void (*fn)() = nullptr;
    for (const auto* r = hvc_roots; r->name != nullptr; ++r) {
        if (strcmp(r->name, argv[2]) == 0) {
            fn = r->fn;
        }
    }
    if (fn == nullptr) {
        return 2;
    }
    if (strcmp(argv[1], "replay") == 0) {
        FILE* f = fopen(argv[3], "r");
        if (f == nullptr) {
            return 2;
        }
        static char line[4096];
        named = static_cast<Named*>(malloc(sizeof(Named) * 200000));
        bool seeded = false;
        while (fgets(line, sizeof line, f) != nullptr) {
            if (line[0] == ';') {
                continue;
            }
            char* eq = strrchr(line, '=');
            if (eq == nullptr) {
                continue;
            }
            *eq = 0;
            auto v = strtoull(eq + 1, nullptr, 0);
            if (strcmp(line, "@seed") == 0) {
                rng.s = v;
                seeded = true;
                continue;
            }
            if (strcmp(line, "@dict") == 0) {
                if (ndict < 8192) {
                    dict[ndict++] = v;
                }
                continue;
            }
            if (nnamed < 200000) {
                named[nnamed++] = {strdup(line), v, 0};
            }
        }
        fclose(f);
        replayNamed = !seeded;
        int r = trial(fn);
        if (r == 2) {
            printf("REPRODUCED %s\n", sh->id);
            return 1;
        }
        printf(r == 1 ? "assumption not met\n" : "holds\n");
        return 0;
    }
    if (strcmp(argv[1], "search") == 0) {
        double secs = atof(argv[3]);
        std::uint64_t seed0 = strtoull(argv[4], nullptr, 0);
        const char* out = argv[5];
        std::uint64_t maxTrials = strtoull(argv[6], nullptr, 0);
        for (int i = 7; i < argc && ndict < 8192; ++i) {
            dict[ndict++] = strtoull(argv[i], nullptr, 0);
        }
        quietMode = true;
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            timespec t0;
            clock_gettime(CLOCK_MONOTONIC, &t0);
            alarm(static_cast<unsigned>(secs) + 20);
            for (std::uint64_t i = 0;; ++i) {
                if ((i & 15) == 0) {
                    timespec t;
                    clock_gettime(CLOCK_MONOTONIC, &t);
                    if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs || i >= maxTrials) {
                        break;
                    }
                }
                rng.s = seed0 * 0x2545F4914F6CDD1DULL + i * 0x9E3779B97F4A7C15ULL + 12345;
                sh->seed = rng.s;
                int r = trial(fn);
                sh->trials = i + 1;
                if (r == 0) {
                    sh->accepted = sh->accepted + 1;
                }
                if (r == 2) {
                    _exit(1);
                }
            }
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        bool bad = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) {
            snprintf(sh->id, sizeof sh->id, "a call does not return");
        } else if (bad && !sh->failed) {
            snprintf(sh->id, sizeof sh->id, "crash or sanitizer report");
        }
        printf("trials %llu accepted %llu\n", (unsigned long long)sh->trials, (unsigned long long)sh->accepted);
        if (bad) {
            FILE* f = fopen(out, "w");
            if (f != nullptr) {
                fprintf(f, "; harness %s: %s\n@seed=0x%llx\n", argv[2], sh->id, (unsigned long long)sh->seed);
                for (int i = 0; i < ndict; ++i) {
                    fprintf(f, "@dict=%llu\n", (unsigned long long)dict[i]);
                }
                fclose(f);
            }
            printf("FOUND %s\n", sh->id);
            return 1;
        }
        return 0;
    }
    return 2;
}
