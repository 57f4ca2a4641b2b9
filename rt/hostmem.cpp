// The allocator of the process itself: harness, models, runtime and libraries.
// (The code under test allocates from the arena in runtime.cpp.)
//
// Every simulated execution starts with this allocator in the same state,
// whatever its parent process did before, so that neither the paths that the
// allocator takes nor what they leave on a thread's stack -- which the
// conservative collector reads -- depend on anything but the execution.
#include "rt.h"

#include <cerrno>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

namespace {
struct Hdr
{
    void* raw;
    uint32_t cls, magic;
    size_t size;
    size_t pad;
};
static_assert(sizeof(Hdr) == 32, "");
const uint32_t MAGIC = 0x486f7374;
const uintptr_t H0   = 0x300000000000ull;
const size_t HSZ     = 64ull << 30; // address space, not memory
char* cur;
char* end;
void* bins[160];
int generation;

void region()
{
    void* p = mmap((void*) (H0 + generation * HSZ), HSZ, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1,
                   0);
    if (p == MAP_FAILED)
        _exit(4);
    cur = (char*) p;
    end = cur + HSZ;
}
inline uint32_t size_class(size_t n, size_t& sz)
{
    if (n <= 1024) {
        uint32_t c = (n + 15) >> 4;
        c += !c;
        sz = (size_t) c << 4;
        return c;
    }
    uint32_t l = 64 - __builtin_clzll(n - 1); // 2^l >= n
    sz         = (size_t) 1 << l;
    return 65 + l;
}
void* get(size_t n, size_t al = 16)
{
    if (!cur)
        region();
    if (n > HSZ / 4) {
        errno = ENOMEM;
        return nullptr;
    }
    size_t sz;
    uint32_t c = size_class(n + sizeof(Hdr) + (al > 16 ? al : 0), sz);
    char* raw  = (char*) bins[c];
    if (raw)
        memcpy(&bins[c], raw, sizeof(void*));
    else {
        if (cur + sz > end) {
            errno = ENOMEM;
            return nullptr;
        }
        raw = cur;
        cur += sz;
    }
    char* p = raw + sizeof(Hdr);
    if (al > 16)
        p = (char*) (((uintptr_t) p + al - 1) & ~(uintptr_t) (al - 1));
    Hdr* h  = (Hdr*) p - 1;
    h->raw  = raw;
    h->cls  = c;
    h->magic = MAGIC;
    h->size = n;
    return p;
}
inline bool ours(void* p)
{
    uintptr_t lo = H0 + generation * HSZ;
    return (uintptr_t) p >= lo && (uintptr_t) p < lo + HSZ;
}
} // namespace

namespace sim {
void hostmem_fresh()
{
    ++generation;
    memset(bins, 0, sizeof bins);
    region();
}
} // namespace sim

extern "C" {
#define X __attribute__((visibility("default")))
X void* malloc(size_t n) { return get(n); }
X void free(void* p)
{
    if (!p || !ours(p))
        return; // of an earlier generation: it stays as it is
    Hdr* h = (Hdr*) p - 1;
    if (h->magic != MAGIC)
        __builtin_trap();
    h->magic = 0;
    char* raw = (char*) h->raw;
    uint32_t c = h->cls;
    memcpy(raw, &bins[c], sizeof(void*));
    bins[c] = raw;
}
X void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = get(n);
    return p ? memset(p, 0, n) : p;
}
X void* realloc(void* p, size_t n)
{
    if (!p)
        return get(n);
    size_t o = ((Hdr*) p - 1)->size;
    void* q  = get(n);
    if (q) {
        memcpy(q, p, o < n ? o : n);
        free(p);
    }
    return q;
}
X void* memalign(size_t al, size_t n) { return get(n, al); }
X void* aligned_alloc(size_t al, size_t n) { return get(n, al); }
X int posix_memalign(void** out, size_t al, size_t n)
{
    void* p = get(n, al);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
X void* valloc(size_t n) { return get(n, 4096); }
X void* pvalloc(size_t n) { return get((n + 4095) & ~(size_t) 4095, 4096); }
X size_t malloc_usable_size(void* p)
{
    return p ? ((Hdr*) p - 1)->size : 0;
}
}
