// Checked heap: objects allocated with operator new while a simulation runs come from an arena that never reuses memory
// within the run; every instrumented access to the arena must lie inside of a live object.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>

namespace sim::rt::heap {
constexpr uintptr_t BASE = 0x600000000000ull;
constexpr size_t SIZE = 512ull << 20, BIG = 1 << 20, BIG_TOTAL = SIZE - (64ull << 20);
constexpr unsigned char FREED = 0xfd;
inline unsigned char* shadow = nullptr; // per 16 bytes: number of valid bytes, FREED, or 0
inline uintptr_t top = BASE;
struct Head { uint64_t size; uint32_t magic; uint32_t thread; };
constexpr uint32_t LIVE = 0x11feb10c, GONE = 0xdeadb10c;

inline bool in(const void* p) { return (uintptr_t)p - BASE < SIZE; }
inline void setup()
{
    void* a = mmap((void*)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap(nullptr, SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a != (void*)BASE || s == MAP_FAILED) abort();
    shadow = (unsigned char*)s;
}
inline void* get(size_t n, size_t align)
{
    if (!shadow || n > BIG) return nullptr;
    if (align < 16) align = 16;
    uintptr_t p = (top + sizeof(Head) + align - 1) & ~(uintptr_t)(align - 1);
    size_t rounded = (n + 15) & ~(size_t)15;
    if (p + rounded + 16 > BASE + SIZE) return nullptr;
    top = p + rounded; // the head of the next object is the red zone of this one
    *(Head*)(p - sizeof(Head)) = Head{n, LIVE, 0};
    unsigned char* s = shadow + (p - BASE) / 16;
    memset(s, 16, rounded / 16);
    if (n & 15) s[n / 16] = n & 15;
    memset((void*)p, 0xa5, n < 256 ? n : 256);
    return (void*)p;
}
void bad_free(void* p, bool twice);
inline void put(void* p, uint32_t thread)
{
    Head* h = (Head*)p - 1;
    if (((uintptr_t)p & 15) || h->magic != LIVE) { bad_free(p, h->magic == GONE); return; }
    h->magic = GONE;
    h->thread = thread;
    memset(shadow + ((uintptr_t)p - BASE) / 16, FREED, (h->size + 15) / 16);
    memset(p, 0xdd, h->size);
}
void bad_access(uintptr_t a, size_t n, bool write);
inline void check(const void* p, size_t n, bool write)
{
    uintptr_t o = (uintptr_t)p - BASE;
    if (__builtin_expect(o >= SIZE, 1)) return;
    uintptr_t l = o + n - 1;
    unsigned char a = shadow[o / 16], b = shadow[l / 16];
    if (__builtin_expect(a <= 16 && (o & 15) < a && b <= 16 && (l & 15) < b, 1)) return;
    bad_access((uintptr_t)p, n, write);
}
} // namespace sim::rt::heap
