// Instrumented global allocation functions: live blocks and bytes, peak, size checks and
// injected failures. Include in exactly one translation unit.
#ifndef ALLOC_H_
#define ALLOC_H_

#include "pbt.h"
#include <stddef.h>
#include <cstdlib>
#include <new>

namespace al
{
using pbt::u64; using pbt::i64;
struct Header { u64 size; u64 magic; u64 align; u64 canary; };
constexpr u64 LIVE = 0xa110c8ed600df00dull, FREED = 0xdeadf8eedeadf8eeull, TAIL = 0x7a117a117a117a11ull;

inline i64 live_blocks = 0, live_bytes = 0, peak_bytes = 0;
inline u64 total_allocs = 0, total_bytes = 0, biggest = 0;
// failure injection, active between arm() and disarm()
enum Mode { none, kth, from_kth, above_size, below_size, random_subset };
inline bool armed = false;
inline Mode mode = none;
inline u64 param = 0, index = 0, rnd = 0;
inline u64 refused = 0;

inline void arm(Mode m, u64 p, u64 seed = 1) { mode = m; param = p; index = 0; rnd = seed; refused = 0; armed = true; }
inline void disarm() { armed = false; }
inline void start_peak() { peak_bytes = live_bytes; total_allocs = 0; total_bytes = 0; biggest = 0; }

inline bool refuse(u64 size)
{
    if (!armed) return false;
    u64 i = index++;
    bool r = false;
    switch (mode) {
        case none: break;
        case kth: r = i == param; break;
        case from_kth: r = i >= param; break;
        case above_size: r = size > param; break;
        case below_size: r = size <= param; break;
        case random_subset: r = (pbt::splitmix(rnd) & 1023) < param; break;
    }
    if (r) ++refused;
    return r;
}

inline void* get(std::size_t size, std::size_t align)
{
    if (refuse(size)) return nullptr;
    std::size_t extra = align > sizeof(Header) ? align : sizeof(Header);
    std::size_t total = size + extra + sizeof(u64);
    if (total < size) return nullptr;
    void* raw = align > alignof(max_align_t) ? ::aligned_alloc(align, (total + align - 1) / align * align) : std::malloc(total);
    if (!raw) return nullptr;
    char* p = static_cast<char*>(raw) + extra;
    Header h{size, LIVE, extra, 0};
    std::memcpy(p - sizeof(Header), &h, sizeof h);
    std::memcpy(p + size, &TAIL, sizeof TAIL);
    std::memset(p, 0xcd, size);
    ++live_blocks; live_bytes += (i64)size; ++total_allocs; total_bytes += size;
    if (size > biggest) biggest = size;
    if (live_bytes > peak_bytes) peak_bytes = live_bytes;
    return p;
}
inline void put(void* ptr, i64 size)
{
    if (!ptr) return;
    char* p = static_cast<char*>(ptr);
    Header h;
    std::memcpy(&h, p - sizeof(Header), sizeof h);
    if (pbt::shm) {
        if (h.magic == FREED) pbt::fail("memory block freed twice");
        if (h.magic != LIVE) pbt::fail("freed pointer does not come from an allocation, or the bytes before it were overwritten");
        u64 tail;
        std::memcpy(&tail, p + h.size, sizeof tail);
        if (tail != TAIL) pbt::fail("bytes after an allocated block of %llu bytes were overwritten", (unsigned long long)h.size);
        if (size >= 0 && (u64)size != h.size) pbt::fail("block of %llu bytes freed as a block of %lld bytes", (unsigned long long)h.size, (long long)size);
    }
    --live_blocks; live_bytes -= (i64)h.size;
    h.magic = FREED;
    std::memcpy(p - sizeof(Header), &h, sizeof h);
    std::memset(p, 0xdd, h.size);
    std::free(p - h.align);
}
}

void* operator new(std::size_t n) { if (void* p = al::get(n, 0)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = al::get(n, 0)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return al::get(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return al::get(n, 0); }
#ifdef __cpp_aligned_new
void* operator new(std::size_t n, std::align_val_t a) { if (void* p = al::get(n, (std::size_t)a)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = al::get(n, (std::size_t)a)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return al::get(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return al::get(n, (std::size_t)a); }
#endif
void operator delete(void* p) noexcept { al::put(p, -1); }
void operator delete[](void* p) noexcept { al::put(p, -1); }
void operator delete(void* p, std::size_t n) noexcept { al::put(p, (std::int64_t)n); }
void operator delete[](void* p, std::size_t n) noexcept { al::put(p, (std::int64_t)n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { al::put(p, -1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { al::put(p, -1); }
#ifdef __cpp_aligned_new
void operator delete(void* p, std::align_val_t) noexcept { al::put(p, -1); }
void operator delete[](void* p, std::align_val_t) noexcept { al::put(p, -1); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { al::put(p, (std::int64_t)n); }
void operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { al::put(p, (std::int64_t)n); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { al::put(p, -1); }
#endif

#endif
