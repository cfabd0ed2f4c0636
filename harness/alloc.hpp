// Count the dynamic allocations of the program while g_track_alloc is on.
// Only in builds without a sanitizer: they have their own allocator.
#pragma once
#include "common.hpp"
#ifdef VF_ALLOC
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n){ if(vf::g_track_alloc) vf::g_allocs = vf::g_allocs + 1; return __libc_malloc(n); }
void* calloc(size_t a, size_t b){ if(vf::g_track_alloc) vf::g_allocs = vf::g_allocs + 1; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n){ if(vf::g_track_alloc) vf::g_allocs = vf::g_allocs + 1; return __libc_realloc(p, n); }
}
void* operator new(size_t n){ if(vf::g_track_alloc) vf::g_allocs = vf::g_allocs + 1; return __libc_malloc(n ? n : 1); }
void* operator new[](size_t n){ if(vf::g_track_alloc) vf::g_allocs = vf::g_allocs + 1; return __libc_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
