#include "stubs.inc"
#include "vp.h"
extern "C" { int vp_draws_on = 0; }
#include <cstdlib>
#include <new>
extern "C" int vp_run(void (*)(), int, char**);
extern "C" void __vp_memclr(void*, uint64_t);
// Fresh memory carries no symbolic value. What the program itself allocates comes
// from an arena of its own, so that addresses (and with them the order of
// containers keyed by pointers) depend on the path only, not on the solver.
#include <sys/mman.h>
extern char __executable_start, etext;
static char* const kBase = (char*)0x210000000000;
static const std::size_t kSize = 1UL << 32;
static char* cur_ = 0;
static void* free_[64 + 32];
static inline int cls(std::size_t n) {
  if (n <= 1024) return (n + 15) / 16;
  int c = 65;
  for (std::size_t k = 2048; k < n; k <<= 1) c++;
  return c;
}
static inline std::size_t clsize(int c) { return c <= 64 ? (c ? c : 1) * 16 : 2048UL << (c - 65); }
static inline bool mine(void* p) { return (char*)p >= kBase && (char*)p < kBase + kSize; }
static void* arena(std::size_t n) {
  if (!cur_) {
    if (mmap(kBase, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)kBase) abort();
    cur_ = kBase;
  }
  int c = cls(n + 16);
  void* p = free_[c];
  if (p) { free_[c] = *(void**)p; }
  else { p = cur_ + 16; cur_ += clsize(c); *(int*)((char*)p - 16) = c; if (cur_ > kBase + kSize) throw std::bad_alloc(); }
  return p;
}
static inline void release(void* p) {
  if (!p) return;
  if (!mine(p)) { free(p); return; }
  int c = *(int*)((char*)p - 16);
  *(void**)p = free_[c];
  free_[c] = p;
}
static inline void* get(std::size_t n, void* ra) {
  void* p = (ra >= (void*)&__executable_start && ra < (void*)&etext) ? arena(n) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  __vp_memclr(p, n);
  return p;
}
__attribute__((noinline)) void* operator new(std::size_t n) { return get(n, __builtin_return_address(0)); }
__attribute__((noinline)) void* operator new[](std::size_t n) { return get(n, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
extern "C" void* __start_vp_fns[]; extern "C" void* __stop_vp_fns[];
extern "C" void __vp_register(void**, void**);
int main(int argc, char** argv) { __vp_register(__start_vp_fns, __stop_vp_fns); return vp_run(vp_harness, argc, argv); }
