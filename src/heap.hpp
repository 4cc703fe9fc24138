// operator new that is counted, balanced and can be made to fail; single-threaded workloads only.
// Fault points are numbered while armed; the chosen one throws.
#ifndef VERIF_HEAP_HPP
#define VERIF_HEAP_HPP
#include "common.hpp"
#include <new>
namespace vf {
enum FaultKind { FK_ALLOC = 1, FK_COPY = 2, FK_GCOPY = 4, FK_COMPARE = 8, FK_SLOT = 16, FK_COMB = 32, FK_CCOPY = 64, FK_EQUAL = 128 };
struct Injected { int point; explicit Injected(int p) : point(p) {} };
struct Heap {
  long blocks, bytes, peak;
  unsigned armed;   // mask of kinds
  int count, fail_at;
  int fired;        // kind that fired
  long allocs;
};
inline Heap &heap() { static Heap h; return h; }
inline void fault_point(unsigned kind) {
  Heap &h = heap();
  if (!(h.armed & kind)) return;
  if (++h.count == h.fail_at) {
    h.fired = kind;
    h.armed = 0;
    if (kind == FK_ALLOC) throw std::bad_alloc();
    throw Injected(h.count);
  }
}
struct Disarm { // harness code inside a library operation
  unsigned old;
  Disarm() : old(heap().armed) { heap().armed = 0; }
  ~Disarm() { if (!heap().fired) heap().armed = old; }
};
struct BlockHead { size_t size; unsigned magic; unsigned pad; };
inline void *heap_alloc(size_t n) {
  Heap &h = heap();
  fault_point(FK_ALLOC);
  BlockHead *b = static_cast<BlockHead *>(malloc(n + sizeof(BlockHead)));
  if (!b) abort();
  b->size = n;
  b->magic = 0xA110C8ED;
  ++h.blocks;
  ++h.allocs;
  h.bytes += n;
  if (h.bytes > h.peak) h.peak = h.bytes;
  return b + 1;
}
inline void heap_free(void *p) {
  if (!p) return;
  BlockHead *b = static_cast<BlockHead *>(p) - 1;
  if (b->magic != 0xA110C8ED) fail(T(22), "operator delete of memory that operator new did not return");
  b->magic = 0xF4EED;
  Heap &h = heap();
  --h.blocks;
  h.bytes -= b->size;
  free(b);
}
} // namespace vf
void *operator new(std::size_t n) { return vf::heap_alloc(n); }
void *operator new[](std::size_t n) { return vf::heap_alloc(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return vf::heap_alloc(n); } catch (...) { return 0; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return vf::heap_alloc(n); } catch (...) { return 0; } }
void operator delete(void *p) noexcept { vf::heap_free(p); }
void operator delete[](void *p) noexcept { vf::heap_free(p); }
void operator delete(void *p, std::size_t) noexcept { vf::heap_free(p); }
void operator delete[](void *p, std::size_t) noexcept { vf::heap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vf::heap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vf::heap_free(p); }
#endif
