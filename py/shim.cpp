// Preloaded before the interpreter: decides which C++ allocations of the module fail.
#include <cstdint>
#include <cstdlib>
#include <new>

namespace {
bool armed = false;
int kind = 0;  // 0 none, 1 one, 2 burst, 3 every one from there on, 4 every large one from there on
int64_t at = 0, len = 0, size = 0, count = 0, fired = 0, live = 0;

void *get(std::size_t n, std::size_t align) {
  if (armed) {
    const int64_t i = count++;
    bool fail = false;
    switch (kind) {
      case 1: fail = i == at; break;
      case 2: fail = i >= at && i < at + len; break;
      case 3: fail = i >= at; break;
      case 4: fail = i >= at && (int64_t)n >= size; break;
    }
    if (fail) {
      ++fired;
      return nullptr;
    }
  }
  if (n == 0) n = 1;
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n);
  if (p) ++live;
  return p;
}
void put(void *p) {
  if (p) --live;
  free(p);
}
void *get_or_throw(std::size_t n, std::size_t align) {
  void *p = get(n, align);
  if (!p) throw std::bad_alloc();
  return p;
}
}  // namespace

extern "C" {
void shim_arm(int k, int64_t a, int64_t l, int64_t s) {
  kind = k, at = a, len = l, size = s, count = 0, fired = 0, armed = true;
}
int64_t shim_disarm() {
  armed = false;
  return count;
}
int64_t shim_fired() { return fired; }
int64_t shim_live() { return live; }
}

void *operator new(std::size_t n) { return get_or_throw(n, 0); }
void *operator new[](std::size_t n) { return get_or_throw(n, 0); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n, 0); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n, 0); }
void *operator new(std::size_t n, std::align_val_t a) { return get_or_throw(n, (std::size_t)a); }
void *operator new[](std::size_t n, std::align_val_t a) { return get_or_throw(n, (std::size_t)a); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
