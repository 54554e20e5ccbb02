// Stand-in for umpire::Allocator: contract of an allocator, on top of operator new[] (sizes and lifetimes are checked by the verifier)
#pragma once
#include <cstddef>
#include <new>
namespace umpire {
struct Allocator {
  // ghost state: the last region handed out, and the first ones when they are recorded
  static inline char* last = nullptr;
  static inline std::size_t last_size = 0;
  static inline bool record = false;
  static inline int count = 0;
  static inline char* all[16] = {};
  static inline std::size_t sizes[16] = {};
  void* allocate(std::size_t n) {
    last = static_cast<char*>(::operator new[](n, std::align_val_t(64)));
    last_size = n;
    if (record && count < 16) {
      all[count] = last;
      sizes[count++] = n;
    }
    return last;
  }
  void deallocate(void* p) { if (p) ::operator delete[](p, std::align_val_t(64)); }
};
}
