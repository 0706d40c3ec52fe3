// Allocator that records every block with its size; wrong-size, double, foreign or missing releases are reported.
#ifndef VH_TRACK_HH
#define VH_TRACK_HH
#include <map>
#include <string>
#include <new>
#include <cstdlib>
namespace track {
inline std::map<void*, std::size_t>& live() { static std::map<void*, std::size_t> m; return m; }
inline std::string& error() { static std::string e; return e; }
inline long& count() { static long n = 0; return n; }
template<class T> struct Alloc {
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using propagate_on_container_move_assignment = std::true_type; using is_always_equal = std::true_type;
  template<class U> struct rebind { using other = Alloc<U>; };
  Alloc() {} template<class U> Alloc(const Alloc<U>&) {}
  T* allocate(std::size_t n) { void* p = ::operator new(n * sizeof(T)); live()[p] = n * sizeof(T); ++count(); return static_cast<T*>(p); }
  void deallocate(T* p, std::size_t n) {
    auto it = live().find(p);
    if (it == live().end()) { if (error().empty()) error() = p ? "release of unknown storage" : "release of a null block of size " + std::to_string(n * sizeof(T)); return; }
    if (it->second != n * sizeof(T) && error().empty()) error() = "storage of " + std::to_string(it->second) + " bytes released as " + std::to_string(n * sizeof(T));
    live().erase(it); ::operator delete(p);
  }
  bool operator==(const Alloc&) const { return true; } bool operator!=(const Alloc&) const { return false; }
};
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
inline std::size_t heapBytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
inline std::size_t heapBytes() { return 0; }
#endif
#endif
