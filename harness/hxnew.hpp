// Which allocations does the library make itself?  operator new counts those
// made while library code runs (Lib) that do not come from an allocator or an
// operator new given by the user (User).
#ifndef HXNEW_HPP
#define HXNEW_HPP
#include <cstdlib>
#include <new>

namespace hxnew
{
inline thread_local bool lib = false;
inline thread_local long un = 0;
template<bool b> struct Mode
{
  bool old;
  Mode() : old(lib) { lib = b; }
  ~Mode() { lib = old; }
};
typedef Mode<true> Lib;
typedef Mode<false> User;
}

void * operator new(std::size_t n)
{
  if (hxnew::lib) ++hxnew::un;
  if (void * p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
#endif
