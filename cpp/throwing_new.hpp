// AddressSanitizer's operator new ends the process when an allocation is too large; the standard one throws.
// This one throws, and still gives its memory the sanitizer's redzones (malloc).
#pragma once
#include <cstdlib>
#include <new>
void * operator new(std::size_t n) { void * p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void * operator new[](std::size_t n) { void * p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
void operator delete[](void * p, std::size_t) noexcept { std::free(p); }
