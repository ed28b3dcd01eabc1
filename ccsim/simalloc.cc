// Allocation under the simulator (left out where the sanitizer brings its own).
#include <cstddef>
#include <new>
void* sim_new(size_t, bool);
void sim_delete(void*);
void* operator new(size_t s) { return sim_new(s, false); }
void* operator new[](size_t s) { return sim_new(s, false); }
void* operator new(size_t s, const std::nothrow_t&) noexcept { return sim_new(s, true); }
void* operator new[](size_t s, const std::nothrow_t&) noexcept { return sim_new(s, true); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
