// Once built, objects run without touching the heap.
#define NEO_LIB_CALL
#include <cstddef>
#include <cstdlib>
#include <new>
static thread_local int watching  = 0;
static thread_local long obtained = 0;
static thread_local long returned = 0;
#if defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define ASAN_HOOKS 1
    #endif
#endif
#ifdef ASAN_HOOKS
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(void const volatile*, std::size_t), void (*)(void const volatile*));
static void on_malloc(void const volatile*, std::size_t) { obtained += watching; }
static void on_free(void const volatile* p) { returned += p != nullptr ? watching : 0; }
static int const hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#else
void* operator new(std::size_t n)
{
    obtained += watching;
    if (void* p = std::malloc(n == 0 ? 1 : n)) { return p; }
    throw std::bad_alloc{};
}
void* operator new(std::size_t n, std::align_val_t a)
{
    obtained += watching;
    auto const al = static_cast<std::size_t>(a);
    if (void* p = std::aligned_alloc(al, (n + al) / al * al)) { return p; }
    throw std::bad_alloc{};
}
void operator delete(void* p) noexcept
{
    returned += p != nullptr ? watching : 0;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
static int const hooked = 1;
#endif
template<typename Fn>
void lib(Fn fn)
{
    watching = 1;
    fn();
    watching = 0;
}
#include "objects.hpp"
namespace {
void quiet(Src& s)
{
    // the instrument works: an allocation is seen
    PBT_REQUIRE(hooked != 0, "no allocation hooks");
    obtained = returned = 0;
    static int* volatile sink = nullptr;
    lib([] {
        sink = new int[3];
        delete[] sink;
    });
    PBT_REQUIRE(obtained == 1 && returned == 1, "the allocation hooks saw %ld/%ld of one allocation", obtained, returned);
    auto const kind = s.below(std::size(kinds));
    auto m          = kinds[kind].make(s.below(1 << 20));
    auto const n    = s.size(1, 12);
    s.note(fmt("%s, %zu steps", kinds[kind].name, n));
    s.label(kinds[kind].name);
    s.nontrivial(n >= 2);
    for (std::size_t i = 0; i < n; ++i) {
        obtained = returned = 0;
        auto const seed     = s.below(1 << 20);
        m->step(seed);
        PBT_REQUIRE(obtained == 0 && returned == 0, "%s, step %zu: %ld allocations and %ld deallocations", kinds[kind].name, i, obtained, returned);
        if (s.chance(1, 10)) { m->relocate(); }
        if (s.chance(1, 10)) { m = m->clone(); }
    }
}
}  // namespace
PBT_CHECK_T(k1, "quiet", 4000, 60000, quiet)
