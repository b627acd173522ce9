// Fills memory when it is allocated and when it is released, so that what is
// read before it was written or after it was destroyed is the same garbage in
// every execution (the sanitized builds find out by themselves).
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

namespace {

constexpr std::size_t most = 4096;

void* alloc(std::size_t n)
{
    while (true) {
        if (void* p = std::malloc(n ? n : 1)) {
            std::memset(p, 0xc7, n < most ? n : most);
            return p;
        }
        if (auto h = std::get_new_handler())
            h();
        else
            throw std::bad_alloc{};
    }
}
void dealloc(void* p) noexcept
{
    if (!p)
        return;
    std::size_t n = malloc_usable_size(p);
    std::memset(p, 0xd9, n < most ? n : most);
    // the compiler must not drop what nobody may read
    asm volatile("" : : "r"(p) : "memory");
    std::free(p);
}

} // namespace

void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, std::size_t) noexcept { dealloc(p); }
void operator delete[](void* p, std::size_t) noexcept { dealloc(p); }
