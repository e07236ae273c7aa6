// memory functions: what they touch is recorded (compiled without builtins)
#include <cstddef>
#include <cstdint>
namespace th { bool in_thread(); void touch(void* p, size_t n, bool w, void* pc); }
#define PC __builtin_return_address(0)
extern "C" {
static inline void cp(void* d, void const* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* d, void const* s, size_t n)
{
    if (n && th::in_thread()) { th::touch((void*)s, n, false, PC); th::touch(d, n, true, PC); }
    cp(d, s, n);
    return d;
}
void* memmove(void* d, void const* s, size_t n)
{
    if (n && th::in_thread()) { th::touch((void*)s, n, false, PC); th::touch(d, n, true, PC); }
    if ((uintptr_t)d - (uintptr_t)s >= n) cp(d, s, n);
    else for (size_t i = n; i--; ) ((unsigned char*)d)[i] = ((unsigned char const*)s)[i];
    return d;
}
void* memset(void* d, int c, size_t n)
{
    if (n && th::in_thread()) th::touch(d, n, true, PC);
    void* q = d;
    asm volatile("rep stosb" : "+D"(q), "+c"(n) : "a"(c) : "memory");
    return d;
}
int memcmp(void const* a, void const* b, size_t n)
{
    if (n && th::in_thread()) { th::touch((void*)a, n, false, PC); th::touch((void*)b, n, false, PC); }
    unsigned char const* x = (unsigned char const*)a; unsigned char const* y = (unsigned char const*)b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
}
