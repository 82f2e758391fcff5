// operator new which fills fresh memory with a chosen byte: what a program computes must not depend on it
#ifndef FILLNEW_H
#define FILLNEW_H
#include <cstdlib>
#include <cstring>
#include <new>
static volatile int fillbyte=-1;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
void* operator new(size_t n) {
    void* p=malloc(n?n:1); if(!p) throw std::bad_alloc();
    if(fillbyte>=0) memset(p,fillbyte,n);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#pragma GCC diagnostic pop
#endif
