// Small containers for the harness itself.  Neither libstdc++ nor the library
// under test may be used by the oracles, so these are self contained.
// Elements must be trivially copyable.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>

extern "C" {
void* hx_alloc(size_t n);            // never the simulated allocator
void* hx_realloc(void* p, size_t n);
void hx_free(void* p);
}

template <typename T> class Vec {
    T* _p; size_t _n, _cap;
public:
    Vec() : _p(0), _n(0), _cap(0) {}
    Vec(const Vec& v) : _p(0), _n(0), _cap(0) { *this = v; }
    ~Vec() { hx_free(_p); }
    Vec& operator=(const Vec& v) { if (&v != this) { setn(v._n); if (_n) memcpy((void*)_p, v._p, _n*sizeof(T)); } return *this; }
    void setn(size_t n) { if (n > _cap) { _cap = n < 8 ? 8 : n + n/2; _p = (T*)hx_realloc((void*)_p, _cap*sizeof(T)); } _n = n; }
    void resize(size_t n) { size_t o = _n; setn(n); if (n > o) memset((void*)(_p+o), 0, (n-o)*sizeof(T)); }
    void clear() { _n = 0; }
    bool empty() const { return !_n; }
    size_t size() const { return _n; }
    T& operator[](size_t i) { return _p[i]; }
    const T& operator[](size_t i) const { return _p[i]; }
    T* data() { return _p; }
    const T* data() const { return _p; }
    T& back() { return _p[_n-1]; }
    const T& back() const { return _p[_n-1]; }
    T* begin() { return _p; }
    T* end() { return _p+_n; }
    const T* begin() const { return _p; }
    const T* end() const { return _p+_n; }
    void push(const T& v) { T c = v; setn(_n+1); _p[_n-1] = c; }
    void append(const T* p, size_t n) { size_t o = _n; setn(o+n); if (n) memmove((void*)(_p+o), p, n*sizeof(T)); }
    void insert(size_t i, const T& v) { T c = v; setn(_n+1); memmove((void*)(_p+i+1), _p+i, (_n-1-i)*sizeof(T)); _p[i] = c; }
    void insert_n(size_t i, size_t n, const T& v) { T c = v; for (size_t k = 0; k < n; ++k) insert(i, c); }
    void erase(size_t i, size_t n = 1) { memmove((void*)(_p+i), _p+i+n, (_n-i-n)*sizeof(T)); _n -= n; }
    void pop() { --_n; }
    bool operator==(const Vec& v) const { return _n == v._n && !memcmp(_p, v._p, _n*sizeof(T)); }
    bool operator!=(const Vec& v) const { return !(*this == v); }
    void swap(Vec& v) { T* p = _p; _p = v._p; v._p = p; size_t t = _n; _n = v._n; v._n = t; t = _cap; _cap = v._cap; v._cap = t; }
};
typedef Vec<uint8_t> Bytes;

template <typename T> inline T hmin(T a, T b) { return a < b ? a : b; }
template <typename T> inline T hmax(T a, T b) { return a > b ? a : b; }
