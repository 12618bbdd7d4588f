// the few C library functions that reach the executor as calls
#include <cstddef>
#include <cstdint>
extern "C" {
void* bsearch(const void* key, const void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  size_t lo = 0, hi = n;
  while (lo < hi) { size_t mid = lo + (hi - lo) / 2; const char* p = (const char*)base + mid * sz; int c = cmp(key, p); if (c < 0) hi = mid; else if (c > 0) lo = mid + 1; else return (void*)p; }
  return nullptr;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* p = (char*)base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = p[j * sz + k]; p[j * sz + k] = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = t; }
}
int* wmemcpy_(int* d, const int* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
}
