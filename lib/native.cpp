// native replay of one assignment of the inputs
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
static unsigned long long vals[65536]; static int nv = 0, pos = 0;
extern "C" {
uint64_t sym_input(const char* name, int bits) { if (pos >= nv) { printf("DIVERGED input %s\n", name); fflush(stdout); _exit(77); } uint64_t v = vals[pos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sym_assume(int c) { if (!c) { printf("DIVERGED assume\n"); fflush(stdout); _exit(78); } }
void sym_assert(int c, const char* m) { if (!c) { printf("ASSERT %s\n", m); fflush(stdout); _exit(1); } }
void sym_assert_eq(int a, int b, const char* m) { if (a != b) { printf("ASSERT %s: %d %d\n", m, a, b); fflush(stdout); _exit(1); } } void sym_raw(int) {}
void sym_reach(const char* t) { printf("REACH %s\n", t); }
void sym_observe(const char* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
uint64_t sym_conc(uint64_t v) { return v; }
int sym_engine() { return 0; }
int sym_memeq(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
void sym_end() { printf("DIVERGED end\n"); fflush(stdout); _exit(78); }
int sym_dirty() { return 1; } void sym_mark() {} void sym_direct(int) {}
static int req[2]; static pid_t server;
void sym_fresh_init() { fflush(stdout); if (pipe(req)) _exit(79); server = fork(); if (server < 0) _exit(79); if (server) { close(req[0]); return; } close(req[1]); alarm(20); void* m[2]; if (read(req[0], m, sizeof m) != sizeof m) _exit(0); ((void (*)(int*))m[0])((int*)m[1]); fflush(stdout); _exit(0); }
void sym_fresh_begin() {} void sym_fresh_end() {}
void sym_fresh_native(void (*fn)(int*), int* sh) { void* m[2] = {(void*)fn, sh}; if (write(req[1], m, sizeof m) != sizeof m) _exit(79); close(req[1]); int st = 0; if (waitpid(server, &st, 0) != server) _exit(79); if (WIFSIGNALED(st)) _exit(96); if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); }
void* sym_shared(size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
int sym_failing = 0; void sym_fail(int on) { sym_failing = on; }
int sym_plain() { return 0; }
void* sym_scratch(size_t n) { return mmap(0, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
int sym_writable(const void*) { return 1; }
void harness();
}
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r"); if (!f) return 76; unsigned long long v; while (nv < 65536 && fscanf(f, "%llu", &v) == 1) vals[nv++] = v; fclose(f);
  alarm(20); harness(); printf("END %d\n", nv - pos); fflush(stdout); _exit(0);
}
