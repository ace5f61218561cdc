#include "alloc.hpp"
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(VERIF_NO_ALLOC)
void alloc_track(bool) {} void alloc_fill(int) {} AllocStat alloc_stat() { return {0, 0, 0}; } void alloc_reset() {} bool alloc_active() { return false; } long alloc_live_of(void*) { return -1; }
#else
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <malloc.h>
#include <pthread.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static __thread int tracking = 0;
static int fillp = -1;
// open-addressing table of live library blocks, doubled when half full
static size_t N = 0, used = 0;
static void** tab = nullptr; static size_t* len = nullptr;
static long blocks = 0, bytes = 0, total = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void* const TOMB = (void*)1;
static size_t h(void* p) { uint64_t x = (uint64_t)p * 0x9E3779B97F4A7C15ull; return (x >> 32) & (N - 1); }
static void put(void* p, size_t n) { size_t k = h(p); while (tab[k]) k = (k + 1) & (N - 1); tab[k] = p; len[k] = n; used++; }
static void grow() {
	void** t = tab; size_t* l = len; size_t o = N;
	if (!N || (size_t)blocks * 4 > N) N = N ? 2 * N : (size_t)1 << 16;   // otherwise only clear the tombstones out
	tab = (void**)__libc_calloc(N, sizeof(void*)); len = (size_t*)__libc_malloc(N * sizeof(size_t)); used = 0;
	for (size_t k = 0; k < o; k++) if (t[k] && t[k] != TOMB) put(t[k], l[k]);
	__libc_free(t); __libc_free(l);
}
static void add(void* p, size_t n) {
	if (!p) return;
	pthread_mutex_lock(&mu);
	if (used * 2 >= N) grow();
	put(p, n); blocks++; bytes += n; total++;
	pthread_mutex_unlock(&mu);
}
static void del(void* p) {
	if (!p) return;
	pthread_mutex_lock(&mu);
	if (blocks) for (size_t k = h(p); tab[k]; k = (k + 1) & (N - 1)) if (tab[k] == p) {
		blocks--; bytes -= len[k];
		if (tab[(k + 1) & (N - 1)]) tab[k] = TOMB; else { tab[k] = nullptr; used--; }
		break;
	}
	pthread_mutex_unlock(&mu);
}
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (tracking) { if (p && fillp >= 0) memset(p, fillp, n); add(p, n); } return p; }
void free(void* p) { if (p && blocks) del(p); if (p && tracking && fillp >= 0) memset(p, fillp ^ 0x5a, malloc_usable_size(p)); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (tracking) add(p, a * b); return p; }
void* realloc(void* q, size_t n) { if (q && blocks) del(q); void* p = __libc_realloc(q, n); if (tracking && n) add(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (tracking) add(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
void alloc_track(bool on) { tracking = on; }
void alloc_fill(int p) { fillp = p; }
AllocStat alloc_stat() { return {blocks, bytes, total}; }
void alloc_reset() { pthread_mutex_lock(&mu); if (N > ((size_t)1 << 16)) { __libc_free(tab); __libc_free(len); tab = nullptr; len = nullptr; N = 0; } if (tab) memset(tab, 0, N * sizeof *tab); used = 0; blocks = bytes = 0; pthread_mutex_unlock(&mu); }
bool alloc_active() { return true; }
long alloc_live_of(void* p) { if (N) for (size_t k = h(p); tab[k]; k = (k + 1) & (N - 1)) if (tab[k] == p) return (long)len[k]; return -1; }
#endif
