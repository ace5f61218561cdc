// A copy of a byte string that ends (up to `slack` bytes) at an inaccessible page and is read-only, so that any
// read past it or write to it faults, in every build.
#ifndef VERIF_GUARD_HPP
#define VERIF_GUARD_HPP
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <cstddef>
struct Guard {
	unsigned char* base; size_t len; unsigned char* p;
	Guard(const void* src, size_t n, bool ro = true) {
		const size_t pg = 4096; size_t body = (n + 64 + pg - 1) / pg * pg; len = body + pg;
		base = (unsigned char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (base == MAP_FAILED) abort();
		p = base + body - n;               // ends exactly at the page, so its alignment is that of n
		memset(base, 0xEE, body); if (n) memcpy(p, src, n);
		if (ro) mprotect(base, body, PROT_READ);
		mprotect(base + body, pg, PROT_NONE);
	}
	~Guard() { munmap(base, len); }
	Guard(const Guard&) = delete;
};
#endif
