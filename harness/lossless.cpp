// C18: the lossless layer, driven directly.
#include "codecs.hpp"
#include "guard.hpp"
#ifdef VERIF_STUB   // the driver's last resort for the other properties when this file does not build
void p_c18(Ctx&) {}
#else
#include "sz_lossless.hpp"
using namespace std;

void p_c18(Ctx& c) {
	Rng& g = c.rng;
	size_t n = g.p(0.03) ? 0 : g.p(0.3) ? g.i(1, 300) : g.p(0.4) ? g.i(1, 20000) : g.p(0.5) ? g.i(65000, 66000) : g.i(1, c.tier == "quick" ? 400000 : 3000000);
	const bool huge = !c.san && c.id >= 1000 && c.id < 1007; if (huge) { n = (size_t)g.i(68000000, 72000000); c.c("streams_over_64MB"); }
	int kind = huge ? (int)(c.id - 1000) : (int)g.i(0, 6), level = g.p(0.5) || huge ? 3 : (int)g.i(-5, n > 100000 ? 9 : 22);
	vector<unsigned char> d(n);
	for (size_t k = 0; k < n; k++) switch (kind) {
		case 0: d[k] = (unsigned char)g.next(); break;
		case 1: d[k] = 7; break;
		case 2: d[k] = (unsigned char)(k % 251); break;
		case 3: d[k] = (unsigned char)(g.p(0.9) ? 0 : g.next()); break;
		case 4: d[k] = (unsigned char)(k < n / 2 ? g.next() : d[k - n / 2]); break;
		case 5: d[k] = (unsigned char)(sin(k * 0.01) * 120); break;
		default: d[k] = (unsigned char)(g.next() & 1); break;
	}
	static const unsigned char MAGIC[4] = {0x28, 0xb5, 0x2f, 0xfd};
	bool looks = n >= 4 && !memcmp(d.data(), MAGIC, 4);
	c.d("lossless n=%zu kind=%d level=%d", n, kind, level);
	vector<unsigned char> copy = d; unsigned char* z = nullptr; unsigned char* o = nullptr;
	mark_lib(true); unsigned long zs = sz_lossless_compress(ZSTD_COMPRESSOR, level, d.data(), n, &z); mark_lib(false);
	if (d != copy) { c.fail("input modified"); return; }
	if (zs > n + n / 100 + 64) { c.fail("compressed size %lu for %zu bytes", zs, n); return; }
	Guard gb(z, zs); free(z);
	mark_lib(true);
	int kd = is_lossless_compressed_data((unsigned char*)gb.p, zs);
	unsigned long os = sz_lossless_decompress(ZSTD_COMPRESSOR, (unsigned char*)gb.p, zs, &o, n);
	mark_lib(false);
	if (kd != ZSTD_COMPRESSOR) c.fail("compressed data not recognised (%d)", kd);
	if (os != n) c.fail("decompressed size %lu, expected %zu", os, n);
	else if (n && memcmp(o, d.data(), n)) c.fail("decompressed bytes differ");
	free(o); o = nullptr;
	if (n >= 4 && !looks && c.ok() && (d[0] & 0xf0) != 0x50) {
		mark_lib(true); kd = is_lossless_compressed_data(d.data(), n); mark_lib(false);
		if (kd == ZSTD_COMPRESSOR) c.fail("plain bytes recognised as compressed"); c.c("plain_recognised");
	}
	if (c.ok()) {
		const size_t m = min<size_t>(n, 65536);
		mark_lib(true); os = sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR, (unsigned char*)gb.p, zs, &o); mark_lib(false);
		if (os != 65536) c.fail("head decompressor returned %lu", os);
		else for (size_t k = 0; k < m; k++) if (o[k] != d[k]) { c.fail("head decompressor: byte %zu of %zu differs", k, m); break; }
		free(o); c.c("heads_decoded"); if (n > 65536) c.c("heads_of_longer_streams");
	}
	c.c("lossless_streams"); c.c("bytes", n); c.nontrivial = n > 0; c.mix(gb.p, zs);
}
#endif
