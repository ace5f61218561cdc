// C17: the entropy coder and the packers, driven directly.
#include "codecs.hpp"
#ifdef VERIF_STUB   // the driver's last resort for the other properties when this file does not build
void p_c17(Ctx&) {}
#else
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "sz_cp_preserve_utils.hpp"
#include "sz3_utils.hpp"
#include "guard.hpp"
using namespace std;
extern bool g_slow;

static vector<int> gen_symbols(Ctx& c, size_t& states, size_t maxn) {
	Rng& g = c.rng;
	static const size_t S[] = {2, 3, 16, 64, 256, 512, 1024, 2048, 4096, 65536, 131072};
	states = g.p(0.7) ? S[g.i(0, 10)] : (size_t)g.i(2, 70000);
	size_t n = g.p(0.1) ? 1 : g.p(0.2) ? g.i(1, 20) : g.p(0.6) ? g.i(1, 4000) : g.i(1, maxn);
	int kind = (int)g.i(0, 10);
	if (kind == 7 && g.p(0.6)) { states = max<size_t>(states, 40000); n = max<size_t>(n, 80000); }
	if (!c.san && !g_slow && c.id >= 1000 && c.id < 1010) { n = (size_t)g.i(17000000, 18000000); kind = (int)(c.id - 1000) % 4; c.c("streams_over_2e24_symbols"); }   // with u_huffman: some of these ids
	vector<int> s(n);
	int A = (int)states;
	switch (kind) {
	case 0: { int x = (int)g.i(0, A - 1); c.d("single"); for (auto& v : s) v = x; break; }
	case 1: { c.d("uniform"); for (auto& v : s) v = (int)g.i(0, A - 1); break; }
	case 2: { double q = g.r(0.02, 0.98); c.d("geometric q=%.3f", q); int o = (int)g.i(0, A - 1); for (auto& v : s) { int k = 0; while (g.p(q) && k < A - 1) k++; v = (o + k) % A; } break; }
	case 3: { double w = g.logu(0.3, A); c.d("centred w=%.3g", w); for (auto& v : s) v = (int)min<double>(A - 1, max<double>(0, A / 2 + g.n() * w)); break; }
	case 4: { // Fibonacci frequencies: the deepest tree for its length
		c.d("fibonacci"); s.clear(); int K = (int)min<int64_t>(g.i(2, c.tier == "quick" ? 24 : 27), A); if (!c.san && !g_slow && A >= 64 && g.p(0.015)) K = (int)g.i(33, 35); /* codes longer than 32 bits */ long a = 1, b = 1; vector<int> id(K);
		int o = (int)g.i(0, A - K); bool down = g.p(0.5);
		for (int k = 0; k < K; k++) { id[k] = o + (down ? K - 1 - k : k); for (long q = 0; q < a; q++) s.push_back(id[k]); long t = a + b; a = b; b = t; }
		if (K > 30) c.c("codes_over_32_bits"); for (size_t k = s.size() - 1; k > 0 && K < 30; k--) swap(s[k], s[g.i(0, k)]);
		break; }
	case 5: { c.d("two"); int x = (int)g.i(0, A - 1), y = (int)g.i(0, A - 1); double q = g.u(); for (auto& v : s) v = g.p(q) ? x : y; break; }
	case 6: { c.d("boundary"); for (auto& v : s) v = g.p(0.3) ? A - 1 : g.p(0.5) ? 0 : (int)g.i(0, A - 1); break; }
	case 7: { c.d("alldistinct"); int o = (int)g.i(0, A - 1); for (size_t k = 0; k < s.size(); k++) s[k] = (int)((o + k) % A); if (g.p(0.5)) for (size_t k = s.size() - 1; k > 0; k--) swap(s[k], s[g.i(0, k)]); break; }
	case 8: { // node counts around the 256 and 65536 switches
		int d = g.p(0.8) ? (int)(128 + g.i(-3, 3)) : (int)(32768 + g.i(-3, 3)); d = min(d, A); c.d("distinct=%d", d); s.resize(max<size_t>(n, d)); for (size_t k = 0; k < s.size(); k++) s[k] = k < (size_t)d ? (int)k : (int)g.i(0, d - 1); break; }
	case 9: { // counts at the limits of narrow counters
		static const int N[] = {1, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 65537, 131072};
		int k = (int)min<int64_t>(g.i(1, 6), A), o = (int)g.i(0, A - k); s.clear(); c.d("counts");
		for (int q = 0; q < k; q++) { int m = N[g.i(0, g.p(0.5) ? 13 : 7)]; c.d("%d", m); s.insert(s.end(), m, o + q); }
		if (g.p(0.5)) for (size_t q = s.size() - 1; q > 0; q--) swap(s[q], s[g.i(0, q)]);
		break; }
	default: { c.d("runs"); int x = 0; for (auto& v : s) { if (g.p(0.05)) x = (int)g.i(0, A - 1); v = x; } break; }
	}
	c.d("states=%zu n=%zu", states, s.size());
	return s;
}

static size_t distinct(const vector<int>& s) { vector<int> t = s; sort(t.begin(), t.end()); return unique(t.begin(), t.end()) - t.begin(); }

#ifdef VERIF_NO_HUFFMAN
static void u_huffman(Ctx&) {}
#else
static void u_huffman(Ctx& c) {
	size_t st; vector<int> s = gen_symbols(c, st, c.san ? 20000 : 120000);
	size_t d = distinct(s);
	size_t lead = c.rng.i(0, 9);
	// room for the tree (at most 13 bytes a node) and for codes no longer than a plain binary code, and 8-byte stores
	size_t cap = lead + 64 + 13 * 2 * d + s.size() * 4 + 64;
	vector<unsigned char> buf(cap + 32, 0xA5);
	unsigned char* pos = buf.data() + lead;
	mark_lib(true); Huffman_encode_tree_and_data(st, s.data(), s.size(), pos); mark_lib(false);
	size_t len = pos - buf.data() - lead;
	if (len > cap - lead) { c.fail("encoder produced %zu bytes for %zu symbols (%zu distinct)", len, s.size(), d); return; }
	for (size_t k = 0; k < lead; k++) if (buf[k] != 0xA5) { c.fail("encoder wrote in front of its output"); return; }
	for (size_t k = cap; k < buf.size(); k++) if (buf[k] != 0xA5) { c.fail("encoder wrote past its output"); return; }
	// what follows in the stream
	static const unsigned char F[8] = {0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4};
	memcpy(pos, F, 8);
	Guard gb(buf.data() + lead, len + 8);
	const unsigned char* p = gb.p;
	mark_lib(true); int* o = Huffman_decode_tree_and_data(st, s.size(), p); mark_lib(false);
	if (p != gb.p + len) c.fail("decoder consumed %ld bytes of the %zu the encoder produced", (long)(p - gb.p), len);
	else for (size_t k = 0; k < s.size(); k++) if (o[k] != s[k]) { c.fail("symbol %zu decodes as %d instead of %d", k, o[k], s[k]); break; }
	if (c.ok() && memcmp(p, F, 8)) c.fail("bytes after the coded data changed");
	c.mix(gb.p, len); free(o);
	c.c("huffman_streams"); c.c("symbols", s.size()); c.c("distinct_symbols", d); c.mx("max_distinct", d); c.c(d * 2 - 1 <= 256 ? "trees_1byte_index" : d * 2 - 1 <= 65536 ? "trees_2byte_index" : "trees_4byte_index");
	c.nontrivial = d > 1;
}
#endif

#ifdef VERIF_NO_WITHTREE
static void u_withtree(Ctx&) {}
#else
static void u_withtree(Ctx& c) {
	size_t st; vector<int> s = gen_symbols(c, st, c.san ? 20000 : 100000);
	bool def = st <= 65536 && c.rng.p(0.3); if (def) st = 65536;
	mark_lib(true);
	HuffmanTree* a = def ? createDefaultHuffmanTree() : createHuffmanTree((int)st);
	unsigned char* z = nullptr; size_t zs = 0;
	encode_withTree(a, s.data(), s.size(), &z, &zs);
	unsigned maxlen = 0; for (size_t k = 0; k < st; k++) if (a->code[k]) maxlen = max<unsigned>(maxlen, a->cout[k]);
	SZ_ReleaseHuffman(a);
	mark_lib(false);
	Guard gb(z, zs);
	vector<int> o(s.size());
	mark_lib(true);
	HuffmanTree* b = def ? createDefaultHuffmanTree() : createHuffmanTree((int)st);
	decode_withTree(b, gb.p, s.size(), o.data());
	SZ_ReleaseHuffman(b);
	mark_lib(false);
	for (size_t k = 0; k < s.size(); k++) if (o[k] != s[k]) { c.fail("withTree: symbol %zu decodes as %d instead of %d (longest code %u)", k, o[k], s[k], maxlen); break; }
	c.mix(z, zs); free(z);
	c.c("withtree_streams"); c.c("symbols", s.size()); c.mx("longest_code_bits", maxlen); c.nontrivial = maxlen > 0;
	if (s.size() > 1 && maxlen > 64) c.c("codes_over_64_bits");
}
#endif

#ifdef VERIF_NO_FLAGS
static void u_flags(Ctx&) {}
#else
static void u_flags(Ctx& c) {
	Rng& g = c.rng; size_t n = g.p(0.4) ? g.i(1, 40) : g.p(0.97) ? g.i(1, 5000) : g.i(65500, 600000); double q = g.p(0.2) ? 0 : g.p(0.2) ? 1 : g.u();
	c.d("flags n=%zu density=%.2f", n, q);
	vector<unsigned char> f(n); for (auto& x : f) x = g.p(q);
	size_t bl = (n - 1) / 8 + 1;
	vector<unsigned char> b(bl + 16, 0xA5); unsigned char* p = b.data() + 8;
	mark_lib(true); convertIntArray2ByteArray_fast_1b_to_result_sz(f.data(), n, p); mark_lib(false);
	if (p != b.data() + 8 + bl) { c.fail("packer wrote %ld bytes for %zu flags", (long)(p - b.data() - 8), n); return; }
	for (int k = 0; k < 8; k++) if (b[k] != 0xA5 || b[8 + bl + k] != 0xA5) { c.fail("packer wrote outside its output"); return; }
	Guard gb(b.data() + 8, bl); const unsigned char* r = gb.p;
	mark_lib(true); unsigned char* o = convertByteArray2IntArray_fast_1b_sz(n, r, bl); mark_lib(false);
	if (r != gb.p + bl) c.fail("unpacker consumed %ld of %zu bytes", (long)(r - gb.p), bl);
	else for (size_t k = 0; k < n; k++) if (o[k] != f[k]) { c.fail("flag %zu of %zu unpacks as %d instead of %d", k, n, o[k], f[k]); break; }
	free(o); c.c("flag_arrays"); c.c("flags", n); c.nontrivial = n > 1; c.mix(gb.p, bl);
}
#endif

#ifdef VERIF_NO_REGRESSION
static void u_regression(Ctx&) {}
#else
static void u_regression(Ctx& c) {
	Rng& g = c.rng; bool d3 = g.p(0.5); const int C = d3 ? 4 : 3; size_t n = g.p(0.1) ? 0 : g.i(1, 600);
	int bs = (int)g.i(2, 16); double prec = g.logu(1e-8, 1e3);
	double step = g.logu(1e-6, 1e8) * prec;
	c.d("regression %dd n=%zu bs=%d precision=%.3g step=%.3g", d3 ? 3 : 2, n, bs, prec, step);
	// the encoder side works like the codecs: coefficients in sequence, each predicted by the previous block's
	float rel = (float)(RegErrThreshold * prec / C); double pr[4]; for (int k = 0; k < C - 1; k++) pr[k] = rel / bs; pr[C - 1] = rel;
	vector<float> par(C * (n + 1), 0), orig; vector<int> type(C * n + 1); vector<float> unp(C * n + 1); float* up = unp.data();
	double base = g.r(-5, 5) * step * 10;
	for (size_t k = 0; k < n; k++) for (int q = 0; q < C; q++) par[C * (k + 1) + q] = (float)(base + (g.p(0.05) ? g.r(-1, 1) * 1e6 * step : g.n() * step));
	orig = par;
	unsigned char* raw; size_t len;
	mark_lib(true);
	for (size_t k = 0; k < n; k++) {
		if (d3) compress_regression_coefficient_3d(pr, &par[C * (k + 1)], &type[C * k], up);
		else compress_regression_coefficient_2d(pr, &par[C * (k + 1)], &type[C * k], up);
	}
	mark_lib(false);
	size_t un = up - unp.data();
	vector<unsigned char> buf(64 + un * 4 + 64 + 26 * C * n + 4 * C * n + 64);
	raw = buf.data(); unsigned char* p = raw;
	mark_lib(true);
	if (d3) encode_regression_coefficients(type.data(), unp.data(), n, un, p); else encode_regression_coefficients_2d(type.data(), unp.data(), n, un, p);
	mark_lib(false);
	len = p - raw;
	Guard gb(raw, len); const unsigned char* r = gb.p;
	mark_lib(true); float* o = d3 ? decode_regression_coefficients(r, n, bs, prec) : decode_regression_coefficients_2d(r, n, bs, prec); mark_lib(false);
	if (r != gb.p + len) c.fail("coefficient decoder consumed %ld of %zu bytes", (long)(r - gb.p), len);
	for (size_t k = 0; k < C * n && c.ok(); k++) {
		float got = o[C + k];
		if (memcmp(&got, &par[C + k], 4)) c.fail("coefficient %zu: encoder keeps %.9g, decoder gets %.9g", k, par[C + k], got);
		else if (fabs((double)got - orig[C + k]) > pr[k % C] * (1 + 1e-6)) c.fail("coefficient %zu: %.9g became %.9g, bound %.3g", k, orig[C + k], got, pr[k % C]);
	}
	free(o); c.c("coefficient_streams"); c.c("coefficients", C * n); c.c("coefficients_verbatim", un); c.nontrivial = n > 0 && un < C * n; c.mix(gb.p, len);
}
#endif

#ifdef VERIF_NO_QUANTIZER
template <class T> static void u_quantizer(Ctx&) {}
#else
template <class T> static void u_quantizer(Ctx& c) {
	Rng& g = c.rng; int radius = g.p(0.4) ? 32768 : (int)g.i(2, 5000); size_t n = g.i(0, 1500); double e0 = g.logu(1e-10, 1e3);
	c.d("quantizer<%s> radius=%d n=%zu", TN<T>::n(), radius, n);
	c.c("quantized_values", 0); c.c("quantized_verbatim", 0);   // nothing of ours may be allocated inside the tracked region and stay
	mark_lib(true);
	{
		VariableEBLinearQuantizer<T, double> q(radius);
		vector<T> x(n), y(n), pd(n), dst(n); vector<double> eb(n); vector<int> id(n);
		int api = (int)g.i(0, 1);
		for (size_t k = 0; k < n; k++) {
			eb[k] = g.p(0.1) ? 0 : e0 * g.logu(1e-3, 1e3); pd[k] = (T)(g.n() * e0 * 100);
			x[k] = (T)(pd[k] + (g.p(0.05) ? g.n() * 1e12 * e0 : g.n() * e0 * (g.p(0.5) ? 3 : radius)));
			if (g.p(0.02)) x[k] = pd[k];
			y[k] = x[k];
			if (api) { id[k] = q.quantize_and_overwrite(x[k], pd[k], eb[k], dst[k]); y[k] = dst[k]; } else id[k] = q.quantize_and_overwrite(y[k], pd[k], eb[k]);
			int pure = q.quantize(x[k], pd[k], eb[k]);
			if (pure != id[k] ) c.fail("quantize and quantize_and_overwrite disagree: %d %d", pure, id[k]);
			if (id[k] < 0 || id[k] >= 2 * radius) c.fail("quantization code %d outside 0..%d", id[k], 2 * radius - 1);
			if (!(fabs((double)y[k] - (double)x[k]) <= eb[k] * (1 + 1e-6))) c.fail("quantized value %.9g is further than %.3g from %.9g", (double)y[k], eb[k], (double)x[k]);
		}
		vector<unsigned char> buf(n * sizeof(T) + 64, 0xA5); unsigned char* p = buf.data();
		q.save(p); size_t len = p - buf.data();
		if (len > buf.size() - 32) c.fail("save wrote %zu bytes", len);
		for (size_t k = len; k < buf.size(); k++) if (buf[k] != 0xA5) c.fail("save wrote past its end");
		VariableEBLinearQuantizer<T, double> r(7); const unsigned char* s = buf.data(); size_t rem = buf.size();
		r.load(s, rem);
		if (s != buf.data() + len) c.fail("load consumed %ld of %zu bytes", (long)(s - buf.data()), len);
		if (r.get_radius() != radius) c.fail("radius %d loads as %d", radius, r.get_radius());
		for (size_t k = 0; k < n && c.ok(); k++) { T v = r.recover(pd[k], id[k], eb[k]); if (memcmp(&v, &y[k], sizeof(T))) c.fail("value %zu recovers as %.9g instead of %.9g (code %d, bound %.3g)", k, (double)v, (double)y[k], id[k], eb[k]); }
		long ver = 0; for (int v : id) ver += v == 0;
		c.c("quantized_values", n); c.c("quantized_verbatim", ver); c.nontrivial = n > 0 && (size_t)ver < n; c.mix(buf.data(), len);
	}
	mark_lib(false);
}
#endif

#ifdef VERIF_NO_EBQ
static void u_ebq(Ctx&) {}
#else
static void u_ebq(Ctx& c) {
	Rng& g = c.rng; int base = g.p(0.5) ? 2 : g.p(0.5) ? 4 : (int)g.i(2, 16); double lb = log2(base), th = g.p(0.5) ? (double)numeric_limits<float>::epsilon() : g.p(0.5) ? numeric_limits<double>::epsilon() : g.logu(1e-20, 1e-2);
	c.d("bound quantizer base=%d threshold=%.3g", base, th);
	for (int k = 0; k < 400; k++) {
		double e = g.p(0.1) ? 0 : g.p(0.1) ? th * pow(base, (double)g.i(0, 20)) : th * g.logu(0.01, 1e12), q = e;
		mark_lib(true); int id = eb_exponential_quantize(q, base, lb, th); mark_lib(false);
		double dec = id == 0 ? 0 : pow(base, id) * th;   // what every decoder computes
		if (id < 0) c.fail("bound %.17g gets index %d", e, id);
		if (q != dec) c.fail("bound %.17g: encoder uses %.17g, index %d decodes to %.17g", e, q, id, dec);
		if (q > e * (1 + 1e-12)) c.fail("bound %.17g grew to %.17g", e, q);
		if (q > 0 && q * base < e * (1 - 1e-12)) c.fail("bound %.17g shrank to %.17g, more than a factor of %d", e, q, base);
		double l = e; mark_lib(true); int li = eb_linear_quantize(l, th); mark_lib(false);
		if (e / th < 1e9 && (l != li * th || l > e * (1 + 1e-12) || e - l > th * (1 + 1e-9))) c.fail("linear: bound %.17g quantizes to %.17g, index %d", e, l, li);
	}
	c.c("bounds_quantized", 400); c.nontrivial = true; c.sig ^= c.rng.next();
}
#endif

void p_c17(Ctx& c) {
	switch (c.id % 8) {
	case 0: case 1: case 2: u_huffman(c); break;
	case 3: u_withtree(c); break;
	case 4: u_flags(c); break;
	case 5: u_regression(c); break;
	case 6: if (c.id / 8 % 2) u_quantizer<float>(c); else u_quantizer<double>(c); break;
	default: u_ebq(c); break;
	}
}
#endif
