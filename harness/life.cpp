// C19 - C22, C24: properties of every codec call seen from outside: memory safety, self-contained blobs,
// determinism and independence, resources, size.
#include "codecs.hpp"
#include "alloc.hpp"
#include "guard.hpp"
#include "sz_lossless.hpp"
#include <unistd.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/wait.h>
#include <alloca.h>
using namespace std;

string g_child, g_self, g_scratch;      // set by main

static bool use_double(Ctx& c, K k) { return k_double(k) && c.rng.p(0.4); }
template <class T> static T extreme(Rng& g) {
	typedef numeric_limits<T> L;
	switch (g.i(0, 7)) { case 0: return L::max(); case 1: return -L::max(); case 2: return L::denorm_min(); case 3: return -L::min(); case 4: return 0; case 5: return (T)-0.0; case 6: return L::max() / 2; default: return (T)(g.n() * 1e3); }
}
template <class T> static void make_hostile(Ctx& c, K k, Prob<T>& p) {
	Rng& g = c.rng;
	if (g.p(0.25)) { double q = g.logu(1e-3, 1); c.d("+extremes(%.3g)", q); for (auto& v : p.c) for (auto& x : v) if (g.p(q)) x = extreme<T>(g); }
	else if (g.p(0.15)) { int e = (int)g.i(-1100, 1100); c.d("+ldexp(%d)", e); for (auto& v : p.c) for (auto& x : v) { T y = ldexp(x, e); x = isfinite(y) ? y : copysign(numeric_limits<T>::max(), x); } }
	static const double E[] = {1e-300, 4.9e-324, 1e-45, 1e-30, 1e30, 1e300, 0.999999, 1e-8};
	if (g.p(0.15)) { double e = E[g.i(0, 7)]; if (!k_abs(k) && e >= 1) e = 0.999; p.eb = e; for (auto& q : p.ebs) if (g.p(0.5)) q = e; c.d("+eb=%.3g", e); }
	if (k == K3_UNSTRUCT && g.p(0.1)) for (auto& x : p.pts) x = extreme<T>(g);
}

template <class T> static Prob<T> tiny_or_usual(Ctx& c, K k, size_t maxn) { return gen_problem<T>(c, k, c.rng.p(0.3) ? 40 : maxn, false); }

// ---------------------------------------------------------------- C19
extern bool g_slow;   // running under valgrind
template <class T> static void safety(Ctx& c, K k) {
	Prob<T> p = tiny_or_usual<T>(c, k, g_slow ? 120 : k_is3(k) ? 2500 : 2000);
	make_hostile(c, k, p);
	size_t sz; vector<double> side;
	unsigned char* z = do_compress(k, p, sz, side);
	if (!z) { c.fail("compressor returned no output"); return; }
	c.c("blobs"); c.c("values_in", p.n() * p.c.size()); c.c("blob_bytes", sz);
	bool back = k_decodes(k);
	if (back) { vector<vector<T> > o; do_decompress(k, z, p, side, o); for (auto& v : o) { if (v.size() != out_len(k, p)) c.fail("no decompressed array"); c.c("values_out", v.size()); } }
	c.sig ^= (uint64_t)sz * 1000003 + p.n() * 31 + k; c.nontrivial = p.n() > 1;
	free(z);
	c.c((string("codec_") + KN[k]).c_str());
}
void p_c17(Ctx&); void p_c18(Ctx&);
void p_c19(Ctx& c) {
	if (c.id % 20 == 19) { if (c.rng.p(0.8)) p_c17(c); else p_c18(c); c.c("unit_cases"); return; }
	K k = (K)(c.id % 20 % K_COUNT);
	if (use_double(c, k)) safety<double>(c, k); else safety<float>(c, k);
}

// ---------------------------------------------------------------- C20
template <class T> static uint64_t hash_prob(const Prob<T>& p, const vector<double>& side) {
	Ctx h; for (auto& v : p.c) h.mix(v.data(), v.size() * sizeof(T)); h.mix(p.ebs.data(), p.ebs.size() * 8); h.mix(p.tets.data(), p.tets.size() * 4); h.mix(p.pts.data(), p.pts.size() * sizeof(T)); h.mix(side.data(), side.size() * 8);
	return h.sig;
}
template <class T> static bool same(const vector<vector<T> >& a, const vector<vector<T> >& b) {
	if (a.size() != b.size()) return false;
	for (size_t q = 0; q < a.size(); q++) if (a[q].size() != b[q].size() || memcmp(a[q].data(), b[q].data(), a[q].size() * sizeof(T))) return false;
	return true;
}
static vector<unsigned char> slurp(const string& f) { vector<unsigned char> b; FILE* h = fopen(f.c_str(), "rb"); if (!h) return b; unsigned char t[65536]; size_t k; while ((k = fread(t, 1, sizeof t, h)) > 0) b.insert(b.end(), t, t + k); fclose(h); return b; }
static void spill(const string& f, const void* p, size_t n) { FILE* h = fopen(f.c_str(), "wb"); if (!h || fwrite(p, 1, n, h) != n) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(3); } fclose(h); }

template <class T> static void blob_case(Ctx& c, K k) {
	Prob<T> p = tiny_or_usual<T>(c, k, 2500);
	if (!g_child.empty()) { // the other process: decode the blob in the file
		vector<unsigned char> b = slurp(g_child + ".z"), s = slurp(g_child + ".s"); vector<double> side(s.size() / 8); if (!side.empty()) memcpy(side.data(), s.data(), s.size());
		vector<vector<T> > o; { Guard g(b.data(), b.size()); do_decompress(k, g.p, p, side, o); }
		vector<unsigned char> flat; for (auto& v : o) flat.insert(flat.end(), (unsigned char*)v.data(), (unsigned char*)(v.data() + v.size()));
		spill(g_child + ".o", flat.data(), flat.size());
		return;
	}
	size_t sz; vector<double> side, none;
	uint64_t h0 = hash_prob(p, none);
	unsigned char* z = do_compress(k, p, sz, side);
	if (!z) { c.fail("compressor returned no output"); return; }
	if (hash_prob(p, none) != h0) c.fail("compression modified its input");
	uint64_t h1 = hash_prob(p, side);
	vector<vector<T> > ref, o;
	vector<unsigned char> keep(z, z + sz);
	do_decompress(k, z, p, side, ref);
	if (memcmp(z, keep.data(), sz)) c.fail("decompression modified the blob");
	if (hash_prob(p, side) != h1) c.fail("decompression modified its input");
	free(z);
	if (c.ok()) { Guard g(keep.data(), keep.size()); do_decompress(k, g.p, p, side, o); if (!same(ref, o)) c.fail("a copy of the reported %zu bytes decodes differently", sz); c.c("guarded_decodes"); }
	if (c.ok()) { // another address, other alignment, surrounded by other bytes
		size_t off = c.rng.i(0, 64); vector<unsigned char> b(sz + off + 64); for (auto& x : b) x = (unsigned char)c.rng.next(); memcpy(b.data() + off, keep.data(), sz);
		do_decompress(k, b.data() + off, p, side, o); if (!same(ref, o)) c.fail("decodes differently when other bytes surround the blob"); c.c("moved_decodes");
	}
	if (c.ok() && c.rng.p(0.5)) { // interleave with another problem of the same codec
		Ctx d = c; d.rng = Rng(c.rng.next()); d.desc.clear(); Prob<T> q = gen_problem<T>(d, k, 800, false); size_t s2; vector<double> sd2;
		unsigned char* z2 = do_compress(k, q, s2, sd2); vector<vector<T> > o1, o2, o3;
		do_decompress(k, z2, q, sd2, o1); { Guard g(keep.data(), keep.size()); do_decompress(k, g.p, p, side, o2); } do_decompress(k, z2, q, sd2, o3); free(z2);
		if (!same(ref, o2) || !same(o1, o3)) c.fail("decoding two blobs in turn changes a result"); c.c("interleaved_decodes", 3);
	}
	if (c.ok() && !g_self.empty() && c.id / K_COUNT % 12 == 0) { // another process
		string f = g_scratch + "/c20." + to_string(getpid());
		spill(f + ".z", keep.data(), sz); spill(f + ".s", side.data(), side.size() * 8); unlink((f + ".o").c_str());
		string id = to_string(c.id), sd = to_string(c.seed);
		pid_t pid = fork();
		if (pid == 0) { execl(g_self.c_str(), g_self.c_str(), "--prop", "C20", "--tier", c.tier.c_str(), "--seed", sd.c_str(), "--case", id.c_str(), "--child", f.c_str(), "--log", "/dev/null", (char*)0); _exit(127); }
		int st = 0; waitpid(pid, &st, 0);
		vector<unsigned char> r = slurp(f + ".o"), flat; for (auto& v : ref) flat.insert(flat.end(), (unsigned char*)v.data(), (unsigned char*)(v.data() + v.size()));
		if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("decoding in a fresh process ended with status %x", st);
		else if (r != flat) c.fail("a fresh process decodes the blob differently (%zu bytes, expected %zu)", r.size(), flat.size());
		unlink((f + ".z").c_str()); unlink((f + ".s").c_str()); unlink((f + ".o").c_str()); c.c("other_process_decodes");
	}
	c.c("blobs"); c.c("blob_bytes", sz); c.mix(keep.data(), sz); c.nontrivial = p.n() > 1;
}
void p_c20(Ctx& c) {
	K k = (K)(c.id % (K_COUNT - 1));
	if (use_double(c, k)) blob_case<double>(c, k); else blob_case<float>(c, k);
}

// ---------------------------------------------------------------- C21
struct AnyProb { K k; bool dbl; Prob<float> f; Prob<double> d; };
struct Result { vector<unsigned char> blob, out; bool ok = true; };
static AnyProb gen_any(Ctx& c, K k, size_t maxn) { AnyProb a; a.k = k; a.dbl = use_double(c, k); if (a.dbl) a.d = gen_problem<double>(c, k, maxn, false); else a.f = gen_problem<float>(c, k, maxn, false); return a; }
template <class T> static Result run1(K k, const Prob<T>& p) {
	Result r; size_t sz; vector<double> side; unsigned char* z = do_compress(k, p, sz, side);
	if (!z) { r.ok = false; return r; }
	r.blob.assign(z, z + sz); r.blob.insert(r.blob.end(), (unsigned char*)side.data(), (unsigned char*)(side.data() + side.size()));
	if (k_decodes(k)) { vector<vector<T> > o; do_decompress(k, z, p, side, o); for (auto& v : o) r.out.insert(r.out.end(), (unsigned char*)v.data(), (unsigned char*)(v.data() + v.size())); }
	free(z); return r;
}
static Result run_any(const AnyProb& a) { return a.dbl ? run1(a.k, a.d) : run1(a.k, a.f); }
static void __attribute__((noinline)) scribble_stack(int v) { volatile char* b = (volatile char*)alloca(192 * 1024); for (size_t k = 0; k < 192 * 1024; k += 1) b[k] = (char)v; }
static void differ(Ctx& c, const Result& a, const Result& b, const char* when) {
	if (a.ok != b.ok) c.fail("%s: compression succeeds only sometimes", when);
	else if (a.blob != b.blob) { size_t k = 0; while (k < a.blob.size() && k < b.blob.size() && a.blob[k] == b.blob[k]) k++; c.fail("%s: compressed bytes differ (sizes %zu and %zu, first difference at %zu)", when, a.blob.size(), b.blob.size(), k); }
	else if (a.out != b.out) { size_t k = 0; while (k < a.out.size() && k < b.out.size() && a.out[k] == b.out[k]) k++; c.fail("%s: decompressed values differ (byte %zu)", when, k); }
}
static void det_seq(Ctx& c) {
	K k = (K)(c.id / 2 % K_COUNT);
	AnyProb a = gen_any(c, k, 2500);
	Result ref = run_any(a), r;
	if (!ref.ok) { c.fail("compressor returned no output"); return; }
	static const int PAT[] = {0x00, 0xFF, 0xA5, 0x41};
	for (int q = 0; q < 4 && c.ok(); q++) {
		if (c.rng.p(0.4)) { Ctx d = c; d.rng = Rng(c.rng.next()); d.desc.clear(); AnyProb b = gen_any(d, (K)c.rng.i(0, K_COUNT - 1), 600); run_any(b); c.c("calls_in_between"); }
		alloc_fill(PAT[q]); scribble_stack(PAT[q]);
		r = run_any(a);
		alloc_fill(-1);
		char w[60]; snprintf(w, sizeof w, "fresh memory filled with %02x", PAT[q]);
		differ(c, ref, r, w); c.c("repeated_calls");
	}
	c.mix(ref.blob.data(), ref.blob.size()); c.nontrivial = !ref.blob.empty(); c.c("blob_bytes", ref.blob.size());
}
struct Th { vector<AnyProb>* pr; vector<Result>* ref; int start; int rounds; bool bad; string why; };
static pthread_barrier_t bar;
static void* th_main(void* v) {
	Th& t = *(Th*)v; size_t n = t.pr->size();
	pthread_barrier_wait(&bar);
	for (int q = 0; q < t.rounds; q++) for (size_t j = 0; j < n; j++) {
		size_t i = (t.start + j * (t.start % 2 ? 1 : n - 1)) % n;
		Result r = run_any((*t.pr)[i]);
		Ctx c; differ(c, (*t.ref)[i], r, "while other threads compress"); if (!c.ok() && !t.bad) { t.bad = true; t.why = string(KN[(*t.pr)[i].k]) + " " + c.fail_msg; }
	}
	return nullptr;
}
static void det_threads(Ctx& c) {
	const int T = 4, n = 4; vector<AnyProb> pr; vector<Result> ref;
	K k0 = (K)(c.id / 2 % K_COUNT); bool samek = c.rng.p(0.5);
	for (int q = 0; q < n; q++) { pr.push_back(gen_any(c, samek || q == 0 ? k0 : (K)c.rng.i(0, K_COUNT - 1), 500)); }
	for (auto& a : pr) ref.push_back(run_any(a));
	pthread_barrier_init(&bar, nullptr, T); pthread_t th[T]; Th t[T];
	for (int q = 0; q < T; q++) { t[q] = {&pr, &ref, q, c.san ? 1 : 2, false, ""}; if (pthread_create(&th[q], nullptr, th_main, &t[q])) { fprintf(stderr, "no thread\n"); _exit(3); } }
	for (int q = 0; q < T; q++) { pthread_join(th[q], nullptr); if (t[q].bad) c.fail("%s", t[q].why.c_str()); c.c("concurrent_calls", n * t[q].rounds); }
	pthread_barrier_destroy(&bar);
	for (auto& r : ref) c.mix(r.blob.data(), r.blob.size()); c.nontrivial = true; c.c("thread_groups");
}
void p_c21(Ctx& c) { if (c.id % 2 == 0 && !c.san) det_seq(c); else det_threads(c); }

// ---------------------------------------------------------------- C22
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
template <class T> static void res_case(Ctx& c, K k) {
	Prob<T> p = tiny_or_usual<T>(c, k, 2000);
	static bool warm[2][K_COUNT];
	size_t sz; vector<double> side;
	if (!warm[sizeof(T) == 8][k]) { // one-time statics of the runtime
		unsigned char* z = do_compress(k, p, sz, side); if (k_decodes(k)) { vector<vector<T> > o; do_decompress(k, z, p, side, o); } free(z); warm[sizeof(T) == 8][k] = true;
	}
	side.clear(); side.reserve(p.n() + 8);
	int f0 = open_fds(); AllocStat a0 = alloc_stat();
	unsigned char* z = do_compress(k, p, sz, side);
	AllocStat a1 = alloc_stat(); long live = a1.blocks - a0.blocks;
	if (!z) { c.fail("compressor returned no output"); return; }
	if (alloc_live_of(z) < 0) c.fail("the returned buffer is not a live heap block");
	else if (alloc_live_of(z) < (long)sz) c.fail("reported size %zu, buffer has %ld bytes", sz, alloc_live_of(z));
	else if (live != 1) c.fail("after compression %ld blocks (%ld bytes) stay allocated, 1 was returned", live, a1.bytes - a0.bytes);
	c.c("library_allocations", a1.total - a0.total); c.c("calls_watched");
	if (k_decodes(k) && c.ok()) {
		AllocStat b0 = alloc_stat(); T* o[3]; do_decompress_raw(k, z, p, side, o); AllocStat b1 = alloc_stat();
		long ret = 0; for (int q = 0; q < out_nc(k); q++) { if (!o[q] || alloc_live_of(o[q]) < (long)(out_len(k, p) * sizeof(T))) { c.fail("returned array %d is not a live block of the data's size", q); return; } ret++; }
		if (b1.blocks - b0.blocks != ret) c.fail("after decompression %ld blocks (%ld bytes) stay allocated, %ld were returned", b1.blocks - b0.blocks, b1.bytes - b0.bytes, ret);
		if (k_isvec(k) && c.ok() && c.rng.p(0.5)) { // decompress again into the pointers that own the first result: the old arrays are the callee's to release
			vector<vector<T> > first; for (int q = 0; q < out_nc(k); q++) { first.push_back(vector<T>(o[q], o[q] + out_len(k, p))); if (c.rng.p(0.2)) { free(o[q]); o[q] = nullptr; } }
			do_decompress_raw(k, z, p, side, o, true); AllocStat b2 = alloc_stat();
			if (b2.blocks != b1.blocks) c.fail("after decompressing into owned arrays %ld blocks (%ld bytes) more than after the first call stay allocated", b2.blocks - b1.blocks, b2.bytes - b1.bytes);
			for (int q = 0; q < out_nc(k); q++) if (alloc_live_of(o[q]) < (long)(out_len(k, p) * sizeof(T))) { c.fail("reused array %d is not a live block of the data's size", q); return; } else if (memcmp(o[q], first[q].data(), first[q].size() * sizeof(T))) c.fail("component %d decompressed into an owned array differs", q);
			c.c("reused_outputs"); c.c("calls_watched");
		}
		for (int q = 0; q < out_nc(k); q++) free(o[q]);
		c.c("library_allocations", b1.total - b0.total); c.c("calls_watched");
	}
	free(z);
	AllocStat a2 = alloc_stat(); if (c.ok() && a2.blocks != a0.blocks) c.fail("%ld blocks left after everything returned was freed", a2.blocks - a0.blocks);
	if (open_fds() != f0) c.fail("file descriptors: %d before, %d after", f0, open_fds());
	c.sig ^= (uint64_t)(a1.total - a0.total) * 1000003 + sz * 31 + k; c.nontrivial = a1.total - a0.total > 1; c.c("blob_bytes", sz);
}
void p_c22(Ctx& c) {
	if (!alloc_active()) { c.fail("allocation monitor not active"); return; }
	if (c.id % 20 >= 18) { // the lossless layers: everything they hand out is freed by these drivers
		Ctx w = c; p_c17(w); // warm-up on the same case
		AllocStat a0 = alloc_stat(); Ctx d = c; if (c.id % 20 == 18) p_c17(d); else p_c18(d); AllocStat a1 = alloc_stat();
		c.desc = d.desc; if (a1.blocks != a0.blocks) c.fail("%ld blocks (%ld bytes) left by the lossless layer", a1.blocks - a0.blocks, a1.bytes - a0.bytes);
		c.sig ^= d.sig; c.nontrivial = a1.total > a0.total; c.c("library_allocations", a1.total - a0.total); c.c("calls_watched", 2); return;
	}
	K k = (K)(c.id % 20 % K_COUNT);
	if (use_double(c, k)) res_case<double>(c, k); else res_case<float>(c, k);
}

// ---------------------------------------------------------------- C24
static double huff(double m, double A) { double d = min(m, A); return 26 * d + m * ceil(log2(d + 1)) / 8 + 64; }
template <class T> static void size_case(Ctx& c, K k) {
	Prob<T> p = gen_problem<T>(c, k, c.rng.p(0.2) ? 40 : k_is3(k) ? 8000 : 10000, false);
	size_t sz; vector<double> side; unsigned char* z = do_compress(k, p, sz, side);
	if (!z) { c.fail("compressor returned no output"); return; }
	double n = p.n(), nc = k_nc(k), raw = n * nc * sizeof(T), over;
	if (k_isvec(k)) over = huff(n * nc, 65538) + 2 * huff(n * nc, 65538) + nc * n / 4 + 1024;
	else {
		double b = p.bs ? p.bs : k_is3(k) ? 8 : 12, C = k_is3(k) ? 4 : 3, nb = ceil(p.s.r1 / b) * ceil(p.s.r2 / b) * (k_is3(k) ? ceil(p.s.r3 / b) : 1);
		over = huff(n, 65538) + C * (huff(nb, 65538) + 4 * nb) + nb / 8 + n / 4 + 1024;
	}
	if (sz > raw + over) c.fail("compressed size %zu for %.0f raw bytes (allowed %.0f)", sz, raw, raw + over);
	c.c("sizes_checked"); c.c("raw_bytes", raw); c.c("blob_bytes", sz); c.mx("max_size_over_raw", sz / raw); c.mx("max_size_over_allowed", sz / (raw + over));
	c.mix(z, sz); c.nontrivial = n > 1; free(z);
}
// smooth fields that are large against the bound; the ratio each codec has to reach (measured worst over thousands of fields, with margin)
struct Thr { double f, d; };
extern const Thr SMOOTH_RATIO[K_COUNT], TIGHT_RATIO[K_COUNT];
// ratio of one field after the lossless stage
template <class T> static double ratio_of(Ctx& c, K k, bool tight) {
	Rng& g = c.rng; Prob<T> p; const bool d3 = k_is3(k) || k == K3_UNSTRUCT;
	if (d3) { p.s.r1 = g.i(18, 26); p.s.r2 = g.i(18, 26); p.s.r3 = g.i(18, 26); if (k == K3_UNSTRUCT) p.s.r1 = p.s.r2 = p.s.r3 = g.i(12, 14); } else { p.s.r1 = g.i(90, 160); p.s.r2 = g.i(90, 160); }
	const double L = d3 ? (k == K3_UNSTRUCT ? 13 : 22) : 125; int nc = k_nc(k);
	const bool vec = k_isvec(k); int axis = vec ? 0 : (int)g.i(0, 3);     // which axes vary
	for (int q = 0; q < nc; q++) {
		int m = (int)g.i(vec ? 2 : 1, 3); double kx[3], ky[3], kz[3], ph[3], a[3];
		for (int w = 0; w < m; w++) { auto fr = [&]() { return vec ? g.r(0.5, 1) * (g.p(0.5) ? 1 : -1) : g.r(-1, 1); }; kx[w] = fr() * 6.2832 / L; ky[w] = fr() * 6.2832 / L; kz[w] = d3 ? fr() * 6.2832 / L : 0; ph[w] = g.r(0, 6.2832); a[w] = g.r(0.4, 1); if (axis == 1) kx[w] *= 0.05; if (axis == 2) { ky[w] *= 0.05; kz[w] *= 0.05; } }
		double off = k_isvec(k) ? g.r(4, 8) * (g.p(0.5) ? 1 : -1) : k_log(k) ? g.r(4, 8) : g.r(-2, 2);
		vector<T> v(p.n()); size_t i = 0;
		for (size_t x = 0; x < p.s.r1; x++) for (size_t y = 0; y < p.s.r2; y++) for (size_t zz = 0; zz < p.s.r3; zz++) { double t = off; for (int w = 0; w < m; w++) t += a[w] * sin(kx[w] * x + ky[w] * y + kz[w] * zz + ph[w]); v[i++] = (T)t; }
		p.c.push_back(v);
	}
	p.eb = k_abs(k) ? 1e-2 : 1e-2; if (k_isvec(k)) p.eb = k_abs(k) ? 0.05 : 0.05;
	if (tight) p.eb = k_isvec(k) ? 2e-4 : 2e-5;     // hundreds of quantization steps between prediction and value
	if (k == K_2DEB || k == K_3DEB || k == K_PWREB) p.ebs.assign(p.n(), p.eb);
	p.indep = g.p(0.5);
	if (k == K3_UNSTRUCT) {
		vector<T> in(3 * p.n()); for (size_t i = 0; i < p.n(); i++) for (int q = 0; q < 3; q++) in[3 * i + q] = p.c[q][i]; p.c.assign(1, in);
		static const int T6[6][4] = {{0, 1, 3, 7}, {0, 2, 3, 7}, {0, 1, 5, 7}, {0, 4, 5, 7}, {0, 2, 6, 7}, {0, 4, 6, 7}};
		for (size_t x = 0; x < p.s.r1; x++) for (size_t y = 0; y < p.s.r2; y++) for (size_t q = 0; q < p.s.r3; q++) { p.pts.push_back(q); p.pts.push_back(y); p.pts.push_back(x); if (x + 1 < p.s.r1 && y + 1 < p.s.r2 && q + 1 < p.s.r3) for (auto& t : T6) for (int v : t) p.tets.push_back((int)(((x + (v >> 2 & 1)) * p.s.r2 + y + (v >> 1 & 1)) * p.s.r3 + q + (v & 1))); }
	}
	if (c.desc.empty()) c.d("smooth%s %s<%s> axis=%d %s", tight ? ", tight bound," : "", KN[k], TN<T>::n(), axis, pdesc(k, p).c_str());
	size_t sz; vector<double> side; unsigned char* z = do_compress(k, p, sz, side);
	if (!z) { c.fail("compressor returned no output"); return 0; }
	unsigned char* o = nullptr; unsigned long os = sz_lossless_compress(ZSTD_COMPRESSOR, 3, z, sz, &o);
	double raw = (double)p.n() * nc * sizeof(T), r = os / raw;
	c.c("fields_measured"); c.c("raw_bytes", raw); c.c("blob_bytes", sz); c.mix(z, sz); free(z); free(o);
	return r;
}
template <class T> static void ratio_case(Ctx& c, K k, bool tight = false) {
	vector<double> r; for (int q = 0; q < 5; q++) r.push_back(ratio_of<T>(c, k, tight));
	sort(r.begin(), r.end());
	const Thr& t = tight ? TIGHT_RATIO[k] : SMOOTH_RATIO[k]; double lim = sizeof(T) == 4 ? t.f : t.d;
	char key[64]; snprintf(key, sizeof key, "max_ratio_%s%s_%c", tight ? "tight_" : "", KN[k], TN<T>::n()[0]); c.mx(key, r[2]);
	if (r[2] > lim) c.fail("5 smooth fields compress to ratios %.4f %.4f %.4f %.4f %.4f, median expected at most %.4f", r[0], r[1], r[2], r[3], r[4], lim);
	c.nontrivial = true;
}
// noise against a tiny bound: nothing can be predicted, every value is stored as it is, so little may come on top
template <class T> static void noise_case(Ctx& c, K k) {
	Rng& g = c.rng; Prob<T> p; const bool d3 = k_is3(k) || k == K3_UNSTRUCT;
	if (d3) { p.s.r1 = g.i(16, 22); p.s.r2 = g.i(16, 22); p.s.r3 = g.i(16, 22); } else { p.s.r1 = g.i(60, 110); p.s.r2 = g.i(60, 110); }
	double sc = g.logu(1e-6, 1e6);
	for (int q = 0; q < k_nc(k); q++) { vector<T> v(p.n()); for (auto& x : v) x = (T)(sc * (g.p(0.5) ? 1 : -1) * g.r(0.1, 1)); p.c.push_back(v); }
	p.eb = k_abs(k) ? sc * g.logu(1e-12, 1e-8) : g.logu(1e-12, 1e-9); if (k == K_2DEB || k == K_3DEB || k == K_PWREB) p.ebs.assign(p.n(), p.eb);
	p.indep = g.p(0.5);
	if (k == K3_UNSTRUCT) {
		vector<T> in(3 * p.n()); for (size_t i = 0; i < p.n(); i++) for (int q = 0; q < 3; q++) in[3 * i + q] = p.c[q][i]; p.c.assign(1, in);
		for (size_t i = 0; i < 3 * p.n(); i++) p.pts.push_back((T)g.r(-5, 5)); for (size_t i = 0; i + 4 <= p.n(); i++) for (int q = 0; q < 4; q++) p.tets.push_back((int)(i + q));
	}
	c.d("noise %s<%s> scale=%.3g %s", KN[k], TN<T>::n(), sc, pdesc(k, p).c_str());
	size_t sz; vector<double> side; unsigned char* z = do_compress(k, p, sz, side);
	if (!z) { c.fail("compressor returned no output"); return; }
	double raw = (double)p.n() * k_nc(k) * sizeof(T), r = sz / raw, lim = 1.2;   // codes, signs and code table: at most 9% was measured
	char key[64]; snprintf(key, sizeof key, "max_noise_%s_%c", KN[k], TN<T>::n()[0]); c.mx(key, r);
	if (r > lim) c.fail("incompressible field: %zu bytes for %.0f raw, ratio %.4f, expected at most %.4f", sz, raw, r, lim);
	c.c("noise_fields_measured"); c.c("raw_bytes", raw); c.c("blob_bytes", sz); c.mix(z, sz); free(z); c.nontrivial = true;
}
void p_c24(Ctx& c) {
	K k = (K)(c.id / 4 % K_COUNT); bool d = use_double(c, k);
	switch (c.id % 4) {
	case 0: if (d) ratio_case<double>(c, k); else ratio_case<float>(c, k); break;
	case 3: if (d) ratio_case<double>(c, k, true); else ratio_case<float>(c, k, true); break;
	case 1: if (d) size_case<double>(c, k); else size_case<float>(c, k); break;
	default: if (d) noise_case<double>(c, k); else noise_case<float>(c, k); break;
	}
}
const Thr SMOOTH_RATIO[K_COUNT] = { // 1.3 x the worst of about a thousand medians each
	{0.073, 11.700}, {0.057, 0.029}, {0.121, 0.063}, {0.044, 11.700}, {0.047, 11.700}, {0.157, 0.055}, {0.132, 0.052}, {0.140, 0.067}, {0.139, 0.056}, {0.065, 0.031}, {0.125, 0.063}, {0.424, 0.217}, {0.124, 0.014}, {0.732, 0.342}, {0.144, 0.072}, {0.102, 0.051}, {0.200, 0.103}, {0.097, 0.049}
};
const Thr TIGHT_RATIO[K_COUNT] = {
	{0.332, 11.700}, {0.331, 0.158}, {1.117, 0.487}, {0.224, 11.700}, {0.211, 11.700}, {0.202, 0.072}, {0.135, 0.055}, {0.175, 0.076}, {0.316, 0.142}, {0.286, 0.143}, {0.156, 0.054}, {0.412, 0.207}, {0.156, 0.058}, {0.747, 0.335}, {0.248, 0.123}, {0.545, 0.265}, {0.971, 0.495}, {0.761, 0.361}
};
