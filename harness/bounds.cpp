// Round-trip workloads and the error-bound monitors.
#include "codecs.hpp"
using namespace std;
extern bool g_slow;

static double pick_eb_abs(Ctx& c, const vector<vector<double> >& f, bool isfloat) {
	Rng& g = c.rng;
	double mn = 1e300, mx = -1e300, am = 0;
	for (auto& v : f) for (double x : v) { mn = min(mn, x); mx = max(mx, x); am = max(am, fabs(x)); }
	double range = mx - mn;
	if (!(range > 0)) range = am > 0 ? am : 1;
	if (isfloat && range > 1e38) range = 1e38;
	if (g.p(0.12)) { double e = ldexp(1, (int)floor(log2(range)) - (int)g.i(1, 20)); return g.p(0.5) ? e : e * (1 + g.logu(1e-7, 1e-2)); }   // the codecs quantize bounds to powers of two: exactly one, just above
	switch (g.i(0, 11)) {
	case 0: { static const double q[] = {1e-3, 0.1, 0.5, 1, 1e-6, 2.0, 1e-10}; return q[g.i(0, 6)]; }
	case 1: return range * g.logu(1, 100);          // bound larger than the data
	case 2: return max(am, 1e-30) * g.logu(1e-9, 1e-6);
	case 3: return g.logu(1e-40, 1e-10);
	case 4: return range * g.logu(1e-8, 1e-5);
	default: return range * g.logu(1e-6, 0.3);
	}
}

static vector<int> gen_tets(Rng& g, Shape& s, vector<double>& pts) {
	// a tetrahedral mesh: box grid split in tets with random diagonals, shuffled vertex order, or random tuples
	vector<int> t;
	int n = (int)s.n();
	pts.resize(3 * n);
	size_t p = 0;
	for (size_t i = 0; i < s.r1; i++) for (size_t j = 0; j < s.r2; j++) for (size_t k = 0; k < s.r3; k++) {
		pts[3 * p] = k + g.r(-0.2, 0.2); pts[3 * p + 1] = j + g.r(-0.2, 0.2); pts[3 * p + 2] = i + g.r(-0.2, 0.2); p++;
	}
	static const int T6[6][4] = {{0, 1, 3, 7}, {0, 2, 3, 7}, {0, 1, 5, 7}, {0, 4, 5, 7}, {0, 2, 6, 7}, {0, 4, 6, 7}};
	static const int T5[5][4] = {{0, 1, 2, 4}, {3, 1, 2, 7}, {5, 1, 4, 7}, {6, 2, 4, 7}, {1, 2, 4, 7}};
	vector<int> perm(n);
	for (int i = 0; i < n; i++) perm[i] = i;
	bool shuffle = g.p(0.3);
	if (shuffle) for (int i = n - 1; i > 0; i--) swap(perm[i], perm[g.i(0, i)]);
	if (g.p(0.1) && n >= 4) {
		int m = (int)g.i(1, 3 * n);
		for (int q = 0; q < m; q++) { int v[4]; for (int a = 0; a < 4; a++) { bool dup; do { v[a] = (int)g.i(0, n - 1); dup = false; for (int b = 0; b < a; b++) dup |= v[b] == v[a]; } while (dup); } for (int a = 0; a < 4; a++) t.push_back(v[a]); }
		return t;
	}
	for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) for (size_t k = 0; k + 1 < s.r3; k++) {
		int id[8];
		for (int b = 0; b < 8; b++) id[b] = (int)(((i + (b >> 2 & 1)) * s.r2 + j + (b >> 1 & 1)) * s.r3 + k + (b & 1));
		bool five = (i + j + k) % 2 == 0 && g.p(0.3);
		for (int q = 0; q < (five ? 5 : 6); q++) for (int a = 0; a < 4; a++) t.push_back(perm[id[five ? T5[q][a] : T6[q][a]]]);
	}
	if (g.p(0.2)) for (size_t q = 0; q + 4 <= t.size(); q += 4) for (int a = 3; a > 0; a--) swap(t[q + a], t[q + g.i(0, a)]);
	if (g.p(0.3) && t.size() > 8) t.resize(t.size() / 4 * g.i(1, 4) / 4 * 4); // leave some vertices unused
	if (t.empty() && n >= 4) { for (int a = 0; a < 4; a++) t.push_back(a); }
	return t;
}

// extreme magnitudes (normal numbers) for the relative-bound codecs
template <class T> static void stretch(Rng& g, vector<vector<T> >& c, string& what) {
	if (!g.p(0.12)) return;
	const int E = numeric_limits<T>::max_exponent; int e = (int)g.i(-E, E);
	const double lo = numeric_limits<T>::min() * 4, hi = numeric_limits<T>::max() / 4;
	what += "*2^" + to_string(e);
	for (auto& v : c) for (auto& x : v) if (x != 0) { double y = ldexp((double)x, e), a = min(max(fabs(y), lo), hi); x = (T)copysign(a, (double)x); }
}

template <class T> Prob<T> gen_problem(Ctx& c, K k, size_t maxn, bool gp) {
	Rng& g = c.rng;
	Prob<T> p;
	string what;
	const bool isf = sizeof(T) == 4;
	const bool big = !g_slow && maxn >= 500 && g.p(0.012);
	// a few arrays per run with more than 2^24 values or symbols (counters kept in floats or in 24 bits), fewer where every cell is classified
	const bool huge = !g_slow && !c.san && maxn >= 500 && c.id >= 1000 && c.id < 1003 && k != K3_UNSTRUCT && c.prop != "C20" && c.prop != "C21";
	if (huge) { size_t n = (size_t)(g.r(1, 1.05) * (gp ? (k_is3(k) ? 1.2e6 : 3e6) : !k_isvec(k) ? 1.7e7 : k_is3(k) || k == K_BILINEAR ? 6e6 : 9e6)); if (k_is3(k)) { p.s.r1 = g.i(150, 400); p.s.r2 = g.i(150, 400); p.s.r3 = n / p.s.r1 / p.s.r2; } else { p.s.r1 = g.i(2000, 8000); p.s.r2 = n / p.s.r1; } c.c("huge_arrays"); }
	else if (k == K3_UNSTRUCT) { p.s = Shape(); if (big) { p.s.r1 = g.i(9, 24); p.s.r2 = g.i(9, 24); p.s.r3 = g.i(2, 24); } else { p.s.r1 = g.i(1, 8); p.s.r2 = g.i(1, 8); p.s.r3 = g.i(1, 8); } while (p.s.n() < 4) p.s.r3++; }
	else if (big) { p.s = k_is3(k) ? gen_big3(g) : gen_big2(g); }
	else p.s = k_is3(k) ? gen_shape3(g, maxn) : gen_shape2(g, maxn);
	if (p.n() > 8000) c.c("large_arrays");
	if (k_isvec(k)) {
		auto f = gen_vector(g, p.s, k_nc(k), what, gp);
		if (!gp && k_abs(k) && g.p(0.12)) { // extreme magnitudes are inside the domain of the absolute-bound codecs
			double sc = pow(10, g.p(0.5) ? g.r(8, isf ? 18 : 40) : g.r(isf ? -18 : -40, -8));
			what += "*1e" + to_string((int)log10(sc)); for (auto& v : f) for (auto& x : v) x *= sc;
		}
		p.tr = g.p(0.2); // an accepted argument that must not matter
		if (k_abs(k)) p.eb = pick_eb_abs(c, f, isf);
		else if (g.p(0.15)) { double q = ldexp(1, -(int)g.i(1, 14)); if (g.p(0.5)) q *= 1 + g.logu(1e-7, 1e-2); p.eb = k_log(k) ? exp2(q) - 1 : q; }   // tight after the quantization of bounds to powers of two
		else p.eb = g.p(0.2) ? 0.1 : g.p(0.1) ? g.r(0.5, 0.99) : g.logu(1e-4, 0.5);
		for (auto& v : f) p.c.push_back(cast_to<T>(v, gp));
		if (k_log(k)) for (auto& v : p.c) for (auto& x : v) if (x != 0 && fabs((double)x) < ldexp(1, -60)) x = (T)copysign(ldexp(1, -60), (double)x);
		if (!gp && !k_abs(k)) stretch(g, p.c, what);
		if (k == K3_UNSTRUCT) {
			vector<double> pts; p.tets = gen_tets(g, p.s, pts); p.pts = cast_to<T>(pts);
			vector<T> inter(3 * p.n());
			for (size_t i = 0; i < p.n(); i++) for (int q = 0; q < 3; q++) inter[3 * i + q] = p.c[q][i];
			p.c.assign(1, inter);
		}
	} else {
		vector<double> v = (k == K_PWR || k == K_PWREB) ? gen_scalar_rel(g, p.s, what, true) : gen_scalar(g, p.s, what, huge && c.id > 1000 ? 1 : -1);
		p.c.push_back(cast_to<T>(v));
		if (!k_abs(k)) stretch(g, p.c, what);
		vector<vector<double> > f(1); for (T x : p.c[0]) f[0].push_back((double)x);
		if (k == K_PWR) p.eb = g.p(0.1) ? g.r(0.5, 0.99) : g.p(0.1) ? g.logu(1e-7, 1e-4) : g.logu(1e-4, 0.5);
		else if (k == K_PWREB) {
			p.ebs.resize(p.n()); int m = (int)g.i(0, 5); double e0 = g.logu(1e-4, 0.5);
			if (g.p(0.1)) { what += "+pow2"; for (auto& x : p.c[0]) if (x != 0) { int e; frexp((double)x, &e); x = (T)copysign(ldexp(1.0, e), (double)x); } }
			for (auto& e : p.ebs) e = m == 0 ? e0 : m == 1 ? g.logu(1e-6, 0.9) : m == 2 ? (g.p(0.5) ? 0 : e0) : m == 3 ? g.r(0, 0.99) : m == 4 ? (g.p(0.1) ? e0 : 0) : 0;
		} else if (k == K_2DEB || k == K_3DEB) {
			p.ebs.resize(p.n()); int m = (int)g.i(0, 6); double e0 = pick_eb_abs(c, f, isf);
			for (size_t i = 0; i < p.n(); i++) { double& e = p.ebs[i]; e = m == 0 ? e0 : m == 1 ? e0 * g.logu(1e-4, 1e4) : m == 2 ? (g.p(0.5) ? 0 : e0) : m == 3 ? 0 : m == 4 ? (g.p(0.05) ? 0 : e0 * g.logu(0.1, 10)) : m == 5 ? fabs(f[0][i]) * 1e-2 : (g.p(0.5) ? e0 * pow(4, (double)g.i(-10, 10)) : e0); }
			c.d("ebmode=%d e0=%.6g", m, e0);
		} else p.eb = pick_eb_abs(c, f, isf);
		p.bs = g.p(0.4) ? 0 : g.p(0.1) ? (int)g.i(1, 3) : g.p(0.12) ? (int)g.logu(25, g.p(0.2) ? 3000 : 600) : (int)g.i(4, k_is3(k) ? 12 : 24);
		if (huge && c.id > 1000) {   // and more than 65536 blocks, most of them predicted by regression
			double t = 0; for (size_t i = 1; i < 2000; i++) t += fabs(f[0][i + 1] - 2 * f[0][i] + f[0][i - 1]) / 2000;
			p.bs = k_is3(k) ? 4 : 8; if (t > 0 && p.ebs.empty() && k_abs(k)) p.eb = t / 8;
		}
		p.indep = huge ? c.id == 1001 : g.p(0.5);
	}
	c.d("%s<%s> %s %s", KN[k], TN<T>::n(), what.c_str(), pdesc(k, p).c_str());
	return p;
}

template <class T> string pdesc(K k, const Prob<T>& p) {
	char b[200];
	snprintf(b, sizeof b, "%zux%zux%zu eb=%.9g bs=%d indep=%d tets=%zu tr=%d", p.s.r1, p.s.r2, p.s.r3, p.eb, p.bs, (int)p.indep, p.tets.size() / 4, (int)p.tr);
	(void)k;
	return b;
}

template <class T> void mon_abs(Ctx& c, const vector<T>& x, const vector<T>& y, double eb, const char* comp) {
	if (x.size() != y.size()) { c.fail("%s: decompressed array missing or of wrong length (%zu, expected %zu)", comp, y.size(), x.size()); return; }
	double worst = 0; size_t exact = 0;
	for (size_t i = 0; i < x.size(); i++) {
		double e = fabs((double)y[i] - (double)x[i]);
		if (!(e <= eb * (1 + 1e-6))) { c.fail("%s[%zu]: original %.17g decompressed %.17g error %.9g > bound %.9g", comp, i, (double)x[i], (double)y[i], e, eb); return; }
		if (x[i] == y[i]) exact++;
		worst = max(worst, eb > 0 ? e / eb : 0);
	}
	c.c("values", x.size()); c.c("exact_values", exact); c.mx("max_err_over_bound", worst);
	if (exact < x.size()) c.nontrivial = true;
	c.mix(y.data(), y.size() * sizeof(T));
}
template <class T> void mon_abs_each(Ctx& c, const vector<T>& x, const vector<T>& y, const vector<double>& eb) {
	if (x.size() != y.size()) { c.fail("decompressed array missing"); return; }
	size_t exact = 0, zero = 0; double worst = 0;
	for (size_t i = 0; i < x.size(); i++) {
		if (eb[i] == 0) { zero++; if (memcmp(&x[i], &y[i], sizeof(T))) { c.fail("[%zu]: bound 0 but original %.17g decompressed %.17g", i, (double)x[i], (double)y[i]); return; } continue; }
		double e = fabs((double)y[i] - (double)x[i]);
		if (!(e <= eb[i] * (1 + 1e-6))) { c.fail("[%zu]: original %.17g decompressed %.17g error %.9g > own bound %.9g", i, (double)x[i], (double)y[i], e, eb[i]); return; }
		if (x[i] == y[i]) exact++;
		worst = max(worst, e / eb[i]);
	}
	c.c("values", x.size()); c.c("exact_values", exact); c.c("zero_bound_points", zero); c.mx("max_err_over_bound", worst);
	if (exact + zero < x.size()) c.nontrivial = true;
	c.mix(y.data(), y.size() * sizeof(T));
}
// logdom: the codec works on log2 of the magnitude in type T; its rounding is |log2 x| ulps
// ml >= 0: the codec subtracts that rounding (for magnitudes up to 2^ml) from the bound, where the bound is large enough
template <class T> static double log_slack(double x, double e, double ml) {
	const double u = (double)numeric_limits<T>::epsilon();
	if (ml >= 0 && log2(1 + e) > 1.01 * ml * u + 4 * u) return 8 * u;
	return (fabs(log2(fabs(x))) + 4) * u * 1.2 + 8 * u;
}
template <class T> static bool mon_rel1(Ctx& c, size_t i, T x, T y, double e, bool logdom, const char* comp, double& worst, double ml = -1) {
	if (x == 0) { if (y != 0) { c.fail("%s[%zu]: original zero decompressed to %.17g", comp, i, (double)y); return false; } return true; }
	if (!((x > 0) == (y > 0)) || y == 0) { c.fail("%s[%zu]: sign or zero not kept: original %.17g decompressed %.17g (relative bound %.6g)", comp, i, (double)x, (double)y, e); return false; }
	double err = fabs((double)y - (double)x) / fabs((double)x), lim = e * (1 + 1e-6) + (logdom ? log_slack<T>(x, e, ml) : 4 * (double)numeric_limits<T>::epsilon() * (e > 0));
	if (!(err <= lim)) { c.fail("%s[%zu]: original %.17g decompressed %.17g relative error %.9g > bound %.9g", comp, i, (double)x, (double)y, err, e); return false; }
	if (e > 0) worst = max(worst, err / lim);
	return true;
}
template <class T> void mon_rel(Ctx& c, const vector<T>& x, const vector<T>& y, double e, bool logdom, const char* comp, double ml) {
	if (x.size() != y.size()) { c.fail("%s: decompressed array missing", comp); return; }
	double worst = 0; size_t exact = 0, zeros = 0;
	for (size_t i = 0; i < x.size(); i++) {
		if (!mon_rel1(c, i, x[i], y[i], e, logdom, comp, worst, ml)) return;
		exact += x[i] == y[i]; zeros += x[i] == 0;
	}
	c.c("values", x.size()); c.c("exact_values", exact); c.c("zero_values", zeros); c.mx("max_err_over_bound", worst);
	if (exact < x.size()) c.nontrivial = true;
	c.mix(y.data(), y.size() * sizeof(T));
}

template <class T> bool round_trip(Ctx& c, K k, const Prob<T>& p, vector<vector<T> >& out, size_t* zsz) {
	size_t sz = 0; vector<double> side;
	unsigned char* z = do_compress(k, p, sz, side);
	if (!z || !sz) { c.fail("compressor returned no output"); free(z); return false; }
	c.c("blobs"); c.c("compressed_bytes", sz);
	do_decompress(k, z, p, side, out);
	free(z);
	if (zsz) *zsz = sz;
	for (int q = 0; q < out_nc(k); q++) if (out[q].size() != out_len(k, p)) { c.fail("decompressor returned no array for component %d", q); return false; }
	return true;
}

template <class T> void mon_bounds(Ctx& c, K k, const Prob<T>& p, const vector<vector<T> >& out) {
	static const char* CN[3] = {"U", "V", "W"};
	if (k == K_2DEB) { mon_abs_each(c, p.c[0], out[0], p.ebs); return; }
	if (k == K_PWREB) {
		double worst = 0; size_t exact = 0;
		for (size_t i = 0; i < p.n(); i++) { if (!mon_rel1(c, i, p.c[0][i], out[0][i], p.ebs[i], true, "data", worst, p.c[0][i] == 0 ? 0 : fabs(log2(fabs((double)p.c[0][i]))))) return; exact += p.c[0][i] == out[0][i]; }
		c.c("values", p.n()); c.c("exact_values", exact); c.mx("max_err_over_bound", worst); if (exact < p.n()) c.nontrivial = true; c.mix(out[0].data(), out[0].size() * sizeof(T));
		return;
	}
	if (k == K_ABS || k == K_RELAX || k == K3_ABS) {   // masked land: the zero vector
		size_t m = 0;
		for (size_t i = 0; i < p.n(); i++) {
			bool z = true, y = true; for (size_t q = 0; q < p.c.size(); q++) { z &= p.c[q][i] == 0; y &= i < out[q].size() && out[q][i] == 0; }
			m += z; if (z && !y) { c.fail("point %zu: the original vector is zero, the decompressed one is not", i); return; }
		}
		c.c("zero_vectors", m);
	}
	for (size_t q = 0; q < out.size() && c.ok(); q++) {
		if (k_abs(k)) mon_abs(c, p.c[q], out[q], p.eb, out.size() == 1 ? "data" : CN[q]);
		else {
			double ml = -1;
			if (k == K_PWR) { ml = 0; for (T x : p.c[q]) if (x != 0) ml = max(ml, fabs(log2(fabs((double)x)))); }
			mon_rel(c, p.c[q], out[q], p.eb, k_log(k), out.size() == 1 ? "data" : CN[q], ml);
		}
	}
}

#define INST(T) \
	template Prob<T> gen_problem<T>(Ctx&, K, size_t, bool); \
	template void mon_abs<T>(Ctx&, const vector<T>&, const vector<T>&, double, const char*); \
	template void mon_abs_each<T>(Ctx&, const vector<T>&, const vector<T>&, const vector<double>&); \
	template void mon_rel<T>(Ctx&, const vector<T>&, const vector<T>&, double, bool, const char*, double); \
	template void mon_bounds<T>(Ctx&, K, const Prob<T>&, const vector<vector<T> >&); \
	template bool round_trip<T>(Ctx&, K, const Prob<T>&, vector<vector<T> >&, size_t*); \
	template string pdesc<T>(K, const Prob<T>&);
INST(float) INST(double)
