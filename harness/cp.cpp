// Critical-point monitors: an independent extractor, in long double with clearance margins, is run on the
// original and on the decompressed field and the two answers are compared cell by cell.
#include "codecs.hpp"
using namespace std;
typedef long double L;

struct Tri { L u[3], v[3]; };
// sign of x against a margin relative to the sum s of the magnitudes of its terms; 2 = too close to call
static int clear_sign(L x, L s, L tol) { if (fabsl(x) <= tol * s || s == 0) return 2; return x > 0 ? 1 : -1; }
// all vectors clearly on one side of a line or plane through zero: no critical point, however close to parallel they are
template <int D> static bool separated(const vector<array<L, 3> >& p, L tol, L cell = 0) {
	auto side = [&](const array<L, 3>& w) {
		for (auto& q : p) { L t = 0, s = 0; for (int d = 0; d < D; d++) { t += w[d] * q[d]; s += fabsl(w[d] * q[d]); } if (cell > 0) { L n = 0; for (int d = 0; d < D; d++) n = max(n, fabsl(w[d])); s = max(s, n * sqrtl(cell)); } if (!(t > 1000 * tol * s) || s == 0) return false; }
		return true;
	};
	array<L, 3> w; size_t n = p.size();
	for (int d = 0; d < D; d++) for (int f = -1; f <= 1; f += 2) { w = {0, 0, 0}; w[d] = f; if (side(w)) return true; }
	vector<array<L, 3> > u;   // unit vectors: the mean direction of any of them
	for (auto& q : p) { L l = 0; for (int d = 0; d < D; d++) l += q[d] * q[d]; l = sqrtl(l); if (!(l > 0)) return false; u.push_back({q[0] / l, q[1] / l, q[2] / l}); }
	for (int m = 1; m < 1 << n; m++) { w = {0, 0, 0}; for (size_t k = 0; k < n; k++) if (m >> k & 1) for (int d = 0; d < D; d++) w[d] += u[k][d]; if (side(w)) return true; }
	return false;
}
// 1 contains a critical point, 0 does not, -1 too close to call
// cell: measure the margin against the largest vector of the cell (for codecs that verify with barycentric
// coordinates of differences, which lose the small vectors of a cell), not against the terms themselves
static int tri_has(const Tri& t, L tol, bool cell = false) {
	int s[3]; L m = 0;
	for (int k = 0; k < 3; k++) m = max(m, max(fabsl(t.u[k]), fabsl(t.v[k])));
	for (int k = 0; k < 3; k++) { int a = k, b = (k + 1) % 3; L p = t.u[a] * t.v[b], q = t.u[b] * t.v[a]; s[k] = clear_sign(p - q, cell ? 2 * m * m : fabsl(p) + fabsl(q), tol); }
	bool pos = false, neg = false, unk = false;
	for (int x : s) { pos |= x == 1; neg |= x == -1; unk |= x == 2; }
	if (pos && neg) return 0;
	return unk ? separated<2>({{t.u[0], t.v[0], 0}, {t.u[1], t.v[1], 0}, {t.u[2], t.v[2], 0}}, tol, cell ? m * m : 0) ? 0 : -1 : 1;
}
// bits: det sign, delta sign, trace sign, each 1 / -1 / 2(unclear); vertices at (x,y)
struct Type { int det, delta, trace; };
static Type tri_type(const Tri& t, const L x[3], const L y[3], L tol) {
	L D = (x[0] - x[2]) * (y[1] - y[2]) - (x[1] - x[2]) * (y[0] - y[2]);
	L c0 = (y[1] - y[2]) / D, c1 = -(y[0] - y[2]) / D, c2 = -(x[1] - x[2]) / D, c3 = (x[0] - x[2]) / D;
	auto J = [&](const L w[3], L a, L b) { return a * (w[0] - w[2]) + b * (w[1] - w[2]); };
	auto S = [&](const L w[3], L a, L b) { return fabsl(a) * (fabsl(w[0]) + fabsl(w[2])) + fabsl(b) * (fabsl(w[1]) + fabsl(w[2])); };
	L ux = J(t.u, c0, c1), uy = J(t.u, c2, c3), vx = J(t.v, c0, c1), vy = J(t.v, c2, c3);
	L sux = S(t.u, c0, c1), suy = S(t.u, c2, c3), svx = S(t.v, c0, c1), svy = S(t.v, c2, c3);
	L tr = ux + vy, det = ux * vy - uy * vx, str = sux + svy, sdet = sux * svy + suy * svx;
	Type r;
	r.trace = clear_sign(tr, str, tol);
	r.det = clear_sign(det, sdet, tol);
	r.delta = clear_sign(tr * tr - 4 * det, str * str + 4 * sdet, tol);
	return r;
}

struct CpOpt { bool exact_vertices, types; double tol; bool cell; };

template <class T> static void mon_cp2(Ctx& c, const Prob<T>& p, const vector<vector<T> >& o, CpOpt opt) {
	size_t r1 = p.s.r1, r2 = p.s.r2;
	const vector<T>&U = p.c[0], &V = p.c[1];
	const L X[2][3] = {{0, 0, 1}, {0, 1, 1}}, Y[2][3] = {{0, 1, 1}, {0, 0, 1}};
	long judged = 0, withcp = 0, unclear = 0, changed = 0, typed = 0, types[5] = {0, 0, 0, 0, 0};
	for (size_t i = 0; i + 1 < r1; i++) for (size_t j = 0; j + 1 < r2; j++) for (int k = 0; k < 2; k++) {
		size_t id[3] = {i * r2 + j, k == 0 ? (i + 1) * r2 + j : i * r2 + j + 1, (i + 1) * r2 + j + 1};
		Tri a, b; bool same = true;
		for (int q = 0; q < 3; q++) { a.u[q] = U[id[q]]; a.v[q] = V[id[q]]; b.u[q] = o[0][id[q]]; b.v[q] = o[1][id[q]]; same &= U[id[q]] == o[0][id[q]] && V[id[q]] == o[1][id[q]]; }
		if (!same) changed++;
		int ha = tri_has(a, opt.tol, opt.cell), hb = tri_has(b, opt.tol, opt.cell);
		if (ha < 0 || hb < 0) unclear++;
		else judged++;
		if (ha == 1) withcp++;
		if (ha >= 0 && hb >= 0 && ha != hb) {
			c.fail("triangle (%zu,%zu,%d): critical point %s: original (%.9Lg,%.9Lg)(%.9Lg,%.9Lg)(%.9Lg,%.9Lg) decompressed (%.9Lg,%.9Lg)(%.9Lg,%.9Lg)(%.9Lg,%.9Lg)", i, j, k, ha ? "lost" : "created",
				a.u[0], a.v[0], a.u[1], a.v[1], a.u[2], a.v[2], b.u[0], b.v[0], b.u[1], b.v[1], b.u[2], b.v[2]);
			return;
		}
		if (ha == 1 && opt.exact_vertices && !same) {
			c.fail("triangle (%zu,%zu,%d) contains a critical point but its vertices changed: (%.9Lg,%.9Lg)(%.9Lg,%.9Lg)(%.9Lg,%.9Lg) -> (%.9Lg,%.9Lg)(%.9Lg,%.9Lg)(%.9Lg,%.9Lg)", i, j, k,
				a.u[0], a.v[0], a.u[1], a.v[1], a.u[2], a.v[2], b.u[0], b.v[0], b.u[1], b.v[1], b.u[2], b.v[2]);
			return;
		}
		if (opt.types && ha == 1 && hb == 1) {
			Type ta = tri_type(a, X[k], Y[k], opt.tol), tb = tri_type(b, X[k], Y[k], opt.tol);
			auto bad = [&](int x, int y) { return x != 2 && y != 2 && x != y; };
			bool b1 = bad(ta.det, tb.det), b2 = ta.det == 1 && tb.det == 1 && (bad(ta.delta, tb.delta) || bad(ta.trace, tb.trace));
			if (ta.det != 2 && tb.det != 2) { typed++; types[ta.det == -1 ? 0 : ta.delta == 2 || ta.trace == 2 ? 4 : ta.delta == 1 ? 1 : ta.trace == 1 ? 2 : 3]++; }
			if (b1 || b2) {
				c.fail("triangle (%zu,%zu,%d): type of the critical point changed (det %d->%d, discriminant %d->%d, trace %d->%d): original (%.9Lg,%.9Lg)(%.9Lg,%.9Lg)(%.9Lg,%.9Lg) decompressed (%.9Lg,%.9Lg)(%.9Lg,%.9Lg)(%.9Lg,%.9Lg)", i, j, k, ta.det, tb.det, ta.delta, tb.delta, ta.trace, tb.trace,
					a.u[0], a.v[0], a.u[1], a.v[1], a.u[2], a.v[2], b.u[0], b.v[0], b.u[1], b.v[1], b.u[2], b.v[2]);
				return;
			}
		}
	}
	c.c("triangles_judged", judged); c.c("triangles_unclear", unclear); c.c("triangles_with_cp", withcp); c.c("triangles_changed", changed);
	if (opt.types) { c.c("types_judged", typed); c.c("saddles", types[0]); c.c("nodes", types[1]); c.c("repelling_foci", types[2]); c.c("attracting_foci", types[3]); }
	if (judged && changed) c.nontrivial = true;
	c.mix(o[0].data(), o[0].size() * sizeof(T)); c.mix(o[1].data(), o[1].size() * sizeof(T));
}

// ---- bilinear cells
struct Roots { int n; bool clear; int type[2]; };  // type: -1 saddle, 1 otherwise-unclear, 2 rep node,3 att node,4 rep focus,5 att focus
static Roots bil_roots(const L u[4], const L v[4], L m, L tol) { // order 00,10,11,01 in (x,y)
	Roots r; r.n = 0; r.clear = true;
	// all corners of one component on one side: no root inside, whatever the other does
	auto oneside = [&](const L w[4]) { int s = 0; L mx = 0; for (int k = 0; k < 4; k++) { s += w[k] > 0 ? 1 : w[k] < 0 ? -1 : 0; mx = max(mx, fabsl(w[k])); } return abs(s) == 4; };
	if (oneside(u) || oneside(v)) return r;
	L a0 = u[0], a1 = u[1] - u[0], a2 = u[3] - u[0], a3 = u[0] - u[1] + u[2] - u[3];
	L b0 = v[0], b1 = v[1] - v[0], b2 = v[3] - v[0], b3 = v[0] - v[1] + v[2] - v[3];
	L A = b1 * a3 - b3 * a1, B = b0 * a3 + b1 * a2 - b2 * a1 - b3 * a0, C = b0 * a2 - b2 * a0;
	L sA = fabsl(b1 * a3) + fabsl(b3 * a1), sB = fabsl(b0 * a3) + fabsl(b1 * a2) + fabsl(b2 * a1) + fabsl(b3 * a0), sC = fabsl(b0 * a2) + fabsl(b2 * a0);
	L d = B * B - 4 * A * C;
	int ds = clear_sign(d, sB * sB + 4 * sA * sC, tol);
	if (ds == 2) { r.clear = false; return r; }
	if (ds < 0) return r;
	L q = -0.5L * (B + (B >= 0 ? 1 : -1) * sqrtl(d));
	L xs[2]; int nx = 0;
	if (q != 0) xs[nx++] = C / q;
	if (fabsl(A) > 0) xs[nx++] = q / A;
	for (int k = 0; k < nx; k++) {
		L x = xs[k];
		if (!(x > -m && x < 1 + m)) continue;
		L da = a2 + a3 * x, db = b2 + b3 * x, na = -(a0 + a1 * x), nb = -(b0 + b1 * x);
		L sa = (fabsl(u[0]) + fabsl(u[1]) + fabsl(u[2]) + fabsl(u[3])), sb = (fabsl(v[0]) + fabsl(v[1]) + fabsl(v[2]) + fabsl(v[3]));
		if (fabsl(da) < 1e-3L * sa && fabsl(db) < 1e-3L * sb) { r.clear = false; return r; }
		L y = fabsl(da) / sa > fabsl(db) / sb ? na / da : nb / db;
		bool xin = x > m && x < 1 - m, yin = y > m && y < 1 - m, yout = !(y > -m && y < 1 + m);
		if (yout) continue;
		if (!xin || !yin) { r.clear = false; return r; }
		L ux = a1 + a3 * y, uy = a2 + a3 * x, vx = b1 + b3 * y, vy = b2 + b3 * x;
		L det = ux * vy - uy * vx, tr = ux + vy;
		L sdet = 2 * sa * sb, str = sa + sb; // magnitudes before cancellation
		int s1 = clear_sign(det, sdet, 100 * tol), s2 = clear_sign(tr * tr - 4 * det, str * str + 4 * sdet, 100 * tol), s3 = clear_sign(tr, str, 100 * tol);
		r.type[r.n++] = s1 == -1 ? -1 : (s1 == 2 || s2 == 2 || s3 == 2) ? 1 : s2 == 1 ? (s3 == 1 ? 2 : 3) : (s3 == 1 ? 4 : 5);
		if (r.n == 2) break;
	}
	return r;
}
template <class T> static void mon_bilinear(Ctx& c, const Prob<T>& p, const vector<vector<T> >& o, double tol, bool types) {
	size_t r1 = p.s.r1, r2 = p.s.r2; long judged = 0, unclear = 0, with[3] = {0, 0, 0}, typed = 0;
	for (size_t i = 0; i + 1 < r1; i++) for (size_t j = 0; j + 1 < r2; j++) {
		size_t id[4] = {i * r2 + j, i * r2 + j + 1, (i + 1) * r2 + j + 1, (i + 1) * r2 + j};
		L a[2][4], b[2][4];
		for (int q = 0; q < 4; q++) for (int w = 0; w < 2; w++) { a[w][q] = p.c[w][id[q]]; b[w][q] = o[w][id[q]]; }
		Roots ra = bil_roots(a[0], a[1], 1e-3L, tol), rb = bil_roots(b[0], b[1], 1e-3L, tol);
		if (!ra.clear || !rb.clear) { unclear++; continue; }
		judged++; with[ra.n]++;
		bool bad = ra.n != rb.n, tb = false;
		if (!bad && types) {
			if (ra.n == 1) { tb = ra.type[0] != 1 && rb.type[0] != 1 && ra.type[0] != rb.type[0]; typed++; }
			else if (ra.n == 2) { int x = min(ra.type[0], ra.type[1]), y = max(ra.type[0], ra.type[1]), x2 = min(rb.type[0], rb.type[1]), y2 = max(rb.type[0], rb.type[1]); tb = x != 1 && y != 1 && x2 != 1 && y2 != 1 && (x != x2 || y != y2); typed++; }
		}
		if (bad || tb) {
			c.fail("cell (%zu,%zu): %s: %d critical point(s) of type %d before, %d of type %d after; u %.9Lg %.9Lg %.9Lg %.9Lg v %.9Lg %.9Lg %.9Lg %.9Lg -> u %.9Lg %.9Lg %.9Lg %.9Lg v %.9Lg %.9Lg %.9Lg %.9Lg", i, j, bad ? "number of critical points changed" : "type changed", ra.n, ra.n ? ra.type[0] : 0, rb.n, rb.n ? rb.type[0] : 0,
				a[0][0], a[0][1], a[0][2], a[0][3], a[1][0], a[1][1], a[1][2], a[1][3], b[0][0], b[0][1], b[0][2], b[0][3], b[1][0], b[1][1], b[1][2], b[1][3]);
			return;
		}
	}
	c.c("cells_judged", judged); c.c("cells_unclear", unclear); c.c("cells_with_1_cp", with[1]); c.c("cells_with_2_cp", with[2]); c.c("types_judged", typed);
	if (judged) c.nontrivial = true;
	c.mix(o[0].data(), o[0].size() * sizeof(T));
}

// ---- tetrahedra
static int tet_has(const L f[4][3], L tol) {
	int s[4];
	for (int k = 0; k < 4; k++) {
		const L* r[3]; int m = 0;
		for (int q = 0; q < 4; q++) if (q != k) r[m++] = f[q];
		L t = 0, sa = 0;
		static const int P[6][4] = {{0, 1, 2, 1}, {1, 2, 0, 1}, {2, 0, 1, 1}, {0, 2, 1, -1}, {2, 1, 0, -1}, {1, 0, 2, -1}};
		for (auto& w : P) { L x = r[0][w[0]] * r[1][w[1]] * r[2][w[2]] * w[3]; t += x; sa += fabsl(x); }
		s[k] = clear_sign(t, sa, tol);
		if (s[k] != 2 && (k & 1)) s[k] = -s[k];
	}
	bool pos = false, neg = false, unk = false;
	for (int x : s) { pos |= x == 1; neg |= x == -1; unk |= x == 2; }
	if (pos && neg) return 0;
	return unk ? separated<3>({{f[0][0], f[0][1], f[0][2]}, {f[1][0], f[1][1], f[1][2]}, {f[2][0], f[2][1], f[2][2]}, {f[3][0], f[3][1], f[3][2]}}, tol) ? 0 : -1 : 1;
}
struct TetCount { long judged = 0, unclear = 0, with = 0, changed = 0; };
template <class T, class G> static bool mon_tet(Ctx& c, TetCount& n, const int id[4], G get, double tol, bool exact, const char* where) {
	L a[4][3], b[4][3]; bool same = true;
	for (int q = 0; q < 4; q++) for (int w = 0; w < 3; w++) { T x, y; get(id[q], w, x, y); a[q][w] = x; b[q][w] = y; same &= x == y; }
	if (!same) n.changed++;
	int ha = tet_has(a, tol), hb = tet_has(b, tol);
	if (ha < 0 || hb < 0) n.unclear++; else n.judged++;
	if (ha == 1) n.with++;
	bool diff = ha >= 0 && hb >= 0 && ha != hb;
	if (diff || (exact && ha == 1 && !same)) {
		string t; char s[200];
		for (int q = 0; q < 4; q++) { snprintf(s, sizeof s, "(%.7Lg,%.7Lg,%.7Lg)->(%.7Lg,%.7Lg,%.7Lg) ", a[q][0], a[q][1], a[q][2], b[q][0], b[q][1], b[q][2]); t += s; }
		c.fail("tetrahedron %s vertices %d,%d,%d,%d: %s: %s", where, id[0], id[1], id[2], id[3], diff ? (ha ? "critical point lost" : "critical point created") : "contains a critical point but its vertices changed", t.c_str());
		return false;
	}
	return true;
}
static void tet_fin(Ctx& c, const TetCount& n) { c.c("tets_judged", n.judged); c.c("tets_unclear", n.unclear); c.c("tets_with_cp", n.with); c.c("tets_changed", n.changed); if (n.judged && n.changed) c.nontrivial = true; }
template <class T> static void mon_cp3(Ctx& c, const Prob<T>& p, const vector<vector<T> >& o, double tol) {
	static const int T6[6][4] = {{0, 1, 3, 7}, {0, 2, 3, 7}, {0, 1, 5, 7}, {0, 4, 5, 7}, {0, 2, 6, 7}, {0, 4, 6, 7}}; // bits: z y x
	TetCount n; const Shape& s = p.s;
	for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) for (size_t k = 0; k + 1 < s.r3; k++) for (int q = 0; q < 6; q++) {
		int id[4]; for (int a = 0; a < 4; a++) { int b = T6[q][a]; id[a] = (int)(((i + (b >> 2 & 1)) * s.r2 + j + (b >> 1 & 1)) * s.r3 + k + (b & 1)); }
		char w[60]; snprintf(w, sizeof w, "(%zu,%zu,%zu,%d)", i, j, k, q);
		if (!mon_tet<T>(c, n, id, [&](int v, int d, T& x, T& y) { x = p.c[d][v]; y = o[d][v]; }, tol, false, w)) return;
	}
	tet_fin(c, n);
	for (auto& v : o) c.mix(v.data(), v.size() * sizeof(T));
}
template <class T> static void mon_cpu(Ctx& c, const Prob<T>& p, const vector<vector<T> >& o, double tol) {
	TetCount n;
	for (size_t q = 0; q < p.tets.size() / 4; q++) {
		char w[30]; snprintf(w, sizeof w, "%zu", q);
		if (!mon_tet<T>(c, n, &p.tets[4 * q], [&](int v, int d, T& x, T& y) { x = p.c[0][3 * v + d]; y = o[0][3 * v + d]; }, tol, false, w)) return;
	}
	tet_fin(c, n);
}

template <class T> static double cp_tol(K k) { bool f = sizeof(T) == 4; return k_log(k) ? (f ? 2e-5 : 1e-12) : (f ? 1e-6 : 1e-13); }

template <class T> static void run_cp(Ctx& c, K k) {
	Prob<T> p = gen_problem<T>(c, k, k_is3(k) ? 3000 : 2500, true);
	if (c.rng.p(0.2)) { // vectors that vanish (masked land, isolated points, single components)
		Rng& g = c.rng; double q = g.logu(0.003, 0.5); int m = (int)g.i(0, 2); c.d("+zeroed(%d,%.3g)", m, q);
		const size_t nc = k == K3_UNSTRUCT ? 1 : p.c.size(); size_t run = 0;
		for (size_t i = 0; i < p.n(); i++) {
			if (m == 2) { if (run) run--; else if (g.p(q / 8)) run = g.i(1, 30); }
			bool z = m == 2 ? run > 0 : g.p(q);
			if (z) for (size_t w = 0; w < nc; w++) if (m != 1 || g.p(0.5)) p.c[w][i] = 0;
		}
	}
	vector<vector<T> > o;
	if (!round_trip(c, k, p, o)) return;
	if (k == K3_UNSTRUCT) { mon_cpu(c, p, o, cp_tol<T>(k)); return; }
	if (k_nc(k) == 3) { mon_cp3(c, p, o, cp_tol<T>(k)); return; }
	if (k == K_BILINEAR) { mon_bilinear(c, p, o, cp_tol<T>(k), true); return; }
	CpOpt op; op.cell = k == K_RELAX; op.tol = op.cell ? 1e-12 : cp_tol<T>(k); op.exact_vertices = k == K_ABS || k == K_SZ3 || k == K_RELAX; op.types = !op.exact_vertices;
	mon_cp2(c, p, o, op);
}
static void pick_cp(Ctx& c, initializer_list<K> ks) {
	K k = *(ks.begin() + c.id % ks.size());
	if ((c.id / ks.size()) % 5 < 3) run_cp<float>(c, k); else run_cp<double>(c, k);
}
void p_c10(Ctx& c) { pick_cp(c, {K_ABS, K_SZ3}); }
void p_c11(Ctx& c) { pick_cp(c, {K_OFFLINE, K_ONLINE, K_OFFLINE_LOG, K_ONLINE_LOG}); }
void p_c12(Ctx& c) { pick_cp(c, {K_RELAX}); }
#include "regress13.hpp"
void p_c13(Ctx& c) {
	if (c.id == 5) { // recorded defect
		Prob<double> p; p.s.r1 = R13_R1; p.s.r2 = R13_R2; p.eb = R13_EB; vector<vector<double> > o;
		p.c = {vector<double>(R13_U, R13_U + p.n()), vector<double>(R13_V, R13_V + p.n())};
		c.d("recorded field");
		if (round_trip(c, K_BILINEAR, p, o)) mon_bilinear(c, p, o, cp_tol<double>(K_BILINEAR), true);
		return;
	}
	pick_cp(c, {K_BILINEAR});
}
void p_c15(Ctx& c) { pick_cp(c, {K3_OFFLINE_LOG, K3_ONLINE_LOG, K3_ABS}); }
template <class T> static void c16(Ctx& c) {
	bool gp = c.rng.p(0.6);
	Prob<T> p = gen_problem<T>(c, K3_UNSTRUCT, 600, gp);
	vector<vector<T> > o;
	if (!round_trip(c, K3_UNSTRUCT, p, o)) return;
	mon_bounds(c, K3_UNSTRUCT, p, o);
	if (c.ok() && gp) mon_cpu(c, p, o, cp_tol<T>(K3_UNSTRUCT));
}
void p_c16(Ctx& c) { if (c.id % 5 < 3) c16<float>(c); else c16<double>(c); }
