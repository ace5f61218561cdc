#include "h.hpp"
using namespace std;

Shape gen_shape2(Rng& g, size_t maxn) {
	Shape s;
	static const int64_t P2[] = {2, 4, 8, 16, 32, 64, 128, 256, 512};
	if (g.p(0.05)) { s.r1 = P2[g.i(0, 8)] + g.i(-1, 1); s.r2 = P2[g.i(0, 8)] + g.i(-1, 1); if (g.p(0.2)) s.r1 = s.r2 = P2[g.i(0, 5)] + g.i(0, 1); }
	else switch (g.i(0, 9)) {
	case 0: s.r1 = 1; s.r2 = g.i(1, 400); break;                 // one row
	case 1: s.r1 = g.i(1, 400); s.r2 = 1; break;                 // one column
	case 2: s.r1 = g.i(1, 4); s.r2 = g.i(1, 4); break;           // tiny
	case 3: s.r1 = 12 * g.i(1, 4); s.r2 = 12 * g.i(1, 4); break; // whole blocks
	case 4: s.r1 = 12 * g.i(1, 4) + g.i(0, 1) * 2 - 1; s.r2 = 12 * g.i(1, 4) + g.i(0, 1) * 2 - 1; break;
	case 5: s.r1 = g.i(2, 9); s.r2 = g.i(20, 200); break;
	case 6: s.r1 = g.i(20, 200); s.r2 = g.i(2, 9); break;
	default: s.r1 = g.i(2, 60); s.r2 = g.i(2, 60); break;
	}
	while (s.n() > maxn) { if (s.r1 > s.r2) s.r1 = (s.r1 + 1) / 2; else s.r2 = (s.r2 + 1) / 2; }
	return s;
}
Shape gen_shape3(Rng& g, size_t maxn) {
	Shape s;
	switch (g.i(0, 9)) {
	case 0: s.r1 = 1; s.r2 = g.i(1, 40); s.r3 = g.i(1, 40); break;
	case 1: s.r1 = g.i(1, 40); s.r2 = 1; s.r3 = g.i(1, 40); break;
	case 2: s.r1 = g.i(1, 40); s.r2 = g.i(1, 40); s.r3 = 1; break;
	case 3: s.r1 = g.i(1, 4); s.r2 = g.i(1, 4); s.r3 = g.i(1, 4); break;
	case 4: { size_t v[3] = {1, 1, 1}; v[g.i(0, 2)] = g.i(1, 500); s.r1 = v[0]; s.r2 = v[1]; s.r3 = v[2]; break; }
	case 5: s.r1 = 8 * g.i(1, 3); s.r2 = 8 * g.i(1, 3); s.r3 = 8 * g.i(1, 3); break;
	case 6: s.r1 = 6 * g.i(1, 3) + g.i(-1, 1); s.r2 = 6 * g.i(1, 3) + g.i(-1, 1); s.r3 = 6 * g.i(1, 3) + g.i(-1, 1); break;
	default: s.r1 = g.i(2, 22); s.r2 = g.i(2, 22); s.r3 = g.i(2, 22); break;
	}
	while (s.n() > maxn) {
		if (s.r1 >= s.r2 && s.r1 >= s.r3) s.r1 = (s.r1 + 1) / 2;
		else if (s.r2 >= s.r3) s.r2 = (s.r2 + 1) / 2;
		else s.r3 = (s.r3 + 1) / 2;
	}
	return s;
}

// now and then a large array: bugs may need more elements, blocks or symbols than small arrays have
static size_t big_n(Rng& g) { return (size_t)(g.p(0.15) ? g.logu(1.5e5, 9e5) : g.logu(8e3, 1.5e5)); }
Shape gen_big2(Rng& g) {
	if (g.p(0.12)) { Shape s; s.r1 = (size_t)g.logu(2e4, 1.5e5); s.r2 = g.i(1, 4); if (g.p(0.5)) swap(s.r1, s.r2); return s; }   // very long and thin
	Shape s; double n = (double)big_n(g), a = g.p(0.2) ? g.logu(1e-3, 1e3) : g.logu(0.1, 10);
	s.r1 = max<size_t>(1, (size_t)sqrt(n * a)); s.r2 = max<size_t>(1, (size_t)(n / s.r1));
	return s;
}
Shape gen_big3(Rng& g) {
	if (g.p(0.12)) { size_t v[3] = {(size_t)g.logu(2e4, 1.2e5), (size_t)g.i(1, 3), (size_t)g.i(1, 3)}; int k = g.i(0, 2); swap(v[0], v[k]); Shape s; s.r1 = v[0]; s.r2 = v[1]; s.r3 = v[2]; return s; }
	if (g.p(0.07)) { Shape s; s.r2 = g.i(200, 400); s.r3 = (size_t)g.i(66000, 90000) / s.r2 + 1; s.r1 = g.i(2, 3); if (g.p(0.3)) swap(s.r1, s.r3); return s; }   // slices of more than 65536 values
	Shape s; double n = (double)big_n(g), e = cbrt(n);
	s.r1 = max<size_t>(1, (size_t)(e * g.logu(0.3, 3))); s.r2 = max<size_t>(1, (size_t)(e * g.logu(0.3, 3))); s.r3 = max<size_t>(1, (size_t)(n / s.r1 / s.r2));
	return s;
}

namespace {
struct Wave { double k[3], ph, a; };
vector<Wave> waves(Rng& g, int n, double fmax) {
	vector<Wave> w(n);
	for (auto& x : w) { for (int d = 0; d < 3; d++) x.k[d] = g.r(-fmax, fmax); x.ph = g.r(0, 6.2832); x.a = g.r(0.2, 1); }
	return w;
}
double wv(const vector<Wave>& w, double x, double y, double z) {
	double t = 0;
	for (auto& q : w) t += q.a * sin(q.k[0] * x + q.k[1] * y + q.k[2] * z + q.ph);
	return t;
}
template <class F> vector<double> fill(const Shape& s, F f) {
	vector<double> v(s.n());
	size_t p = 0;
	for (size_t i = 0; i < s.r1; i++) for (size_t j = 0; j < s.r2; j++) for (size_t k = 0; k < s.r3; k++) v[p++] = f((double)i, (double)j, (double)k);
	return v;
}
double sgnr(Rng& g) { return g.p(0.5) ? 1 : -1; }
}

vector<double> gen_scalar(Rng& g, const Shape& s, string& what, int kind) {
	if (kind < 0) kind = (int)g.i(0, 17);
	auto w = waves(g, (int)g.i(1, 6), g.p(0.5) ? 0.25 : g.r(0.02, 3));
	vector<double> v;
	double sc = g.p(0.4) ? 1.0 : pow(10, g.r(-6, 6));
	switch (kind) {
	case 0: what = "smooth"; v = fill(s, [&](double x, double y, double z) { return wv(w, x, y, z); }); break;
	case 1: { what = "ramp+noise"; double a = g.r(-1, 1), b = g.r(-1, 1), c = g.r(-1, 1), e = g.logu(1e-6, 1); v = fill(s, [&](double x, double y, double z) { return a * x + b * y + c * z + e * g.r(-1, 1); }); break; }
	case 2: { what = "constant"; double a = g.r(-3, 3); v = fill(s, [&](double, double, double) { return a; }); break; }
	case 3: what = "zero"; v.assign(s.n(), 0); break;
	case 4: what = "noise"; v = fill(s, [&](double, double, double) { return g.r(-1, 1); }); break;
	case 5: { what = "hugerange"; double E = g.r(5, 28); v = fill(s, [&](double, double, double) { return sgnr(g) * pow(10, g.r(-E, E)); }); sc = 1; break; }
	case 6: { what = "dominated"; double a = g.r(-3, 3), q = g.r(0.5, 0.999); v = fill(s, [&](double x, double y, double z) { return g.p(q) ? a : a + wv(w, x, y, z); }); break; }
	case 7: { what = "step"; double t = g.r(0, s.r1 + s.r2 + s.r3), h = g.logu(0.1, 1e6); v = fill(s, [&](double x, double y, double z) { return (x + y + z < t ? 0 : h) + 0.1 * wv(w, x, y, z); }); break; }
	case 8: { what = "smooth+spikes"; double h = g.logu(10, 1e9), q = g.logu(0.002, 0.3); v = fill(s, [&](double x, double y, double z) { return wv(w, x, y, z) + (g.p(q) ? h * g.r(-1, 1) : 0); }); break; }
	case 9: { what = "integers"; int m = (int)g.i(1, 50); v = fill(s, [&](double, double, double) { return (double)g.i(-m, m); }); break; }
	case 10: { what = "masked"; double t = g.r(-1, 1); v = fill(s, [&](double x, double y, double z) { double q = wv(w, x, y, z); return q < t ? 0.0 : q; }); break; }
	case 11: { what = "tiny"; double e = pow(10, g.r(-44, -30)); v = fill(s, [&](double x, double y, double z) { return e * wv(w, x, y, z); }); sc = 1; break; }
	case 12: { what = "huge"; double e = pow(10, g.r(30, 38)); v = fill(s, [&](double x, double y, double z) { return e * wv(w, x, y, z); }); sc = 1; break; }
	case 13: { what = "checker"; double a = g.r(0, 2); v = fill(s, [&](double x, double y, double z) { return (((int)(x + y + z)) & 1 ? 1 : -1) * a + 0.01 * g.n(); }); break; }
	case 14: { what = "walk"; double t = 0; v = fill(s, [&](double, double, double) { return t += g.n() * 0.1; }); break; }
	case 15: { what = "quadratic"; double a = g.r(-1, 1), b = g.r(-1, 1), c = g.r(-1, 1); v = fill(s, [&](double x, double y, double z) { return a * x * x + b * y * y + c * z * z + x * y * 0.3; }); break; }
	case 16: { what = "planes"; double a = g.r(-5, 5), b = g.r(-5, 5), c = g.r(-5, 5), o = g.r(-100, 100), e = g.logu(1e-9, 1e-2); v = fill(s, [&](double x, double y, double z) { double bx = floor(x / 8), by = floor(y / 8); return o + a * x + b * y + c * z + 50 * sin(3 * bx + 5 * by) + e * g.n(); }); break; }
	default: { what = "offset"; double o = g.logu(10, 1e7) * sgnr(g); v = fill(s, [&](double x, double y, double z) { return o + wv(w, x, y, z); }); break; }
	}
	for (auto& x : v) x *= sc;
	if (g.p(0.1)) { what += "+zeros"; for (auto& x : v) if (g.p(0.1)) x = g.p(0.5) ? 0.0 : -0.0; }
	if (g.p(0.07) && v.size() > 4) { what += "+regionswitch"; string t; auto q = gen_scalar(g, s, t, (int)g.i(0, 10)); size_t cut = g.i(0, v.size() - 1); for (size_t i = cut; i < v.size(); i++) v[i] = q[i]; }
	return v;
}

vector<double> gen_scalar_rel(Rng& g, const Shape& s, string& what, bool zeros) {
	static const int ks[] = {0, 1, 2, 4, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 5};
	int k = ks[g.i(0, 14)];
	vector<double> v;
	if (k == 5) { double E = g.r(1, 17); what = "relrange"; v = fill(s, [&](double, double, double) { return sgnr(g) * pow(10, g.r(-E, E)); }); }
	else v = gen_scalar(g, s, what, k);
	if (g.p(0.3)) { what += "+onesign"; double f = sgnr(g); for (auto& x : v) x = f * fabs(x); }
	if (zeros && g.p(0.4)) { what += "+zeroset"; double q = g.logu(0.005, 1.0); for (auto& x : v) if (g.p(q)) x = g.p(0.9) ? 0.0 : -0.0; }
	if (zeros && g.p(0.1) && v.size()) { what += "+zerofirst"; v[0] = 0; }
	const double lo = ldexp(1, -60), hi = ldexp(1, 60);
	for (auto& x : v) {
		if (x == 0) { if (!zeros) x = lo * g.r(1, 2); continue; }
		if (fabs(x) < lo) x = zeros && g.p(0.5) ? 0.0 : copysign(lo * g.r(1, 2), x);
		if (fabs(x) > hi) x = copysign(hi * g.r(0.5, 1), x);
	}
	return v;
}

vector<vector<double> > gen_vector(Rng& g, const Shape& s, int nc, string& what, bool gp) {
	vector<vector<double> > o(nc);
	int kind = (int)g.i(0, 16);
	double fm = g.r(0.05, 1.6);
	switch (kind) {
	case 0: case 1: case 2: {
		what = "waves";
		for (int c = 0; c < nc; c++) { auto w = waves(g, (int)g.i(1, 5), fm); double off = g.p(0.3) ? g.r(-1, 1) : 0; o[c] = fill(s, [&](double x, double y, double z) { return off + wv(w, x, y, z); }); }
		break; }
	case 3: what = "noise"; for (int c = 0; c < nc; c++) o[c] = fill(s, [&](double, double, double) { return g.r(-1, 1); }); break;
	case 4: { // linear field with a planted zero: saddle / node / focus / centre
		what = "linear"; double A[3][3]; for (auto& q : A) for (double& x : q) x = g.r(-1, 1);
		if (g.p(0.3)) { A[0][1] = -A[1][0]; A[0][0] = A[1][1] = g.p(0.5) ? 1e-3 : 0.2; }
		double cx = g.r(0, s.r1), cy = g.r(0, s.r2), cz = g.r(0, s.r3);
		if (g.p(0.4)) { // without rounding: the same differences in every cell
			what = "exactlinear"; for (auto& q : A) for (double& x : q) { x = ldexp(floor(x * 16), -4); if (x == 0) x = 0.0625; }
			cx = floor(cx) + ldexp((double)g.i(1, 15), -4); cy = floor(cy) + ldexp((double)g.i(1, 15), -4); cz = floor(cz) + ldexp((double)g.i(1, 15), -4);
		}
		for (int c = 0; c < nc; c++) o[c] = fill(s, [&](double x, double y, double z) { return A[c][0] * (x - cx) + A[c][1] * (y - cy) + (nc > 2 ? A[c][2] * (z - cz) : 0); });
		if (g.p(0.3)) { what += "+tiny"; double e = g.logu(1e-17, 1e-6); for (auto& q : o) for (double& x : q) x += e * g.r(-1, 1); }
		break; }
	case 5: { // vortices
		what = "vortices"; int m = (int)g.i(1, 6); vector<array<double, 5> > vx(m);
		for (auto& q : vx) q = {g.r(0, s.r1), g.r(0, s.r2), g.r(-1, 1), g.r(-1, 1), g.logu(1, 20)};
		for (int c = 0; c < nc; c++) o[c] = fill(s, [&](double x, double y, double z) { double t = 0; for (auto& q : vx) { double dx = x - q[0], dy = y - q[1], w = exp(-(dx * dx + dy * dy) / (q[4] * q[4])); t += c == 0 ? (-dy * q[2] + dx * q[3] * 0.3) * w : c == 1 ? (dx * q[2] + dy * q[3] * 0.3) * w : (z - 0.5 * s.r3 + 0.37) * w; } return t + 0.01 * sin(c + x * 0.3 + y * 0.7); });
		break; }
	case 6: { what = "uniform"; for (int c = 0; c < nc; c++) { double off = g.r(3, 6); auto w = waves(g, 2, fm); o[c] = fill(s, [&](double x, double y, double z) { return off + 0.3 * wv(w, x, y, z); }); } break; }
	case 7: { what = "waves+noise"; double e = g.logu(1e-3, 0.5); for (int c = 0; c < nc; c++) { auto w = waves(g, 3, fm); o[c] = fill(s, [&](double x, double y, double z) { return wv(w, x, y, z) + e * g.r(-1, 1); }); } break; }
	case 8: { what = "anisotropic"; for (int c = 0; c < nc; c++) { auto w = waves(g, 3, fm); double a = pow(10, g.r(-4, 4)); o[c] = fill(s, [&](double x, double y, double z) { return a * wv(w, x, y, z); }); } break; }
	case 9: { what = "magvar"; auto m = waves(g, 2, 0.3); for (int c = 0; c < nc; c++) { auto w = waves(g, 3, fm); o[c] = fill(s, [&](double x, double y, double z) { return wv(w, x, y, z) * exp(3 * wv(m, x, y, z)); }); } break; }
	case 10: { what = "lorange"; for (int c = 0; c < nc; c++) o[c] = fill(s, [&](double, double, double) { return sgnr(g) * pow(10, g.r(-3, 3)); }); break; }
	case 11: case 12: { // a linear field of its own in every block, with a zero inside and a Jacobian close to changing its type
		what = "typed"; int b = (int)g.i(2, 8); uint64_t sd = g.next(); double mg = g.logu(1e-3, 1), nz = g.p(0.5) ? 0 : g.logu(1e-4, 0.1);
		for (int c = 0; c < nc; c++) o[c] = fill(s, [&](double x, double y, double z) {
			double bx = floor(x / b), by = floor(y / b), bz = nc > 2 ? floor(z / b) : 0;
			Rng q(sd + ((uint64_t)bx * 1000003 + (uint64_t)by) * 1009 + (uint64_t)bz);
			double A[3][3]; for (auto& r : A) for (double& t : r) t = q.r(-1, 1);
			double e = mg * q.r(-1, 1), d = A[0][0] - A[1][1];
			if (q.p(0.4)) A[1][1] = -A[0][0] + e;                                        // trace near zero
			else if (q.p(0.6)) { if (fabs(A[0][1]) < 0.2) A[0][1] = 0.5; A[1][0] = (-d * d + e) / (4 * A[0][1]); }   // discriminant near zero
			double cx = bx * b + q.r(0, b - 1), cy = by * b + q.r(0, b - 1), cz = bz * b + q.r(0, b - 1), sc = exp(q.r(-2, 2));
			return sc * (A[c][0] * (x - cx) + A[c][1] * (y - cy) + (nc > 2 ? A[c][2] * (z - cz) : 0) + nz * g.r(-1, 1));
		});
		break; }
	case 13: { // one component nearly the same along lines: its differences vanish in the decompressed field
		what = "striped"; int d = (int)g.i(0, nc - 1), ax = (int)g.i(0, 1); double e = g.logu(1e-3, 0.5), m = g.r(0, 2); uint64_t sd = g.next();
		for (int c = 0; c < nc; c++) o[c] = fill(s, [&](double x, double y, double z) {
			if (c != d && nc == 2) return sgnr(g) * pow(10, g.r(-m, m));
			Rng q(sd + (uint64_t)(ax ? x : y) * 1009 + (uint64_t)z + c * 77777); return (q.p(0.5) ? 1 : -1) * pow(10, q.r(-m, m)) * (1 + e * g.r(-1, 1)); });
		break; }
	case 14: { // whole numbers or few directions: parallel vectors, exactly degenerate cells
		what = "lattice"; int m = (int)g.i(1, 6), b = (int)g.i(1, 5); bool dir = g.p(0.4); uint64_t sd = g.next(); auto w = waves(g, 3, fm);
		for (int c = 0; c < nc; c++) { auto wc = waves(g, 2, 0.3); double off = g.p(0.3) ? m + 1 : 0; o[c] = fill(s, [&](double x, double y, double z) {
			Rng q(sd + (uint64_t)(x / b) * 1000003 + (uint64_t)(y / b) * 1009 + (uint64_t)(z / b)); double r[3] = {(double)q.i(-m, m), (double)q.i(-m, m), (double)q.i(-m, m)};
			return dir ? (off + r[c]) * (1 + fabs(wv(w, x, y, z))) : off + floor(m * wv(wc, x, y, z) + 0.5); }); }
		break; }
	case 15: { // every vector on one line (plane) beside the zero vector: no cell has a critical point, every cell is degenerate
		what = "coplanar"; double P[3], d1[3], d2[3]; for (int c = 0; c < 3; c++) { P[c] = g.i(-4, 4); d1[c] = g.i(-3, 3); d2[c] = nc > 2 ? g.i(-3, 3) : 0; }
		double m = floor(g.logu(2, 300)), q = g.p(0.6) ? 0 : g.logu(0.01, 0.3); bool smooth = g.p(0.4); auto w1 = waves(g, 2, fm), w2 = waves(g, 2, fm);
		auto a = fill(s, [&](double x, double y, double z) { return smooth ? floor(m * wv(w1, x, y, z)) : (double)g.i(-(int)m, (int)m); });
		auto b = fill(s, [&](double x, double y, double z) { return smooth ? floor(m * wv(w2, x, y, z)) : (double)g.i(-(int)m, (int)m); });
		vector<char> off(a.size()); for (auto& f : off) f = g.p(q);
		for (int c = 0; c < nc; c++) { o[c].resize(a.size()); for (size_t i = 0; i < a.size(); i++) o[c][i] = P[c] + a[i] * d1[c] + b[i] * d2[c] + (off[i] ? m * g.r(-1, 1) : 0); }
		break; }
	default: { what = "block"; int b = (int)g.i(2, 6); for (int c = 0; c < nc; c++) { uint64_t sd = g.next(); o[c] = fill(s, [&](double x, double y, double z) { Rng q(sd + ((uint64_t)(x / b) * 1000003 + (uint64_t)(y / b)) * 1009 + (uint64_t)(z / b)); return q.r(-1, 1) + 0.05 * g.r(-1, 1); }); } break; }
	}
	double sc = g.p(0.5) ? 1 : what == "exactlinear" || what == "lattice" || what == "coplanar" ? ldexp(1, (int)g.i(-12, 12)) : pow(10, g.r(-4, 4));
	for (auto& c : o) for (auto& x : c) x *= sc;
	if (!gp) {
		if (g.p(0.25)) { what += "+zeros"; double q = g.logu(0.01, 0.9); for (auto& c : o) for (auto& x : c) if (g.p(q)) x = 0; }
		if (g.p(0.15)) { what += "+land"; auto w = waves(g, 2, 0.4); double t = g.r(-0.8, 0.8); auto f = fill(s, [&](double x, double y, double z) { return wv(w, x, y, z); }); for (auto& c : o) for (size_t i = 0; i < c.size(); i++) if (f[i] < t) c[i] = 0; }
		if (g.p(0.08)) { what += "+spikes"; double q = g.logu(0.003, 0.2), a = g.logu(10, 1e6); for (size_t i = 0; i < o[0].size(); i++) if (g.p(q)) { double f = a * g.r(0.5, 1.5); for (auto& c : o) c[i] *= f; } }   // unpredictable values amid predictable ones
		if (g.p(0.05)) { what += "+allzero1"; auto& c = o[g.i(0, nc - 1)]; for (auto& x : c) x = 0; }
	} else for (auto& c : o) for (auto& x : c) { if (x == 0) x = sc * 1e-3 * g.r(0.5, 1); }
	return o;
}
