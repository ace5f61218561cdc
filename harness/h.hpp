// Common parts of the cpSZ runtime-monitoring harness: random source, case context, workload fields.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <array>
#include <limits>
#include <algorithm>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }              // [0,1)
	double r(double a, double b) { return a + (b - a) * u(); }
	int64_t i(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); } // inclusive
	bool p(double q) { return u() < q; }
	double logu(double a, double b) { return std::exp(r(std::log(a), std::log(b))); }
	double n() { double t = 0; for (int k = 0; k < 12; k++) t += u(); return t - 6; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[i(0, (int64_t)v.size() - 1)]; }
};

struct Ctx {
	std::string prop; uint64_t seed; long id; std::string tier; bool san;
	Rng rng{1};
	std::string desc;                       // what this case is
	std::string fail_msg;                   // first violation
	std::map<std::string, double> cnt;      // what the monitors observed
	uint64_t sig = 1469598103934665603ull;  // signature of what was observed (distinctness)
	bool nontrivial = false;
	void d(const char* f, ...) __attribute__((format(printf, 2, 3))) {
		char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
		if (!desc.empty()) desc += ' ';
		desc += b;
	}
	void fail(const char* f, ...) __attribute__((format(printf, 2, 3))) {
		if (!fail_msg.empty()) return;
		char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
		fail_msg = b;
	}
	bool ok() const { return fail_msg.empty(); }
	void c(const char* k, double v = 1) { cnt[k] += v; }
	void mx(const char* k, double v) { auto it = cnt.find(k); if (it == cnt.end() || it->second < v) cnt[k] = v; }
	void mix(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t k = 0; k < n; k++) { sig ^= q[k]; sig *= 1099511628211ull; } }
};

void mark_lib(bool inside);           // tells the exit monitor whether library code is running
void quiet_begin(); 

template <class T> struct TN;
template <> struct TN<float> { static const char* n() { return "float"; } };
template <> struct TN<double> { static const char* n() { return "double"; } };

// ---------------------------------------------------------------- shapes
struct Shape { size_t r1 = 1, r2 = 1, r3 = 1; size_t n() const { return r1 * r2 * r3; } };

Shape gen_shape2(Rng& g, size_t maxn);
Shape gen_shape3(Rng& g, size_t maxn);
Shape gen_big2(Rng& g);
Shape gen_big3(Rng& g);
// scalar workload field; kind<0 picks at random
std::vector<double> gen_scalar(Rng& g, const Shape& s, std::string& what, int kind = -1);
// relative-mode workload: magnitudes inside [2^-60,2^60] (or exact zeros)
std::vector<double> gen_scalar_rel(Rng& g, const Shape& s, std::string& what, bool zeros);
// vector workload (nc components) for critical-point codecs
std::vector<std::vector<double> > gen_vector(Rng& g, const Shape& s, int nc, std::string& what, bool general_position);

template <class T> std::vector<T> cast_to(const std::vector<double>& v, bool nonzero = false) {
	std::vector<T> o(v.size());
	for (size_t i = 0; i < v.size(); i++) {
		double x = v[i];
		const double m = std::numeric_limits<T>::max() * 0.49;
		if (x > m) x = m;
		if (x < -m) x = -m;
		o[i] = (T)x;
		if (nonzero && o[i] == 0) o[i] = (T)1e-3;
	}
	return o;
}
#endif
