// One interface over every public codec of cpSZ, so that the monitors can be applied to all of them.
#ifndef VERIF_CODECS_HPP
#define VERIF_CODECS_HPP
#include "h.hpp"
#include <cassert>
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
#include "sz_compress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#include "sz_compress_cp_preserve_3d.hpp"
#include "sz_decompress_cp_preserve_3d.hpp"

enum K { K_2D, K_2DEB, K_3D, K_PWR, K_PWREB, K_OFFLINE, K_OFFLINE_LOG, K_ONLINE, K_ABS, K_RELAX, K_ONLINE_LOG, K_BILINEAR, K_SZ3, K3_OFFLINE_LOG, K3_ONLINE_LOG, K3_ABS, K3_UNSTRUCT, K_3DEB, K_COUNT };
static const char* const KN[K_COUNT] = {"abs2d", "abs2d_with_eb", "abs3d", "pwr2d", "pwr2d_with_eb", "cp2d_offline", "cp2d_offline_log", "cp2d_online", "cp2d_online_abs", "cp2d_relax", "cp2d_online_log", "cp2d_bilinear_log", "cp2d_sz3", "cp3d_offline_log", "cp3d_online_log", "cp3d_online_abs", "cp3d_unstructured", "abs3d_with_eb"};
inline bool k_is3(K k) { return k == K_3D || k == K3_OFFLINE_LOG || k == K3_ONLINE_LOG || k == K3_ABS || k == K_3DEB; }
inline bool k_isvec(K k) { return k >= K_OFFLINE && k != K_3DEB; }
inline bool k_decodes(K k) { return k != K_3DEB; }   // the library has no decompressor for that one
inline int k_nc(K k) { return k < K_OFFLINE || k == K_3DEB ? 1 : k >= K3_OFFLINE_LOG ? 3 : 2; }
inline bool k_abs(K k) { return k == K_2D || k == K_2DEB || k == K_3D || k == K_ABS || k == K_RELAX || k == K_SZ3 || k == K3_ABS || k == K_3DEB; }
inline bool k_log(K k) { return k == K_PWR || k == K_PWREB || k == K_OFFLINE_LOG || k == K_ONLINE_LOG || k == K_BILINEAR || k == K3_OFFLINE_LOG || k == K3_ONLINE_LOG || k == K3_UNSTRUCT; }
inline bool k_double(K k) { return !(k == K_2D || k == K_PWR || k == K_PWREB); }   // instantiated for double too

template <class T> struct Prob {
	Shape s; std::vector<std::vector<T> > c; double eb = 0; std::vector<double> ebs; int bs = 0; bool indep = false, tr = false;
	std::vector<int> tets; std::vector<T> pts;
	size_t n() const { return s.n(); }
};

template <class T> struct Only { // float-only entry points
	static unsigned char* c2d(const T*, size_t, size_t, double, size_t&, int, bool) { abort(); }
	static T* d2d(const unsigned char*, size_t, size_t) { abort(); }
	static unsigned char* cp(const T*, size_t, size_t, double, size_t&, int, bool) { abort(); }
	static T* dp(const unsigned char*, size_t, size_t) { abort(); }
	static unsigned char* cpe(const T*, const double*, double**, size_t, size_t, size_t&, int, bool) { abort(); }
	static T* dpe(const unsigned char*, const double*, size_t, size_t) { abort(); }
};
template <> struct Only<float> {
	static unsigned char* c2d(const float* d, size_t a, size_t b, double e, size_t& s, int bs, bool in) { return sz_compress_2d<float>(d, a, b, e, s, bs, in); }
	static float* d2d(const unsigned char* p, size_t a, size_t b) { return sz_decompress_2d<float>(p, a, b); }
	static unsigned char* cp(const float* d, size_t a, size_t b, double e, size_t& s, int bs, bool in) { return sz_compress_2d_pwr<float>(d, a, b, e, s, bs, in); }
	static float* dp(const unsigned char* p, size_t a, size_t b) { return sz_decompress_2d_pwr<float>(p, a, b); }
	static unsigned char* cpe(const float* d, const double* e, double** o, size_t a, size_t b, size_t& s, int bs, bool in) { return sz_compress_2d_pwr_with_eb<float>(d, e, o, a, b, s, bs, in); }
	static float* dpe(const unsigned char* p, const double* e, size_t a, size_t b) { return sz_decompress_2d_pwr_with_eb<float>(p, e, a, b); }
};

// returns a malloc'd blob (caller frees)
template <class T> unsigned char* do_compress(K k, const Prob<T>& p, size_t& sz, std::vector<double>& side) {
	const T* a = p.c[0].data(); const T* b = p.c.size() > 1 ? p.c[1].data() : nullptr; const T* c = p.c.size() > 2 ? p.c[2].data() : nullptr;
	size_t r1 = p.s.r1, r2 = p.s.r2, r3 = p.s.r3;
	sz = 0; side.clear();
	unsigned char* o = nullptr;
	mark_lib(true);
	switch (k) {
	case K_2D: o = Only<T>::c2d(a, r1, r2, p.eb, sz, p.bs ? p.bs : 12, p.indep); break;
	case K_2DEB: o = sz_compress_2d_with_eb<T>(a, p.ebs.data(), r1, r2, sz, p.bs ? p.bs : 12, p.indep); break;
	case K_3D: o = sz_compress_3d<T>(a, r1, r2, r3, p.eb, sz, p.bs ? p.bs : 8, p.indep); break;
	case K_PWR: o = Only<T>::cp(a, r1, r2, p.eb, sz, p.bs ? p.bs : 12, p.indep); break;
	case K_PWREB: { double* le = nullptr; o = Only<T>::cpe(a, p.ebs.data(), &le, r1, r2, sz, p.bs ? p.bs : 12, p.indep); mark_lib(false); side.assign(le, le + p.n()); mark_lib(true); free(le); break; }
	case K_OFFLINE: o = sz_compress_cp_preserve_2d_offline(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_OFFLINE_LOG: o = sz_compress_cp_preserve_2d_offline_log(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_ONLINE: o = sz_compress_cp_preserve_2d_online(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_ABS: o = sz_compress_cp_preserve_2d_online_abs(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_RELAX: o = sz_compress_cp_preserve_2d_online_abs_relax_FN(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_ONLINE_LOG: o = sz_compress_cp_preserve_2d_online_log(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_BILINEAR: o = sz_compress_cp_preserve_2d_bilinear_online_log(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K_SZ3: o = sz3_compress_cp_preserve_2d_online_abs(a, b, r1, r2, sz, p.tr, p.eb); break;
	case K3_OFFLINE_LOG: o = sz_compress_cp_preserve_3d_offline_log(a, b, c, r1, r2, r3, sz, p.tr, p.eb); break;
	case K3_ONLINE_LOG: o = sz_compress_cp_preserve_3d_online_log(a, b, c, r1, r2, r3, sz, p.tr, p.eb); break;
	case K3_ABS: o = sz_compress_cp_preserve_3d_online_abs(a, b, c, r1, r2, r3, sz, p.eb); break;
	case K3_UNSTRUCT: o = sz_compress_cp_preserve_3d_unstructured((int)p.n(), p.pts.data(), a, (int)(p.tets.size() / 4), p.tets.data(), sz, p.eb); break;
	case K_3DEB: o = sz_compress_3d_with_eb<T>(a, p.ebs.data(), r1, r2, r3, sz, p.bs ? p.bs : 8, p.indep); break;
	default: break;
	}
	mark_lib(false);
	return o;
}

// raw pointers returned by the decompressor (nc of them; the unstructured codec interleaves 3 components)
template <class T> void do_decompress_raw(K k, const unsigned char* z, const Prob<T>& p, const std::vector<double>& side, T* o[3], bool reuse = false) {
	size_t r1 = p.s.r1, r2 = p.s.r2, r3 = p.s.r3;
	if (!reuse) o[0] = o[1] = o[2] = nullptr;
	mark_lib(true);
	switch (k) {
	case K_2D: o[0] = Only<T>::d2d(z, r1, r2); break;
	case K_2DEB: o[0] = sz_decompress_2d_with_eb<T>(z, p.ebs.data(), r1, r2); break;
	case K_3D: o[0] = sz_decompress_3d<T>(z, r1, r2, r3); break;
	case K_PWR: o[0] = Only<T>::dp(z, r1, r2); break;
	case K_PWREB: o[0] = Only<T>::dpe(z, side.data(), r1, r2); break;
	case K_OFFLINE: sz_decompress_cp_preserve_2d_offline<T>(z, r1, r2, o[0], o[1]); break;
	case K_OFFLINE_LOG: sz_decompress_cp_preserve_2d_offline_log<T>(z, r1, r2, o[0], o[1]); break;
	case K_ONLINE: case K_ABS: case K_RELAX: sz_decompress_cp_preserve_2d_online<T>(z, r1, r2, o[0], o[1]); break;
	case K_ONLINE_LOG: case K_BILINEAR: sz_decompress_cp_preserve_2d_online_log<T>(z, r1, r2, o[0], o[1]); break;
	case K_SZ3: sz3_decompress_cp_preserve_2d_online<T>(z, r1, r2, o[0], o[1]); break;
	case K3_OFFLINE_LOG: case K3_ONLINE_LOG: sz_decompress_cp_preserve_3d_online_log<T>(z, r1, r2, r3, o[0], o[1], o[2]); break;
	case K3_ABS: sz_decompress_cp_preserve_3d_online_abs<T>(z, r1, r2, r3, o[0], o[1], o[2]); break;
	case K3_UNSTRUCT: sz_decompress_cp_preserve_3d_unstructured<T>(z, (int)p.n(), p.pts.data(), (int)(p.tets.size() / 4), p.tets.data(), o[0]); break;
	default: break;
	}
	mark_lib(false);
}
template <class T> size_t out_len(K k, const Prob<T>& p) { return k == K3_UNSTRUCT ? p.n() * 3 : p.n(); }
inline int out_nc(K k) { return k == K_3DEB ? 0 : k == K3_UNSTRUCT ? 1 : k_nc(k); }
template <class T> void do_decompress(K k, const unsigned char* z, const Prob<T>& p, const std::vector<double>& side, std::vector<std::vector<T> >& out) {
	T* o[3];
	do_decompress_raw(k, z, p, side, o);
	out.assign(out_nc(k), std::vector<T>());
	for (int q = 0; q < out_nc(k); q++) { if (o[q]) out[q].assign(o[q], o[q] + out_len(k, p)); }
	for (int q = 0; q < 3; q++) free(o[q]);
}

// builds a problem for codec k: shape, data, bound
template <class T> Prob<T> gen_problem(Ctx& c, K k, size_t maxn, bool general_position);
bool bound_ok_abs(Ctx& c, const char* what, double x, double y, double eb);

// monitors
template <class T> void mon_abs(Ctx& c, const std::vector<T>& x, const std::vector<T>& y, double eb, const char* comp);
template <class T> void mon_abs_each(Ctx& c, const std::vector<T>& x, const std::vector<T>& y, const std::vector<double>& eb);
template <class T> void mon_rel(Ctx& c, const std::vector<T>& x, const std::vector<T>& y, double e, bool logdom, const char* comp, double ml = -1);
template <class T> void mon_bounds(Ctx& c, K k, const Prob<T>& p, const std::vector<std::vector<T> >& out);
template <class T> bool round_trip(Ctx& c, K k, const Prob<T>& p, std::vector<std::vector<T> >& out, size_t* zsz = nullptr);
template <class T> std::string pdesc(K k, const Prob<T>& p);

typedef void (*CaseFn)(Ctx&);
struct PropDef { const char* id; CaseFn fn; long quick, thorough; };
extern const PropDef PROPS[];
extern const int NPROPS;
#endif
