// Which workload and monitor decides which property.
#include "codecs.hpp"
using namespace std;
template <class T> static void run_bounds(Ctx& c, K k) {
	Prob<T> p = gen_problem<T>(c, k, k_is3(k) ? 6000 : 4000, false);
	vector<vector<T> > o;
	if (!round_trip(c, k, p, o)) return;
	mon_bounds(c, k, p, o);
}
static void pick_bounds(Ctx& c, initializer_list<K> ks) {
	K k = *(ks.begin() + c.id % ks.size());
	if (!k_double(k) || (c.id / ks.size()) % 5 < 3) run_bounds<float>(c, k); else run_bounds<double>(c, k);
}
static void p_c01(Ctx& c) { pick_bounds(c, {K_2D}); }
static void p_c02(Ctx& c) { pick_bounds(c, {K_2DEB}); }
static void p_c03(Ctx& c) { pick_bounds(c, {K_3D}); }
static void p_c04(Ctx& c) { pick_bounds(c, {K_PWR}); }
static void p_c05(Ctx& c) { pick_bounds(c, {K_PWREB}); }
static void p_c06(Ctx& c) { pick_bounds(c, {K_SZ3}); }
static void p_c07(Ctx& c) { pick_bounds(c, {K_ABS, K_RELAX, K3_ABS}); }
static void p_c08(Ctx& c) { pick_bounds(c, {K_OFFLINE, K_ONLINE}); }
static void p_c09(Ctx& c) { pick_bounds(c, {K_OFFLINE_LOG, K_ONLINE_LOG, K_BILINEAR}); }
static void p_c14(Ctx& c) { pick_bounds(c, {K3_OFFLINE_LOG, K3_ONLINE_LOG}); }
void p_c10(Ctx&); void p_c11(Ctx&); void p_c12(Ctx&); void p_c13(Ctx&); void p_c15(Ctx&); void p_c16(Ctx&); void p_c17(Ctx&); void p_c18(Ctx&); void p_c19(Ctx&); void p_c20(Ctx&); void p_c21(Ctx&); void p_c22(Ctx&); void p_c24(Ctx&);
const PropDef PROPS[] = {
	{"C01", p_c01, 2400, 40000}, {"C02", p_c02, 2400, 40000}, {"C03", p_c03, 2400, 40000}, {"C04", p_c04, 2400, 40000}, {"C05", p_c05, 2400, 40000},
	{"C06", p_c06, 2400, 40000}, {"C07", p_c07, 2400, 40000}, {"C08", p_c08, 2400, 40000}, {"C09", p_c09, 2400, 40000}, {"C10", p_c10, 2400, 40000},
	{"C11", p_c11, 2400, 40000}, {"C12", p_c12, 2400, 40000}, {"C13", p_c13, 2400, 40000}, {"C14", p_c14, 2400, 40000}, {"C15", p_c15, 2400, 40000}, {"C16", p_c16, 2400, 40000},
	{"C17", p_c17, 4000, 60000}, {"C18", p_c18, 1600, 20000}, {"C19", p_c19, 4000, 60000}, {"C20", p_c20, 2400, 40000},
	{"C21", p_c21, 1600, 20000}, {"C22", p_c22, 4000, 40000}, {"C24", p_c24, 1600, 20000},
};
const int NPROPS = sizeof PROPS / sizeof PROPS[0];
