// Worker process: runs the cases of one property and writes an event log for the driver.
#include "codecs.hpp"
#include "alloc.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <sys/time.h>
#include <sys/resource.h>
#include <ctime>
using namespace std;

static int logfd = -1;
static volatile long cur_case = -1;
static volatile bool done_all = false;
void mark_lib(bool b) { alloc_track(b); }
extern string g_child, g_self, g_scratch; bool g_slow = false;

static void out(const string& s) { size_t p = 0; while (p < s.size()) { ssize_t k = write(logfd, s.data() + p, s.size() - p); if (k <= 0) return; p += k; } }
static void sig_line(char t) { char b[40]; int n = 0; b[n++] = t; b[n++] = ' '; char d[24]; int m = 0; long v = cur_case; do d[m++] = '0' + v % 10; while (v /= 10); while (m) b[n++] = d[--m]; b[n++] = '\n'; if (write(logfd, b, n)) {} }
static void on_prof(int) { sig_line('T'); _exit(77); }
static void at_exit() { if (!done_all) { sig_line('X'); _exit(78); } }
static string clean(string s) { for (char& x : s) if (x == '\n' || x == '\r') x = ' '; return s; }

static uint64_t hash_str(const string& s) { uint64_t h = 1469598103934665603ull; for (char x : s) { h ^= (unsigned char)x; h *= 1099511628211ull; } return h; }

int main(int argc, char** argv) {
	string prop, tier = "quick", logname; uint64_t seed = 1; long worker = 0, of = 1, one = -1, total = -1, start = 0; double deadline = 1e9; long cpu = 30; bool verbose = false;
	for (int i = 1; i < argc; i++) {
		string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
		if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = stoull(nx()); else if (a == "--log") logname = nx();
		else if (a == "--worker") worker = stol(nx()); else if (a == "--of") of = stol(nx()); else if (a == "--case") one = stol(nx()); else if (a == "--start") start = stol(nx());
		else if (a == "--deadline") deadline = stod(nx()); else if (a == "--cpu") cpu = stol(nx()); else if (a == "--total") total = stol(nx()); else if (a == "-v") verbose = true; else if (a == "--slow") g_slow = true; else if (a == "--child") g_child = nx(); else if (a == "--scratch") g_scratch = nx();
		else if (a == "--count") { for (int k = 0; k < NPROPS; k++) if (prop == PROPS[k].id) printf("%ld\n", tier == "quick" ? PROPS[k].quick : PROPS[k].thorough); return 0; }
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	const PropDef* pd = nullptr;
	for (int k = 0; k < NPROPS; k++) if (prop == PROPS[k].id) pd = &PROPS[k];
	if (!pd) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
	if (total < 0) total = tier == "quick" ? pd->quick : pd->thorough;
	logfd = logname.empty() ? dup(1) : open(logname.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
	int nul = open("/dev/null", O_WRONLY);
	if (!verbose) dup2(nul, 1);   // the library prints progress on stdout
	if (!g_scratch.empty()) { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b); if (k > 0) g_self = string(b, k); }
	atexit(at_exit);
	signal(SIGPROF, on_prof);
	time_t t0 = time(nullptr);
	for (long id = one >= 0 ? one : start + worker; one >= 0 ? id == one : id < total; id += of) {
		if (difftime(time(nullptr), t0) > deadline) { out("STOP " + to_string(id) + "\n"); break; }
		cur_case = id; sig_line('B');
		struct itimerval tv = {{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
		Ctx c; c.prop = prop; c.seed = seed; c.id = id; c.tier = tier; c.san = !alloc_active();
		c.rng = Rng(hash_str(prop) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)id * 0xD1B54A32D192ED03ull));
		try { pd->fn(c); } catch (const std::exception& e) { mark_lib(false); c.fail("exception escaped: %s", e.what()); }
		fflush(stdout);
		struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, nullptr);
		string l; char b[64];
		if (!c.ok()) l += "V " + to_string(id) + " " + clean(c.fail_msg) + " | " + clean(c.desc) + "\n";
		snprintf(b, sizeof b, "E %ld %d %016llx ", id, (int)c.nontrivial, (unsigned long long)c.sig); l += b;
		bool first = true;
		for (auto& kv : c.cnt) { snprintf(b, sizeof b, "%s%.44s=%.9g", first ? "" : ",", kv.first.c_str(), kv.second); l += b; first = false; }
		l += " | " + clean(c.desc) + "\n";
		out(l);
	}
	done_all = true;
	out("DONE\n");
	return 0;
}
