// Driver: seeded search over plans, gate, minimisation, replay, evidence.
#include "gen.hpp"
#include "world.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using plan::Line;
using plan::Plan;
using std::string;
using std::vector;
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);

static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
template <class T> static T* shared(size_t n = 1) { void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(4); } return (T*)p; }
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); return string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static void spit(const string& f, const string& s) { std::ofstream o(f, std::ios::binary); o << s; }

// ---- one run = one process forked from the pristine template ---------------------------------------
static const size_t TWIN_CAP = 8u << 20, OUT_CAP = 2u << 20;
struct TwinBuf { volatile long n; volatile size_t used; char data[TWIN_CAP]; };
struct Slot { sim::Res res; TwinBuf tw; volatile size_t outLen; char out[OUT_CAP]; };
static Slot* slot; static int errFd = -1;

struct Run { bool bad = false; string cls, detail; uint64_t hash = 0, sched = 0, shape = 0; long twins = 0; sim::Res res; };

static void limits()
{
	struct rlimit l = { 60, 65 };
	setrlimit(RLIMIT_CPU, &l);
	struct rlimit st; // and a small stack, as servers give their threads
	if (!getrlimit(RLIMIT_STACK, &st)) { st.rlim_cur = 1 << 20; setrlimit(RLIMIT_STACK, &st); }
	struct rlimit c = { 0, 0 };
	setrlimit(RLIMIT_CORE, &c);
	alarm(300);
}
static string errText()
{
	char b[6000]; ssize_t n = pread(errFd, b, sizeof b, 0);
	return n > 0 ? string(b, (size_t)n) : string();
}
static string asanClass(const string& e)
{
	size_t p = e.find("ERROR: AddressSanitizer: ");
	if (p != string::npos) { p += 25; size_t q = e.find_first_of(" \n:", p); return "sanitizer:" + e.substr(p, q - p); }
	if (e.find("runtime error:") != string::npos) return "sanitizer:undefined";
	return "";
}
static string excerpt(const string& s) // for the report: whole lines, each cut to a readable length
{
	string o;
	for (size_t i = 0; i < s.size() && o.size() < 4000;) {
		size_t e = std::min(s.find('\n', i), s.size());
		o += e - i > 400 ? s.substr(i, 400) + "..." : s.substr(i, e - i);
		o += '\n'; i = e + 1;
	}
	return o;
}
static string scrub(const string& s) // addresses differ between processes
{
	string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') { o += "0x*"; i += 2; while (i < s.size() && isxdigit((unsigned char)s[i])) ++i; --i; }
		else if (s.compare(i, 2, "==") == 0) { o += "=="; i += 2; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; --i; }
		else o += s[i];
	}
	return o;
}
static int forkRun(const std::function<void()>& body, bool keepOut)
{
	fflush(stdout); fflush(stderr);
	if (ftruncate(errFd, 0)) { }
	lseek(errFd, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(4); }
	if (pid == 0) {
		dup2(errFd, 2);
		if (!keepOut) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); close(z); }
		limits();
		body();
		_exit(98);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); _exit(4); }
	return st;
}
static bool abnormal(int st, Run& r)
{
	string e = errText(), c = asanClass(e);
	if (WIFSIGNALED(st)) { int s = WTERMSIG(st); r.cls = s == SIGXCPU || s == SIGKILL || s == SIGALRM ? "hang" : "crash:signal-" + std::to_string(s); }
	else if (!c.empty()) r.cls = c;
	else r.cls = "exit:" + std::to_string(WEXITSTATUS(st));
	r.bad = true; r.detail = scrub(e).substr(0, 2500);
	if (WIFEXITED(st) && WEXITSTATUS(st) >= 98) { fprintf(stderr, "harness error: %s\n", e.c_str()); }
	return true;
}
static Run runPlan(const Plan& p, bool verbose = false)
{
	Run r;
	memset(&slot->res, 0, sizeof slot->res);
	slot->tw.n = 0; slot->tw.used = 0;
	string prop; for (auto& l : p.l) if (l.kind == "prop") prop = l.get("id");
	bool twins = prop == "C10" || prop == "C11";
	int st = forkRun([&] {
		sim::res = &slot->res;
		sim::logText = verbose;
		static vector<world::Twin> tv;
		if (twins) world::twinSink = &tv;
		world::run(p, [&] {
			// a spread of the recorded operations is repeated alone
			size_t cap = 10, n = tv.size();
			for (size_t k = 0; k < std::min(cap, n); ++k) {
				size_t i = n <= cap ? k : n - 1 - k * n / cap;
				const world::Twin& t = tv[i];
				size_t need = 2 * sizeof(size_t) + t.plan.size() + t.outcome.size();
				if (slot->tw.used + need > TWIN_CAP) continue;
				char* d = slot->tw.data + slot->tw.used;
				size_t a = t.plan.size(), b = t.outcome.size();
				memcpy(d, &a, sizeof a); memcpy(d + sizeof a, &b, sizeof b);
				memcpy(d + 2 * sizeof a, t.plan.data(), a); memcpy(d + 2 * sizeof a + a, t.outcome.data(), b);
				slot->tw.used += need; ++slot->tw.n;
			}
		});
	}, verbose);
	sim::Res& s = slot->res;
	r.hash = s.hash; r.sched = s.sched; r.shape = s.shape;
	if (s.done == 2) { r.bad = true; r.cls = s.cls; r.detail = s.detail; }
	else if (s.done != 1) abnormal(st, r);
	else if (twins) {
		sim::Res keep = s;
		const char* d = slot->tw.data;
		long n = slot->tw.n;
		for (long k = 0; k < n && !r.bad; ++k) {
			size_t a, b; memcpy(&a, d, sizeof a); memcpy(&b, d + sizeof a, sizeof b);
			string tp(d + 2 * sizeof a, a), want(d + 2 * sizeof a + a, b);
			d += 2 * sizeof a + a + b;
			slot->outLen = (size_t)-1;
			memset(&slot->res, 0, sizeof slot->res);
			int st2 = forkRun([&] {
				sim::res = &slot->res;
				string o = world::runSolo(plan::parse(tp));
				size_t m = std::min(o.size(), OUT_CAP);
				memcpy(slot->out, o.data(), m); slot->outLen = m;
				_exit(0);
			}, false);
			++r.twins;
			if (slot->outLen == (size_t)-1) {
				if (slot->res.done == 2) { r.bad = true; r.cls = string("alone:") + slot->res.cls; r.detail = slot->res.detail; }
				else abnormal(st2, r);
				r.detail = "the operation alone: " + r.detail + "\n" + tp;
			} else {
				string o(slot->out, slot->outLen);
				if (o != want.substr(0, OUT_CAP)) {
					r.bad = true; r.cls = "twin-mismatch";
					r.detail = "in this history: " + want.substr(0, 900) + "\n  alone in a new process: " + o.substr(0, 900) + "\n  operation: " + tp.substr(0, 600);
				}
			}
		}
		keep.ctr[sim::C_probe_twins_compared] += r.twins;
		s = keep;
	}
	r.res = s;
	return r;
}

// ---- minimisation ---------------------------------------------------------------------------------------
struct Mini {
	string cls; long budget; double until; long used = 0;
	bool fails(const Plan& p) { if (budget-- <= 0 || wall() > until) return false; ++used; Run r = runPlan(p); return r.bad && r.cls == cls; }
	Plan go(Plan p)
	{
		bool any = true;
		for (int round = 0; any && round < 6 && budget > 0; ++round) {
			any = false;
			for (size_t chunk = std::max<size_t>(1, p.l.size() / 2); ; chunk /= 2) { // lines
				for (size_t i = 0; i < p.l.size();) {
					Plan q; bool cut = false;
					for (size_t k = 0; k < p.l.size(); ++k) if (k >= i && k < i + chunk && p.l[k].kind != "prop") cut = true; else q.l.push_back(p.l[k]);
					if (cut && fails(q)) { p = q; any = true; } else i += chunk;
				}
				if (chunk <= 1) break;
			}
			for (size_t i = 0; i < p.l.size(); ++i) { // keys
				if (p.l[i].kind == "prop") continue;
				for (size_t k = 0; k < p.l[i].kv.size();) {
					Plan q = p; q.l[i].kv.erase(q.l[i].kv.begin() + (long)k);
					string key = p.l[i].kv[k].first;
					if (key != "id" && key != "k" && key != "f" && fails(q)) { p = q; any = true; } else ++k;
				}
			}
			for (size_t i = 0; i < p.l.size(); ++i) for (size_t k = 0; k < p.l[i].kv.size(); ++k) { // values
				string key = p.l[i].kv[k].first, v = p.l[i].kv[k].second;
				if (key == "id" || key == "m" || key == "o" || key == "k" || key == "f" || p.l[i].kind == "prop") continue;
				auto attempt = [&](const string& n) { if (n == p.l[i].kv[k].second) return false; Plan q = p; q.l[i].kv[k].second = n; if (!fails(q)) return false; p = q; any = true; return true; };
				if (key == "data" || key == "pkt" || key == "s" || key == "rec") { // bytes
					for (size_t chunk = std::max<size_t>(1, v.size() / 2); chunk >= 1; chunk /= 2) {
						if (v.size() > 4000 && chunk < 64) break;
						for (size_t at = 0; at < p.l[i].kv[k].second.size();) {
							string c = p.l[i].kv[k].second; c.erase(at, chunk);
							if (!attempt(c)) at += chunk;
							if (budget <= 0) break;
						}
						if (chunk == 1 || budget <= 0) break;
					}
					continue;
				}
				for (char sep : {',', ':', '|'}) { // list items
					auto it = plan::split(p.l[i].kv[k].second, sep);
					if (it.size() < 2 || it.size() > 64) continue;
					if (sep == ':' && (key == "rf" || key == "pre" || key == "every" || key == "af" || key == "ff")) continue;
					for (size_t x = 0; x < it.size() && it.size() > 1;) { auto c = it; c.erase(c.begin() + (long)x); if (attempt(plan::join(c, sep))) it = c; else ++x; }
				}
				string cur = p.l[i].kv[k].second;
				if (!cur.empty() && cur.find_first_not_of("0123456789") == string::npos && cur.size() < 18) { // numbers
					long n = atol(cur.c_str());
					for (long c : {0L, 1L, n / 16, n / 4, n / 2, n - 1}) if (c >= 0 && c < n && attempt(std::to_string(c))) break;
				}
			}
		}
		return p;
	}
};

// ---- properties: what counts as non-trivial ------------------------------------------------------------------
static bool nontrivial(const string& p, const sim::Res& r)
{
	using namespace sim;
	auto c = [&](Ctr x) { return r.ctr[x]; };
	long judged = c(C_sig_pass) + c(C_sig_fail) + c(C_sig_perm) + c(C_sig_temp) + c(C_sig_other);
	if (p == "C01") return c(C_sign_ok) && judged;
	if (p == "C02") return c(C_relay_tamper) && judged;
	if (p == "C03" || p == "C08" || p == "C16") return judged > 0;
	if (p == "C04") return c(C_op_canon) > 0;
	if (p == "C05") return c(C_read_error) + c(C_seek_error) + c(C_tell_error) + c(C_unseekable) + c(C_failed_stream) > 0;
	if (p == "C06") return c(C_dns_timeout) + c(C_dns_servfail) + c(C_dns_refused) + c(C_dns_nx) + c(C_dns_empty) > 0;
	if (p == "C07") return c(C_op_dnsq) > 0;
	if (p == "C09") return c(C_sign_ok) + judged > 0;
	if (p == "C10") return c(C_probe_twins_compared) > 1;
	if (p == "C11") return c(C_probe_two_threads_inside_library) && c(C_probe_twins_compared) > 1;
	if (p == "C12") return c(C_alloc_failure) + c(C_crypto_failure) > 0;
	if (p == "C13") return c(C_probe_rounds_compared) > 0;
	if (p == "C14") return c(C_relay_damage) || c(C_sig_perm) || c(C_sig_fail) || c(C_op_verify);
	if (p == "C15") return c(C_probe_multi_sig) > 0 && judged > 1;
	if (p == "C17") return c(C_op_tool) > 0;
	return true;
}
static long quickRuns(const string& p)
{
	static const std::map<string, long> n = {{"C07", 40000}, {"C10", 3000}, {"C11", 2000}, {"C13", 3000}, {"C14", 30000}};
	auto i = n.find(p);
	return i == n.end() ? 14000 : i->second;
}

// ---- search --------------------------------------------------------------------------------------------------------
struct Found { long idx; };
struct Ctl { std::atomic<long> next, best, nfound, err; Found found[4096]; double t0; };
struct Stat { long runs, nontrivial; double simus; long edges, ops, switches, preemptedRuns; long ctr[sim::C_N]; long runsWith[sim::C_N]; long maxOps; };
struct HashRec { uint64_t h, sched, shape; bool nt; };

static uint64_t runSeed(uint64_t seed, const string& prop, long i) { return plan::mix(plan::mix(seed, plan::fnv(prop)), (uint64_t)i); }
static string jesc(const string& s) { string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
static string hex(uint64_t h) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }

static bool replayFresh(const string& self, const string& file, string& cls, string& hash)
{
	string cmd = "'" + self + "' replay '" + file + "' 2>/dev/null";
	FILE* f = popen(cmd.c_str(), "r");
	if (!f) return false;
	string o; char b[65536]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
	int rc = pclose(f);
	size_t p = o.rfind("CLASS ");
	if (p != string::npos) { size_t e = o.find('\n', p); auto v = plan::split(o.substr(p + 6, e - p - 6), ' '); cls = v[0]; hash = v.size() > 1 ? v[1] : ""; }
	return WIFEXITED(rc) && WEXITSTATUS(rc) == 1;
}

static void worker(const string& prop, uint64_t seed, long maxRuns, double until, Ctl* ctl, Stat* st, HashRec* hr)
{
	slot = shared<Slot>();
	errFd = memfd_create("stderr", 0);
	while (true) {
		long i = ctl->next++;
		if (i >= maxRuns || i > ctl->best || wall() > until) break;
		Plan p = gen::make(prop, runSeed(seed, prop, i));
		Run r = runPlan(p);
		++st->runs;
		bool nt = nontrivial(prop, r.res);
		if (nt) ++st->nontrivial;
		hr[i] = { r.hash, r.sched, r.shape, nt };
		st->simus += (double)r.res.simus; st->edges += r.res.edges; st->ops += r.res.ops; st->switches += r.res.switches;
		if (r.res.switches) ++st->preemptedRuns;
		for (int k = 0; k < sim::C_N; ++k) { st->ctr[k] += r.res.ctr[k]; if (r.res.ctr[k]) ++st->runsWith[k]; }
		if (r.bad) {
			long n = ctl->nfound++;
			if (n < 4096) ctl->found[n] = { i };
			long b = ctl->best;
			// keep going a little, so that there are alternatives should this one not pass the gate
			while (i + 64 < b && !ctl->best.compare_exchange_weak(b, i + 64)) ;
		}
	}
	_exit(0);
}

struct Known { string prop, cls, needle; };
static vector<Known> known()
{
	vector<Known> v;
	std::ifstream f(string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/known-findings.txt");
	string s;
	while (std::getline(f, s)) {
		if (s.compare(0, 8, "finding:") != 0) continue;
		Line l = plan::parseLine(s.replace(0, 8, "finding"));
		v.push_back({l.get("property"), l.get("class"), l.get("needle")});
	}
	return v;
}

static int check(const string& self, const string& prop, const string& tier, uint64_t seed)
{
	double t0 = wall();
	string base = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
	bool thorough = tier == "thorough";
	long maxRuns = quickRuns(prop);
	double budget = 150;
	if (thorough) { maxRuns = 40000000; budget = 1500; }
	if (getenv("SIM_RUNS")) maxRuns = atol(getenv("SIM_RUNS"));
	if (getenv("SIM_SECONDS")) budget = atof(getenv("SIM_SECONDS"));
	long nw = getenv("SIM_WORKERS") ? atol(getenv("SIM_WORKERS")) : std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
	if (nw > 64) nw = 64;
	printf("property %s tier %s seed %llu workers %ld runs up to %ld\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, nw, maxRuns);
	Ctl* ctl = shared<Ctl>(); ctl->next = 0; ctl->best = maxRuns; ctl->nfound = 0; ctl->err = 0;
	Stat* st = shared<Stat>((size_t)nw);
	HashRec* hr = shared<HashRec>((size_t)maxRuns);
	fflush(stdout);
	vector<pid_t> pids;
	for (long w = 0; w < nw; ++w) {
		pid_t pid = fork();
		if (pid == 0) worker(prop, seed, maxRuns, t0 + budget, ctl, st + w, hr);
		pids.push_back(pid);
	}
	bool harness = false;
	for (auto p : pids) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) harness = true; }
	double explored = wall() - t0;
	if (harness) { fprintf(stderr, "ERROR: a worker died\n"); return 3; }
	Stat tot; memset(&tot, 0, sizeof tot);
	for (long w = 0; w < nw; ++w) {
		tot.runs += st[w].runs; tot.nontrivial += st[w].nontrivial; tot.simus += st[w].simus; tot.edges += st[w].edges; tot.ops += st[w].ops; tot.switches += st[w].switches; tot.preemptedRuns += st[w].preemptedRuns;
		for (int k = 0; k < sim::C_N; ++k) { tot.ctr[k] += st[w].ctr[k]; tot.runsWith[k] += st[w].runsWith[k]; }
	}
	std::unordered_set<uint64_t> hs, scheds, shapes;
	long distinctNt = 0, done = std::min((long)ctl->next, maxRuns);
	for (long i = 0; i < done; ++i) if (hr[i].h) { scheds.insert(hr[i].sched); shapes.insert(hr[i].shape); if (hs.insert(hr[i].h).second && hr[i].nt) ++distinctNt; }
	long edges = 0; for (size_t i = 0; i < sim::covSize; ++i) if (sim::covMap[i]) ++edges;

	// violations: gate, minimise, replay
	slot = shared<Slot>();
	errFd = memfd_create("stderr", 0);
	long nf = std::min((long)ctl->nfound, 4096L);
	vector<long> cand; for (long k = 0; k < nf; ++k) cand.push_back(ctl->found[k].idx);
	std::sort(cand.begin(), cand.end());
	int rc = 0; string report; long violations = 0; std::set<string> announced;
	auto kn = known();
	bool unstable = false, loose = false; // loose: the code under test itself is not deterministic (it reads indeterminate memory, say)
	vector<std::pair<long, string>> looseRuns;
	double gateEnd = wall() + 400;
	for (size_t ci = 0; ci < cand.size() && rc == 0 && wall() < gateEnd; ++ci) {
		Plan p = gen::make(prop, runSeed(seed, prop, cand[ci]));
		Run a = runPlan(p), b = runPlan(p);
		if (!a.bad || !b.bad || a.cls != b.cls || a.hash != b.hash) { fprintf(stderr, "run %ld is not repeatable: %s %s / %s %s\n", cand[ci], a.cls.c_str(), hex(a.hash).c_str(), b.cls.c_str(), hex(b.hash).c_str()); unstable = true; if (looseRuns.size() < 20) looseRuns.push_back({cand[ci], p.str()}); continue; }
		bool skip = false;
		for (auto& k : kn) if (k.prop == prop && k.cls == a.cls && a.detail.find(k.needle) != string::npos) { if (announced.insert(k.needle).second) printf("KNOWN-FINDING: property=%s %s %s\n", prop.c_str(), k.cls.c_str(), k.needle.c_str()); skip = true; }
		if (skip) continue;
		Mini m; m.cls = a.cls; m.budget = thorough ? 20000 : 4000; m.until = wall() + (thorough ? 180 : 60);
		if (a.cls == "hang" || getenv("SIM_NOMIN")) m.budget = 0;
		Plan q = m.go(p);
		Run c = runPlan(q), d = runPlan(q);
		if (!c.bad || c.cls != a.cls || d.cls != c.cls || c.hash != d.hash) { q = p; c = a; }
		mkdir((base + "/replays").c_str(), 0755);
		string file = base + "/replays/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(cand[ci]) + ".plan";
		string head = "# property " + prop + ", VERIF_SEED " + std::to_string(seed) + ", run " + std::to_string(cand[ci]) + ", run seed " + std::to_string(runSeed(seed, prop, cand[ci])) + "\n# violation class " + c.cls + ", event hash " + hex(c.hash) + ", minimised from " + std::to_string(p.l.size()) + " to " + std::to_string(q.l.size()) + " lines in " + std::to_string(m.used) + " runs\n";
		spit(file, head + q.str());
		string cls, h;
		if (!replayFresh(self, file, cls, h) || cls != c.cls || h != hex(c.hash)) {
			fprintf(stderr, "run %ld does not replay in a new process: %s %s / %s %s\n", cand[ci], c.cls.c_str(), hex(c.hash).c_str(), cls.c_str(), h.c_str());
			unstable = true; if (looseRuns.size() < 20) looseRuns.push_back({cand[ci], p.str()}); continue;
		}
		++violations;
		printf("run %ld (seed %llu): %s\n  %s\n%s", cand[ci], (unsigned long long)runSeed(seed, prop, cand[ci]), c.cls.c_str(), c.detail.c_str(), excerpt(head + q.str()).c_str());
		printf("\nVIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
		rc = 1;
	}
	for (size_t i = 0; i < looseRuns.size() && rc == 0 && wall() < gateEnd; ++i) {
		// A violation that shows itself again, though not by exactly the same events.
		string file = base + "/replays/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(looseRuns[i].first) + ".plan";
		mkdir((base + "/replays").c_str(), 0755);
		std::map<string, int> seen; Run last;
		spit(file, "# property " + prop + ", VERIF_SEED " + std::to_string(seed) + ", run " + std::to_string(looseRuns[i].first) + "\n# the code under test does not behave repeatably in this run; replaying may take several attempts\n" + looseRuns[i].second);
		for (int k = 0; k < 8; ++k) { string cls, h; if (replayFresh(self, file, cls, h) && !cls.empty()) ++seen[cls]; }
		int best = 0; string bc; for (auto& x : seen) if (x.second > best) { best = x.second; bc = x.first; }
		if (best < 2) continue;
		bool skip = false; for (auto& k : kn) if (k.prop == prop && k.cls == bc) skip = true;
		if (skip) continue;
		++violations; loose = true;
		printf("run %ld: %s in %d of 8 replays\n\nVIOLATION property=%s replay=%s\n", looseRuns[i].first, bc.c_str(), best, prop.c_str(), file.c_str());
		rc = 1;
	}
	(void)loose;
	if (rc == 0 && unstable) { fprintf(stderr, "ERROR: a violation was seen that does not repeat\n"); rc = 3; }

	// evidence
	std::ostringstream o;
	o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
	o << "  \"evaluations\": " << tot.runs << ",\n  \"distinct_nontrivial\": " << distinctNt << ",\n  \"rule\": \"" << jesc(gen::rule(prop)) << "\",\n";
	o << "  \"samples\": [";
	bool first = true;
	for (long i = 0, n = 0; i < done && n < 4; ++i) if (hr[i].nt) { o << (first ? "" : ", ") << "{\"run\": " << i << ", \"run_seed\": \"" << runSeed(seed, prop, i) << "\", \"event_hash\": \"" << hex(hr[i].h) << "\", \"plan\": \"" << jesc(gen::make(prop, runSeed(seed, prop, i)).str().substr(0, 1200)) << "\"}"; first = false; ++n; }
	o << "],\n";
	o << "  \"simulated_runs\": " << tot.runs << ",\n  \"seeds_per_hour\": " << (long)((double)tot.runs / std::max(explored, 0.001) * 3600) << ",\n  \"simulated_seconds\": " << (long)(tot.simus / 1e6) << ",\n";
	o << "  \"operations\": " << tot.ops << ",\n  \"context_switches\": " << tot.switches << ",\n  \"runs_with_context_switches\": " << tot.preemptedRuns << ",\n  \"library_branches_executed\": " << tot.edges << ",\n";
	o << "  \"distinct_event_logs\": " << hs.size() << ",\n  \"distinct_interleavings\": " << scheds.size() << ",\n  \"distinct_outcome_traces\": " << shapes.size() << ",\n  \"measure\": \"event log: hash of every seam event and outcome; interleaving: hash of (from, to, branch count) over all context switches; outcome trace: sequence of operation kinds, outcome classes and stages\",\n";
	o << "  \"library_edges_reached\": " << edges << ",\n  \"library_edges_total\": " << (sim::covSize ? sim::covSize - 1 : 0) << ",\n";
	for (int part = 0; part < 2; ++part) {
		o << (part ? ",\n  \"events_and_probes\": {" : "  \"faults_fired\": {");
		first = true;
		for (int k = 0; k < sim::C_N; ++k) {
			bool fault = k < sim::C_op_sign;
			if (fault == (part == 0)) { o << (first ? "" : ", ") << "\"" << sim::ctrName[k] << "\": {\"times\": " << tot.ctr[k] << ", \"runs\": " << tot.runsWith[k] << "}"; first = false; }
		}
		o << "}";
	}
	o << ",\n  \"real_code\": [\"all of /repo/src\"" << (prop == "C17" ? ", \"/repo/tools/src/main.cpp\"" : "") << ", \"OpenSSL\", \"libsodium\", \"libstdc++ streams\", \"glibc ns_parserr and friends\"],\n";
	o << "  \"simulated\": [\"message source (stream buffer)\", \"DNS servers and resolver transport (caller callback or res_nquery)\", \"clock\", \"thread scheduler\", \"failures of operator new, vasprintf and crypto calls\", \"relays and other signers (reference implementation)\", \"randomness of OpenSSL\"" << (prop == "C17" ? ", \"faults of fopen and read\"" : "") << "]\n },\n";
	o << " \"assumptions\": [\"the reference model in sim/ref.cpp is right\", \"code outside /repo/src runs without preemption between seams\", \"sampling: a clean batch is evidence, not proof\"],\n";
	o << " \"wall_s\": " << (wall() - t0) << ",\n \"violations\": " << violations << "\n}\n";
	mkdir((base + "/evidence").c_str(), 0755);
	spit(base + "/evidence/" + prop + ".json", o.str());
	printf("%ld runs, %ld distinct non-trivial, %.1f s, %ld/%zu edges, %zu interleavings, %zu outcome traces\n", tot.runs, distinctNt, wall() - t0, edges, sim::covSize, scheds.size(), shapes.size());
	if (rc == 0) printf("property=%s held on everything explored\n", prop.c_str());
	return rc;
}

static void rmTree(const string& d)
{
	DIR* x = opendir(d.c_str());
	if (!x) return;
	while (auto e = readdir(x)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat s; if (lstat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) rmTree(f); else unlink(f.c_str()); }
	closedir(x);
	rmdir(d.c_str());
}

int main(int argc, char** argv)
{
	int per = personality(0xffffffff);
	if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); if (personality((unsigned)per | ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); } }
	unsetenv("LOCALDOMAIN"); unsetenv("RES_OPTIONS"); setenv("TZ", "UTC", 1);
	char selfPath[4096]; ssize_t sn = readlink("/proc/self/exe", selfPath, sizeof selfPath - 1);
	string self(selfPath, sn > 0 ? (size_t)sn : 0);
	unsetenv("SIM_REEXEC");
	vector<string> a(argv + 1, argv + argc);
	if (a.empty()) { fprintf(stderr, "usage: sim check PROP TIER SEED | replay FILE | gen PROP SEED I | one PROP SEED I | hashes PROP SEED N [FROM]\n"); return 2; }
	sim::warm();
	sim::covMap = shared<unsigned char>(sim::covSize + 1);
	char td[] = "/tmp/vsim.XXXXXX";
	if (!mkdtemp(td)) { perror("mkdtemp"); return 4; }
	world::scratch = td;
	int rc = 2;
	if (a[0] == "check" && a.size() >= 4) rc = check(self, a[1], a[2], strtoull(a[3].c_str(), nullptr, 10));
	else {
		slot = shared<Slot>();
		errFd = memfd_create("stderr", 0);
		if (a[0] == "replay" && a.size() >= 2) {
			Plan p = plan::parse(slurp(a[1]));
			string prop; for (auto& l : p.l) if (l.kind == "prop") prop = l.get("id");
			Run r = runPlan(p, true);
			rc = r.bad ? 1 : 0;
			if (r.bad) { printf("%s\nCLASS %s %s\nVIOLATION property=%s replay=%s\n", r.detail.c_str(), r.cls.c_str(), hex(r.hash).c_str(), prop.c_str(), a[1].c_str()); }
			else printf("no violation, hash %s\n", hex(r.hash).c_str());
		} else if (a[0] == "gen" && a.size() >= 4) { printf("%s", gen::make(a[1], runSeed(strtoull(a[2].c_str(), nullptr, 10), a[1], atol(a[3].c_str()))).str().c_str()); rc = 0; }
		else if (a[0] == "one" && a.size() >= 4) {
			Run r = runPlan(gen::make(a[1], runSeed(strtoull(a[2].c_str(), nullptr, 10), a[1], atol(a[3].c_str()))), true);
			printf("%s %s %s %s\n", r.bad ? "BAD" : "ok", r.cls.c_str(), hex(r.hash).c_str(), r.detail.c_str()); rc = 0;
		} else if (a[0] == "hashes" && a.size() >= 4) {
			long n = atol(a[3].c_str()), from = a.size() > 4 ? atol(a[4].c_str()) : 0;
			uint64_t seed = strtoull(a[2].c_str(), nullptr, 10);
			for (long i = from; i < from + n; ++i) { Run r = runPlan(gen::make(a[1], runSeed(seed, a[1], i))); printf("%ld %s %s %s %s %ld\n", i, hex(r.hash).c_str(), hex(r.sched).c_str(), hex(r.shape).c_str(), r.cls.c_str(), r.twins); }
			rc = 0;
		}
	}
	rmTree(td);
	fflush(stdout);
	_exit(rc);
}
