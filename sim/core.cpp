#include "core.hpp"
#include <execinfo.h>
#include <sanitizer/common_interface_defs.h>
#include "ref.hpp"
#include <arpa/nameser.h>
#include <netdb.h>
#include <resolv.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sodium.h>
#include <sys/time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>

extern "C" const char* __asan_default_options()
{
	return "exitcode=77:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190:"
		"max_free_fill_size=64:free_fill_byte=221:allocator_may_return_null=1:handle_abort=0:symbolize=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
		"allow_user_segv_handler=0:print_legend=0:detect_odr_violation=0:check_initialization_order=0:alloc_dealloc_mismatch=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=77:symbolize=0"; }

namespace sim {
const char* ctrName[C_N] = {
#define X(n) #n,
	SIM_COUNTERS(X)
#undef X
};
static Res localRes;
Res* res = &localRes;
unsigned char* covMap; size_t covSize;
bool logText; string logBuf;
__thread Thread* self;
Thread* mainThread;
long now;
static uint64_t logHash = 1469598103934665603ull, schedHash = 1469598103934665603ull, shapeHash = 1469598103934665603ull;
static long totalEdges, switches;
std::function<DnsAns(const string&)> dnsAnswer;
std::function<bool(const string&, string&, int&)> dnsPacket;
long resOpen;
vector<FileFault> fileFaults; int* fileFired; long fileShort; bool fileSeam; long rawClock;

void ev(const string& s)
{
	logHash = plan::fnv(s, logHash);
	logHash = plan::fnv("\n", 1, logHash);
	res->hash = logHash;
	if (logText) { logBuf += "[t" + std::to_string(self ? self->id : -1) + " " + std::to_string(now) + "us] " + s + "\n"; }
}

void shape(const string& s) { shapeHash = plan::fnv(s, shapeHash); }
void noteForeign() { if (self->op) res->edges += self->op->edges; }

static void seal()
{
	res->hash = plan::fnv(&totalEdges, sizeof totalEdges, logHash);
	res->sched = schedHash;
	res->shape = shapeHash;
	res->edges += totalEdges; res->simus = now; res->switches = switches;
}
static void flushLog() { if (logText) { fflush(stdout); fwrite(logBuf.data(), 1, logBuf.size(), stdout); fflush(stdout); } }

void violate(const string& cls, const string& detail)
{
	ev("VIOLATION " + cls + ": " + detail);
	seal();
	snprintf(res->cls, sizeof res->cls, "%s", cls.c_str());
	snprintf(res->detail, sizeof res->detail, "%s", detail.c_str());
	flushLog();
	res->done = 2;
	_exit(0);
}
void finish()
{
	seal();
	flushLog();
	res->done = 1;
	_exit(0);
}

// ---- scheduler -------------------------------------------------------------------------------
struct Wake { long at; long seq; Thread* t; };
static vector<Wake> heap; static long wseq;
static vector<Thread*> threads;
static bool later(const Wake& a, const Wake& b) { return a.at != b.at ? a.at > b.at : a.seq > b.seq; }
static void push(Thread* t, long at) { heap.push_back({at, wseq++, t}); std::push_heap(heap.begin(), heap.end(), later); }
static Thread* pop()
{
	std::pop_heap(heap.begin(), heap.end(), later);
	Wake w = heap.back(); heap.pop_back();
	if (w.at > now) now = w.at;
	return w.t;
}
int threadsInLib() { int n = 0; for (auto t : threads) if (t->op && !t->done) ++n; return n; }

static void hand(Thread* me, Thread* to)
{
	if (to == me) return;
	++switches;
	long e[3] = { me->id, to->id, me->op ? me->op->edges : -1 };
	schedHash = plan::fnv(e, sizeof e, schedHash);
	sem_post(&to->sem);
	if (!me->done) while (sem_wait(&me->sem)) ;
}
void delay(long us)
{
	Thread* me = self;
	if (!me) return;
	if (us < 0) us = 0;
	if (heap.empty()) { now += us; return; }
	Out o;
	push(me, now + us);
	hand(me, pop());
}
static void* entry(void* p)
{
	Thread* t = (Thread*)p;
	self = t;
	while (sem_wait(&t->sem)) ;
	t->fn();
	t->done = true;
	hand(t, pop()); // the main thread waits with the latest wake-up, so the heap is never empty here
	return nullptr;
}
Thread* spawn(int id, std::function<void()> fn)
{
	Thread* t = new Thread;
	t->id = id; t->fn = fn; sem_init(&t->sem, 0, 0);
	threads.push_back(t);
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20); // a small stack, as servers give their threads
	pthread_create(&t->th, &a, entry, t);
	pthread_attr_destroy(&a);
	push(t, now);
	return t;
}
void runAll()
{
	Thread* me = self;
	// main waits until all the others are done
	while (true) {
		bool all = true;
		for (auto t : threads) if (!t->done) all = false;
		if (all) break;
		if (heap.empty()) violate("deadlock", "no thread can run");
		long last = now;
		for (auto& w : heap) if (w.at > last) last = w.at;
		push(me, last);
		hand(me, pop());
	}
	for (auto t : threads) pthread_join(t->th, nullptr);
	threads.clear(); heap.clear();
}
long clockNow(Thread* t)
{
	long c = t->clk0;
	for (auto& j : t->jumps) if (now >= j.first) c += j.second;
	return std::max(0L, c + now / 1000000); // before 1970 there is no representable timestamp
}

// ---- preemption at control-flow edges ----------------------------------------------------------
// a place where the thread may lose the processor
static void point()
{
	Thread* t = self;
	Op& o = *t->op;
	++o.points;
	long stall = -1;
	if (o.prei < o.pre.size() && o.points >= o.pre[o.prei].first) stall = o.pre[o.prei++].second;
	else if (o.every && o.points >= o.nextEvery) { o.nextEvery = o.points + o.every; stall = o.everyStall; }
	else if (++t->slice >= 50000) { t->slice = 0; stall = 1; }
	if (stall >= 0) { t->slice = 0; hit(C_preemption); int e = errno; delay(stall); errno = e; }
}
static void callPoint() { if (self && self->lib && self->op) point(); }
static void edge()
{
	Thread* t = self;
	if (!t || !t->lib || !t->op) return;
	Op& o = *t->op;
	++o.edges; ++totalEdges;
	point();
	if (o.limit && o.edges > o.limit) { t->lib = 0; violate("no-progress", "work limit of " + std::to_string(o.limit) + " branches exceeded"); }
}
}

using sim::self;
using sim::Out;

static uint32_t guardCount;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
	if (a == b || *a) return;
	for (uint32_t* x = a; x < b; ++x) *x = ++guardCount;
	sim::covSize = guardCount + 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
	if (!self || !self->lib) return;
	if (sim::covMap && !sim::covMap[*g]) { sim::covMap[*g] = 1; }
	sim::edge();
}

// ---- failing allocations and library calls -------------------------------------------------------
namespace sim {
// true: this call is to fail
static bool failing(const char* name)
{
	Thread* t = self;
	if (!t || !t->lib || !t->op) return false;
	Op& o = *t->op;
	point();
	if (o.fails.empty()) return false;
	Out out;
	bool f = false;
	long n = ++o.calls[name];
	bool api = strcmp(name, "new") != 0;
	long any = api ? ++o.calls["api"] : 0;
	for (auto& x : o.fails) {
		long k = x.what == name ? n : api && x.what == "api" ? any : 0;
		if (k && k >= x.n && k < x.n + x.len) f = true;
	}
	if (f) { ++o.fired; hit(api ? C_crypto_failure : C_alloc_failure); ev(string("fail ") + name + " #" + std::to_string(n)); errno = ENOMEM; }
	return f;
}
}

static void* alloc(size_t n)
{
	if (self && self->lib && sim::failing("new")) throw std::bad_alloc();
	if (self && self->lib && self->op) { sim::Op& o = *self->op; o.taken += (long)n; if (o.takeLimit && o.taken > o.takeLimit) { self->lib = 0; sim::violate("no-progress", "work limit of " + std::to_string(o.takeLimit) + " bytes allocated exceeded"); } }
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
extern "C" void __real_free(void* p);
static void release(void* p) { if (p) sim::callPoint(); __real_free(p); }
extern "C" void __real_free(void* p);
extern "C" void __wrap_free(void* p) { if (p) sim::callPoint(); __real_free(p); } // calls from the library's own code
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

#define WRAP(ret, name, params, args, failval) \
	extern "C" ret __real_##name params; \
	extern "C" ret __wrap_##name params { if (sim::failing(#name)) return failval; return __real_##name args; }
WRAP(int, EVP_DigestInit_ex, (EVP_MD_CTX* c, const EVP_MD* m, ENGINE* e), (c, m, e), 0)
WRAP(int, EVP_DigestUpdate, (EVP_MD_CTX* c, const void* d, size_t n), (c, d, n), 0)
WRAP(int, EVP_DigestFinal_ex, (EVP_MD_CTX* c, unsigned char* m, unsigned* n), (c, m, n), 0)
WRAP(int, EVP_MD_CTX_copy, (EVP_MD_CTX* o, const EVP_MD_CTX* i), (o, i), 0)
WRAP(int, EVP_MD_CTX_copy_ex, (EVP_MD_CTX* o, const EVP_MD_CTX* i), (o, i), 0)
WRAP(EVP_MD_CTX*, EVP_MD_CTX_new, (void), (), nullptr)
WRAP(BIO*, BIO_new, (const BIO_METHOD* m), (m), nullptr)
WRAP(int, BIO_write, (BIO* b, const void* d, int n), (b, d, n), -1)
WRAP(int, BIO_read, (BIO* b, void* d, int n), (b, d, n), -1)
WRAP(EVP_PKEY*, PEM_read_bio_PrivateKey, (BIO* b, EVP_PKEY** x, pem_password_cb* cb, void* u), (b, x, cb, u), nullptr)
WRAP(EVP_PKEY*, d2i_PUBKEY, (EVP_PKEY** a, const unsigned char** p, long n), (a, p, n), nullptr)
WRAP(RSA*, d2i_RSAPrivateKey, (RSA** a, const unsigned char** p, long n), (a, p, n), nullptr)
WRAP(RSA*, EVP_PKEY_get1_RSA, (EVP_PKEY* p), (p), nullptr)
WRAP(int, RSA_sign, (int t, const unsigned char* m, unsigned n, unsigned char* s, unsigned* sn, RSA* r), (t, m, n, s, sn, r), 0)
WRAP(int, RSA_verify, (int t, const unsigned char* m, unsigned n, const unsigned char* s, unsigned sn, RSA* r), (t, m, n, s, sn, r), 0)

using std::string;
// The detached Ed25519 calls read fixed sizes that no parameter names.
static void need(const char* what, const void* p, size_t n)
{
	if (n && __asan_region_is_poisoned((void*)p, n)) { self->lib = 0; sim::violate("memory", string("") + what + " reads " + std::to_string(n) + " bytes from a shorter object"); }
}
extern "C" int __real_crypto_sign_verify_detached(const unsigned char*, const unsigned char*, unsigned long long, const unsigned char*);
extern "C" int __wrap_crypto_sign_verify_detached(const unsigned char* s, const unsigned char* m, unsigned long long n, const unsigned char* pk)
{
	if (sim::failing("crypto_sign_verify_detached")) return -1;
	if (self) { need("Ed25519 verification (signature)", s, 64); need("Ed25519 verification (key)", pk, 32); need("Ed25519 verification (message)", m, n); }
	return __real_crypto_sign_verify_detached(s, m, n, pk);
}
extern "C" int __real_crypto_sign_detached(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
extern "C" int __wrap_crypto_sign_detached(unsigned char* s, unsigned long long* sn, const unsigned char* m, unsigned long long n, const unsigned char* sk)
{
	if (sim::failing("crypto_sign_detached")) return -1;
	if (self) { need("Ed25519 signing (signature)", s, 64); need("Ed25519 signing (key)", sk, 64); need("Ed25519 signing (message)", m, n); }
	return __real_crypto_sign_detached(s, sn, m, n, sk);
}
extern "C" int __real_crypto_sign_seed_keypair(unsigned char*, unsigned char*, const unsigned char*);
extern "C" int __wrap_crypto_sign_seed_keypair(unsigned char* pk, unsigned char* sk, const unsigned char* seed)
{
	if (self) need("Ed25519 key expansion (seed)", seed, 32);
	return __real_crypto_sign_seed_keypair(pk, sk, seed);
}
extern "C" int __real_vasprintf(char**, const char*, va_list);
extern "C" int __wrap_vasprintf(char** out, const char* f, va_list a)
{
	if (sim::failing("vasprintf")) { return -1; }
	return __real_vasprintf(out, f, a);
}

// ---- clock ----------------------------------------------------------------------------------------
static bool simClock(long& c)
{
	if (sim::rawClock) { c = sim::rawClock; return true; }
	if (!self || !self->lib || !self->op) return false;
	Out o;
	sim::Op& op = *self->op;
	if (op.scripted) {
		c = op.ci < op.clockScript.size() ? op.clockScript[op.ci] : op.clockScript.empty() ? sim::clockNow(self) : op.clockScript.back();
		++op.ci;
	} else { int e = errno; sim::delay(1); errno = e; c = sim::clockNow(self); }
	op.clock.push_back(c);
	sim::ev("clock " + std::to_string(c));
	return true;
}
extern "C" time_t __real_time(time_t*);
extern "C" time_t __wrap_time(time_t* t)
{
	long c;
	if (!simClock(c)) return __real_time(t);
	if (t) *t = c;
	return c;
}
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	long c;
	if (!simClock(c)) return __real_clock_gettime(id, ts);
	ts->tv_sec = c; ts->tv_nsec = 0;
	return 0;
}
extern "C" int __real_gettimeofday(struct timeval*, void*);
extern "C" int __wrap_gettimeofday(struct timeval* tv, void* z)
{
	long c;
	if (!simClock(c)) return __real_gettimeofday(tv, z);
	tv->tv_sec = c; tv->tv_usec = 0;
	return 0;
}
// std::chrono::system_clock::now() lives in libstdc++
namespace std { namespace chrono { inline namespace _V2 { struct fake; } } }
extern "C" long __real__ZNSt6chrono3_V212system_clock3nowEv(void);
extern "C" long __wrap__ZNSt6chrono3_V212system_clock3nowEv(void)
{
	long c;
	if (!simClock(c)) return __real__ZNSt6chrono3_V212system_clock3nowEv();
	return c * 1000000000L;
}

// ---- locks, once, guards: a waiting thread sleeps in simulated time ------------------------------------
static void spin(long& n)
{
	sim::hit(sim::C_probe_lock_wait);
	Out o;
	if (++n > 200000) sim::violate("deadlock", "a lock is never released");
	sim::delay(50);
}
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!self) return __real_pthread_mutex_lock(m);
	long n = 0; int r;
	while ((r = pthread_mutex_trylock(m)) == EBUSY) spin(n);
	return r;
}
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	if (!self) return __real_pthread_rwlock_rdlock(m);
	long n = 0; int r;
	while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) spin(n);
	return r;
}
extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	if (!self) return __real_pthread_rwlock_wrlock(m);
	long n = 0; int r;
	while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) spin(n);
	return r;
}
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
	long n = 0;
	volatile int* s = (volatile int*)o;
	while (*s == 77) spin(n);
	if (*s == 78) return 0;
	*s = 77;
	try { f(); } catch (...) { *s = 0; throw; }
	*s = 78;
	return 0;
}
extern "C" int __wrap___cxa_guard_acquire(char* g)
{
	long n = 0;
	if (g[0]) return 0;
	while (g[1]) { spin(n); if (g[0]) return 0; }
	g[1] = 1;
	return 1;
}
extern "C" void __wrap___cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; }
extern "C" void __wrap___cxa_guard_abort(char* g) { g[1] = 0; }

// ---- message source ---------------------------------------------------------------------------------------
namespace sim {
SimBuf::SimBuf(const string& data, Src& s) : m_data(s.start ? string(s.start, '#') : string()), m_s(s)
{
	m_data += data;
	m_pos = s.start;
	if (s.start) hit(C_start_offset);
}
void SimBuf::tell(std::istream& in)
{
	if (!m_s.exm) return;
	hit(C_stream_exceptions);
	in.exceptions(m_s.exm == 1 ? std::ios_base::badbit : m_s.exm == 2 ? std::ios_base::badbit | std::ios_base::failbit : std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit);
}
bool SimBuf::fire(int kind)
{
	size_t rel = m_pos - m_s.start;
	for (auto& f : m_s.f) {
		if (f.kind != kind || f.times == 0 || (f.pass != m_pass && f.pass >= 0)) continue;
		if (kind == 0 && rel < f.off) continue;
		if (f.times > 0) --f.times;
		++m_s.fired;
		hit(kind == 0 ? C_read_error : kind == 1 ? C_seek_error : C_tell_error);
		if (kind == 0) hit(m_pass ? C_probe_fault_fired_mid_body : C_probe_fault_fired_in_header);
		ev("source fault " + std::to_string(kind) + " pass " + std::to_string(m_pass) + " at " + std::to_string(rel));
		return true;
	}
	return false;
}
SimBuf::int_type SimBuf::underflow()
{
	Out o;
	if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
	setg(nullptr, nullptr, nullptr);
	if (m_s.lat > 0) { hit(C_read_stall); delay(m_s.lat); }
	if (fire(0)) { errno = EIO; if (m_s.ext == 1) throw std::runtime_error("simulated read error"); if (m_s.ext == 2) throw 5; throw std::ios_base::failure("simulated read error"); }
	if (m_pos >= m_data.size()) { errno = 0; return traits_type::eof(); }
	size_t n = m_data.size() - m_pos;
	if (!m_s.pieces.empty()) {
		size_t k = (size_t)m_s.pieces[m_pi++ % m_s.pieces.size()];
		if (k < 1) k = 1;
		if (k < n) { n = k; hit(C_short_piece); }
	}
	for (auto& f : m_s.f) // deliver the bytes before the fault first
		if (f.kind == 0 && f.times && (f.pass == m_pass || f.pass < 0) && m_s.start + f.off > m_pos && m_s.start + f.off - m_pos < n) n = m_s.start + f.off - m_pos;
	m_buf.reset(new char[n]);
	memcpy(m_buf.get(), m_data.data() + m_pos, n);
	m_pos += n;
	if (m_pos > m_s.maxpos) m_s.maxpos = m_pos;
	setg(m_buf.get(), m_buf.get(), m_buf.get() + n);
	return traits_type::to_int_type(*gptr());
}
SimBuf::pos_type SimBuf::seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode w)
{
	Out o;
	if (d == std::ios_base::cur && off == 0) {
		if (m_s.noseek) { ++m_s.fired; hit(C_unseekable); return pos_type(off_type(-1)); }
		if (fire(2)) return pos_type(off_type(-1));
		return pos_type((off_type)(m_pos - (size_t)(egptr() - gptr())) + m_s.base);
	}
	off_type from = d == std::ios_base::beg ? 0 : m_s.base + (d == std::ios_base::end ? (off_type)m_data.size() : (off_type)(m_pos - (size_t)(egptr() - gptr())));
	return seekpos(pos_type(from + off), w);
}
SimBuf::pos_type SimBuf::seekpos(pos_type p, std::ios_base::openmode)
{
	Out o;
	if (m_s.lat > 0) delay(m_s.lat);
	if (m_s.noseek) { ++m_s.fired; hit(C_unseekable); return pos_type(off_type(-1)); }
	++m_pass;
	if (fire(1)) return pos_type(off_type(-1));
	off_type v = off_type(p) - m_s.base;
	if (v < 0 || (size_t)v > m_data.size()) return pos_type(off_type(-1));
	m_pos = (size_t)v;
	setg(nullptr, nullptr, nullptr);
	return p;
}

// ---- DNS -----------------------------------------------------------------------------------------------------
static DnsAns ask(const string& q)
{
	Op* op = self->op;
	DnsAns a;
	if (op && op->scripted) {
		if (op->di < op->dnsScript.size()) a = op->dnsScript[op->di++];
		else { a.status = 2; }
		a.q = q;
	} else a = dnsAnswer ? dnsAnswer(q) : DnsAns{q, 2, ""};
	a.q = q;
	if (op) op->dns.push_back(a);
	ev("dns " + q + " -> " + std::to_string(a.status) + " " + a.text);
	return a;
}
bool customResolver(const string& q, string& out, void* data)
{
	Out o;
	if (self->op && data != self->op->dnsData) self->op->dnsDataWrong = true;
	DnsAns a = ask(q);
	if (a.status == 3) { hit(C_dns_resolver_throw); throw std::out_of_range("resolver gave up"); }
	out = a.status == 0 ? a.text : a.status == 1 && a.text == "partial" ? string("v=DKIM1; p=") : string();
	errno = a.status == 1 ? ETIMEDOUT : ERANGE;
	return a.status != 1;
}

static void putName(string& p, const string& n)
{
	for (auto& l : plan::split(n, '.')) { if (l.empty()) continue; string x = l.substr(0, 63); p += (char)x.size(); p += x; }
	p += '\0';
}
static void be(string& p, unsigned v, int n) { for (int i = n - 1; i >= 0; --i) p += (char)(v >> (8 * i) & 255); }

string buildReply(const string& q, const string& text, const string& mode)
{
	// mode: comma-separated words: strN (string size), comp, cname, pre (other records first), post, rr2 (two records)
	size_t str = 255; bool comp = false, cname = false, pre = false, post = false, extra = false;
	for (auto& w : plan::split(mode, ',')) {
		if (w.compare(0, 3, "str") == 0) str = (size_t)std::max(1L, std::min(255L, atol(w.c_str() + 3)));
		else if (w == "comp") comp = true; else if (w == "cname") cname = true; else if (w == "pre") pre = true;
		else if (w == "post") post = true; else if (w == "extra") extra = true;
	}
	string p;
	unsigned an = 1 + cname + pre + post;
	be(p, 0x1234, 2); be(p, 0x8180, 2); be(p, 1, 2); be(p, an, 2); be(p, extra ? 1 : 0, 2); be(p, extra ? 1 : 0, 2);
	putName(p, q); be(p, 16, 2); be(p, 1, 2);
	auto owner = [&](const string& n) { if (comp) be(p, 0xc00c, 2); else putName(p, n); };
	string name = q;
	if (cname) {
		owner(name); be(p, 5, 2); be(p, 1, 2); be(p, 300, 4);
		string t; putName(t, "keys.esp.example"); be(p, (unsigned)t.size(), 2); p += t;
		name = "keys.esp.example";
	}
	if (pre) { owner(name); be(p, 46, 2); be(p, 1, 2); be(p, 300, 4); string t = "\x05nosig" "v=DKIM1; p=AAAA"; be(p, (unsigned)t.size(), 2); p += t; }
	{
		owner(name); be(p, 16, 2); be(p, 1, 2); be(p, 300, 4);
		string t;
		for (size_t i = 0; i < text.size() || i == 0; i += str) { string s = text.substr(i, str); t += (char)s.size(); t += s; if (text.empty()) break; }
		be(p, (unsigned)t.size(), 2); p += t;
	}
	if (post) { owner(name); be(p, 1, 2); be(p, 1, 2); be(p, 60, 4); be(p, 4, 2); be(p, 0x7f000001, 4); }
	if (extra) {
		putName(p, "ns.example"); be(p, 16, 2); be(p, 1, 2); be(p, 60, 4); string t = "\x07" "foreign"; be(p, (unsigned)t.size(), 2); p += t;
		putName(p, "ns.example"); be(p, 16, 2); be(p, 1, 2); be(p, 60, 4); be(p, (unsigned)t.size(), 2); p += t;
	}
	return p;
}
}

extern "C" int __wrap___res_ninit(res_state s)
{
	Out o;
	if (!self) return -1;
	if (s->options & 0x40000000u) sim::violate("resolver-state", "resolver state initialised twice");
	memset(s, 0, sizeof *s);
	s->options = 0x40000000u | 1;
	++sim::resOpen;
	sim::delay(1);
	errno = ENOENT;
	return 0;
}
extern "C" void __wrap___res_nclose(res_state s)
{
	Out o;
	if (!(s->options & 0x40000000u)) sim::violate("resolver-state", "resolver state closed twice");
	s->options = 0;
	--sim::resOpen;
}
static int herr(res_state s, int e) { s->res_h_errno = e; h_errno = e; errno = ETIMEDOUT; return -1; }
extern "C" int __wrap_res_nquery(res_state s, const char* name, int cls, int type, unsigned char* ans, int anslen)
{
	Out o;
	if (!self) return -1;
	if (!(s->options & 0x40000000u)) sim::violate("resolver-state", "query on an uninitialised resolver state");
	string pkt; int len = -1;
	if (type != 16 || cls != 1) { sim::ev("query of type " + std::to_string(type)); return herr(s, NO_DATA); }
	if (sim::dnsPacket && sim::dnsPacket(name, pkt, len)) { }
	else {
		sim::DnsAns a = sim::ask(name);
		if (a.status == 3) a.status = 1;
		if (a.status == 1) return herr(s, a.text == "internal" ? NETDB_INTERNAL : TRY_AGAIN);
		if (a.status == 2) return herr(s, a.text == "nodata" ? NO_DATA : HOST_NOT_FOUND);
		pkt = sim::buildReply(name, a.text, self->op ? self->op->mode : "");
		len = (int)pkt.size();
	}
	if (len < 0) return herr(s, -len);
	// stale bytes of earlier replies behind this one
	size_t cap = (size_t)anslen, n = std::min(cap, pkt.size());
	memcpy(ans, pkt.data(), n);
	if (self->op && self->op->mode.find("stale") != string::npos && n < cap) {
		sim::hit(sim::C_dns_stale_tail);
		string st = sim::buildReply("stale.example", "v=DKIM1; k=rsa; p=STALESTALESTALE", "");
		for (size_t i = n, k = 0; i < cap && k < 2000; ++i, ++k) ans[i] = (unsigned char)st[12 + (k % (st.size() - 12))];
	}
	errno = ERANGE;
	return len;
}

// ---- memory accounting ----------------------------------------------------------------------------------------
namespace sim {
static bool tracking;
static const size_t TN = 1 << 18;
struct Slot { const volatile void* p; size_t n; long ser; void* bt[24]; };
static long serial; static bool wantStacks; // SIM_LEAKS=1: remember where blocks came from
static Slot* tab; static long live, bytes;
static size_t slotOf(const volatile void* p) { uint64_t h = (uint64_t)p * 0x9E3779B97F4A7C15ull; return (size_t)(h >> 46) & (TN - 1); }
static void onMalloc(const volatile void* p, size_t n)
{
	if (!tracking || !p || !self || !self->lib) return;
	if ((size_t)live > TN / 2) return;
	size_t i = slotOf(p);
	while (tab[i].p && tab[i].p != (void*)1) i = (i + 1) & (TN - 1);
	tab[i].p = p; tab[i].n = n; tab[i].ser = ++serial; if (wantStacks) { bool tr = tracking; tracking = false; int k = backtrace(tab[i].bt, 24); if (k < 24) tab[i].bt[k] = nullptr; tracking = tr; } ++live; bytes += (long)n;
}
static void onFree(const volatile void* p)
{
	if (!tracking || !p) return;
	size_t i = slotOf(p), k = 0;
	while (tab[i].p && k++ < TN) {
		if (tab[i].p == p) { tab[i].p = (void*)1; --live; bytes -= (long)tab[i].n; return; }
		i = (i + 1) & (TN - 1);
	}
}
// OpenSSL keeps the last 16 errors of a thread; bring that ring into the same state before each comparison,
// so that its filling up does not look like growth
static void fillErrors()
{
	if (self) self->lib = 1;
	for (int i = 0; i < 20; ++i) ERR_raise_data(ERR_LIB_USER, 1, "%s", "simulated error that only occupies an entry of the error queue");
	if (self) self->lib = 0;
}
void trackStart()
{
	tab = (Slot*)calloc(TN, sizeof(Slot));
	wantStacks = getenv("SIM_LEAKS") != nullptr;
	__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
	tracking = true;
	fillErrors();
}
void trackDump(long since)
{
	if (!wantStacks) return;
	for (size_t i = 0; i < TN; ++i) if (tab[i].p && tab[i].p != (void*)1 && tab[i].ser > since) {
		dprintf(1, "block of %zu bytes\n", tab[i].n);
		for (void* x : tab[i].bt) { if (!x) break; dprintf(1, "   %p\n", x); }
	}
}
long trackSerial() { return serial; }
long trackLive() { fillErrors(); return live; }
long trackBytes() { return bytes; }
}

// ---- files of the command-line tool ------------------------------------------------------------------------------
namespace sim { static std::map<int, string> fdPath; }
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* simOpen(const char* sym, const char* path, const char* mode)
{
	static std::map<string, fopen_t> real;
	fopen_t& f = real[sym];
	if (!f) f = (fopen_t)dlsym(RTLD_NEXT, sym);
	if (sim::fileSeam)
		for (auto& x : sim::fileFaults)
			if (x.kind == "open" && x.path == path) { if (sim::fileFired) ++sim::fileFired[&x - &sim::fileFaults[0]]; sim::hit(sim::C_file_open_error); errno = x.n ? (int)x.n : EACCES; return nullptr; }
	FILE* r = f(path, mode);
	if (r && sim::fileSeam) sim::fdPath[fileno(r)] = path;
	return r;
}
extern "C" FILE* fopen64(const char* path, const char* mode) { return simOpen("fopen64", path, mode); }
extern "C" FILE* fopen(const char* path, const char* mode) { return simOpen("fopen", path, mode); }
extern "C" ssize_t __read_nocancel(int, void*, size_t);
static ssize_t realRead(int fd, void* p, size_t n)
{
	static ssize_t (*f)(int, void*, size_t) = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
	return f(fd, p, n);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
	if (!sim::fileSeam) return realRead(fd, p, n);
	auto i = sim::fdPath.find(fd);
	if (i == sim::fdPath.end()) return realRead(fd, p, n);
	off_t at = lseek(fd, 0, SEEK_CUR);
	size_t k = n;
	for (auto& x : sim::fileFaults) {
		if (x.kind != "read" || x.path != i->second || x.n == 0) continue;
		if ((size_t)at >= x.off) { if (x.n > 0) --x.n; if (sim::fileFired) ++sim::fileFired[&x - &sim::fileFaults[0]]; sim::hit(sim::C_file_read_error); errno = EIO; return -1; }
		if (x.off - (size_t)at < k) k = x.off - (size_t)at;
	}
	if (sim::fileShort && (size_t)sim::fileShort < k) { k = (size_t)sim::fileShort; sim::hit(sim::C_file_short_read); }
	return realRead(fd, p, k);
}

// ---- deterministic randomness, warm-up ------------------------------------------------------------------------------
static uint64_t rndState = 42;
static int rbytes(unsigned char* b, int n) { for (int i = 0; i < n; ++i) { rndState = rndState * 6364136223846793005ull + 1442695040888963407ull; b[i] = (unsigned char)(rndState >> 56); } return 1; }
static int rstatus() { return 1; }
static int rseed(const void*, int) { return 1; }
static int radd(const void*, int, double) { return 1; }
static void rclean() {}
namespace sim {
void warm()
{
	static RAND_METHOD m = { rseed, rbytes, rclean, radd, rbytes, rstatus };
	RAND_set_rand_method(&m);
	if (sodium_init() < 0) abort();
	for (const char* n : {"r1024a", "r1024b", "r1024c", "r2048", "ed0", "ed1"}) {
		const ref::PoolKey* k = ref::key(n);
		for (int sha1 = 0; sha1 < 2; ++sha1) {
			string s = ref::signData(*k, sha1, "warm");
			ref::Sig g; g.rsa = k->rsa; g.sha1 = sha1; g.b = s;
			ref::Key pk; pk.rsa = k->rsa; pk.p = ref::b64d(k->pub);
			if (!ref::verifyCrypto(g, pk, "warm")) abort();
		}
		if (k->rsa) {
			for (const string& pem : {k->pem, k->pkcs8}) {
				BIO* b = BIO_new_mem_buf(pem.data(), (int)pem.size());
				EVP_PKEY* p = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
				BIO_free(b);
				RSA* r = EVP_PKEY_get1_RSA(p);
				unsigned char sg[512]; unsigned n2;
				RSA_sign(NID_sha256, (const unsigned char*)string(32, 'x').data(), 32, sg, &n2, r);
				RSA_verify(NID_sha256, (const unsigned char*)string(32, 'x').data(), 32, sg, n2, r);
				RSA_verify(NID_sha256, (const unsigned char*)string(32, 'y').data(), 32, sg, n2, r);
				RSA_free(r);
				EVP_PKEY_free(p);
			}
			string der = ref::b64d(k->der);
			const unsigned char* p = (const unsigned char*)der.data();
			RSA_free(d2i_RSAPrivateKey(nullptr, &p, (long)der.size()));
			p = (const unsigned char*)"garbage";
			RSA_free(d2i_RSAPrivateKey(nullptr, &p, 7));
			p = (const unsigned char*)"garbage";
			EVP_PKEY_free(d2i_PUBKEY(nullptr, &p, 7));
		}
	}
	BIO* b = BIO_new_mem_buf("-----BEGIN X", 10);
	EVP_PKEY_free(PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr));
	BIO_free(b);
	BIO* l = BIO_push(BIO_new(BIO_f_base64()), BIO_new(BIO_s_mem()));
	BIO_write(l, "abc", 3); (void)BIO_flush(l); BIO_free_all(l);
	for (int i = 0; i < 40; ++i) { ERR_raise_data(ERR_LIB_USER, ERR_R_INTERNAL_ERROR, "warm %d %s", i, string(200, 'x').c_str()); }
	ERR_clear_error();
	rndState = 42;
}
}
