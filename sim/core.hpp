// The simulator: one thread runs at a time, simulated time, seams with fault injection.
#pragma once
#include "plan.hpp"
#include <ctime>
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <semaphore.h>
#include <pthread.h>
#include <streambuf>

namespace sim {
using std::string;
using std::vector;

#define SIM_COUNTERS(X) \
	X(read_error) X(seek_error) X(tell_error) X(unseekable) X(failed_stream) X(stream_exceptions) X(short_piece) X(read_stall) X(start_offset) X(start_far) \
	X(dns_timeout) X(dns_internal) X(dns_servfail) X(dns_refused) X(dns_nx) X(dns_empty) X(dns_stall) X(dns_resolver_throw) X(dns_rotation) X(dns_packet_damage) X(dns_stale_tail) \
	X(clock_jump) X(clock_skew) X(alloc_failure) X(crypto_failure) X(errno_pollution) X(preemption) X(stall) \
	X(file_open_error) X(file_read_error) X(file_short_read) X(file_write_error) \
	X(relay_benign) X(relay_tamper) X(relay_damage) \
	X(retry) X(op_sign) X(op_fsign) X(op_verify) X(op_canon) X(op_dnsq) X(op_aux) X(op_tool) X(op_key) \
	X(sig_pass) X(sig_fail) X(sig_perm) X(sig_temp) X(sig_other) X(sign_ok) X(sign_error) \
	X(probe_body_multi_buffer) X(probe_fault_fired_mid_body) X(probe_fault_fired_in_header) X(probe_recovered_after_fault) X(probe_arc) X(probe_multi_sig) X(probe_other_signature_first) X(probe_late_check) X(probe_oversign) X(probe_limit) X(probe_expired) X(probe_expiry_boundary) X(probe_weird_input) X(probe_time_passed_in_op) X(probe_two_threads_inside_library) X(probe_lock_wait) X(probe_twins_compared) X(probe_rounds_compared) X(probe_intact_must_pass) X(probe_tampered_not_passed)
enum Ctr {
#define X(n) C_##n,
	SIM_COUNTERS(X)
#undef X
	C_N
};
extern const char* ctrName[C_N];

struct Res {
	volatile int done;           // 1: finished, 2: violation
	char cls[80];
	char detail[4000];
	uint64_t hash, sched, shape;
	long edges, simus, ops, switches;
	long ctr[C_N];
	size_t logLen;
};
extern Res* res;                 // shared with the parent
extern unsigned char* covMap;    // shared with the parent, edges seen
extern size_t covSize;
extern bool logText;             // keep the text of the event log (replay)
extern string logBuf;

void ev(const string& s);        // event log; hashed
inline void hit(Ctr c, long n = 1) { res->ctr[c] += n; }
[[noreturn]] void violate(const string& cls, const string& detail);
[[noreturn]] void finish();

struct DnsAns { string q; int status; string text; }; // status 0 ok, 1 temp, 2 perm (no record), 3 thrown
struct FailAt { string what; long n, len; };

struct Op {
	long edges = 0, points = 0, limit = 0, taken = 0, takeLimit = 0; // branches, and places where the thread may be stopped
	vector<std::pair<long, long>> pre; size_t prei = 0;   // preempt at edge, for us
	long every = 0, everyStall = 1, nextEvery = 0;
	vector<FailAt> fails;
	std::map<string, long> calls;
	long fired = 0;                                        // fault firings of alloc/crypto in this op
	vector<long> clock; vector<DnsAns> dns;                // what the seams answered
	bool scripted = false; vector<long> clockScript; vector<DnsAns> dnsScript; size_t ci = 0, di = 0;
	string mode;                                           // wire options of the simulated DNS
	void* dnsData = nullptr; bool dnsDataWrong = false;    // what the application gave for its resolver
};

struct Thread {
	int id = 0; sem_t sem; pthread_t th; bool done = false;
	std::function<void()> fn;
	int lib = 0; Op* op = nullptr;
	long slice = 0;
	long clk0 = 1700000000; vector<std::pair<long, long>> jumps; // at us, by s
};
extern __thread Thread* self;
extern Thread* mainThread;
extern long now;                 // simulated microseconds

void delay(long us);             // current thread sleeps in simulated time; others run
Thread* spawn(int id, std::function<void()> fn);
void runAll();                   // main thread: run spawned threads to completion
long clockNow(Thread* t);        // node clock, seconds
int threadsInLib();

struct Lib { Lib() { ++self->lib; } ~Lib() { --self->lib; } };
struct Out { int s; Out() { s = self ? self->lib : 0; if (self) self->lib = 0; } ~Out() { if (self) self->lib = s; } };

// message source
struct SrcFault { int kind; int pass; size_t off; int times; }; // kind 0 read, 1 seek, 2 tell
struct Src {
	size_t start = 0; long base = 0; /* position of the first byte */ vector<long> pieces; long lat = 0; vector<SrcFault> f; bool noseek = false; long exm = 0, ext = 0; /* exceptions the stream is told to throw, what the source throws */ long failed = 0; /* streams handed over in a failed state (an open that failed) */
	int fired = 0; // total firings
	size_t maxpos = 0;
};
class SimBuf : public std::streambuf {
public:
	SimBuf(const string& data, Src& s);
	int pass() const { return m_pass; }
	void tell(std::istream& in); // applies exm
protected:
	int_type underflow() override;
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override;
	pos_type seekpos(pos_type p, std::ios_base::openmode) override;
private:
	string m_data; Src& m_s; size_t m_pos = 0; int m_pass = 0; size_t m_pi = 0;
	std::unique_ptr<char[]> m_buf;
	bool fire(int kind);
};

// simulated DNS: set by the world
extern std::function<DnsAns(const string&)> dnsAnswer;
// raw packet for a query when the built-in resolver is used; empty: build from dnsAnswer
extern std::function<bool(const string&, string&, int&)> dnsPacket;
bool customResolver(const string& q, string& out, void*);
string buildReply(const string& q, const string& text, const string& mode);

// memory accounting (C13)
void trackStart();
long trackLive();
void trackDump(long since);
long trackSerial();
long trackBytes();
extern long resOpen;             // res_ninit without res_nclose
// file seam (C17)
struct FileFault { string path; string kind; size_t off; long n; };
extern vector<FileFault> fileFaults;
extern int* fileFired;              // shared: per fault, how often it fired
extern long fileShort;           // max bytes per read, 0: no limit
extern bool fileSeam;
extern long rawClock;            // when no simulated thread runs: clock value

void shape(const string& s);     // abstract trace: kinds and outcome classes
void noteForeign();              // a process of the tool ends: add its work to the run's
void warm();
}
