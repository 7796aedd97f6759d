#pragma once
#include "core.hpp"
#include "ref.hpp"

namespace world {
using std::string;
using std::vector;

// what the parent needs to repeat an operation alone
struct Twin { string plan, outcome; };

// Executes a plan in this (forked) process. Ends in sim::finish() or sim::violate().
// twins: operations recorded for comparison with a pristine process; solo: run one op, return its outcome.
extern vector<Twin>* twinSink;
[[noreturn]] void run(const plan::Plan& p, const std::function<void()>& atEnd);
string runSolo(const plan::Plan& p);

string edit(const string& mail, const plan::Line& l, const std::function<string(const string&)>& other);

struct AsigCfg { string alg = "rsa", key = "none", fmt = "none", d, s; bool used = false; };
struct OptCfg {
	AsigCfg main; vector<AsigCfg> add;
	bool sha1 = false, hr = false, br = false;
	vector<string> headers, over;
	bool hasl = false; unsigned long l = 0;
	unsigned long arc = 0;
	bool hast = false, hasx = false, xabs = true; long t = -1, x = -1;
	string identity;
	bool unknownKey = false;
};
vector<string> defaultHeaders();
void applyCfg(OptCfg& c, const plan::Line& l);
plan::Line cfgLine(const OptCfg& c, const string& id);
extern string scratch; // directory for the tool's files
}
