// Small reference model of RFC 6376 / RFC 8463 / RFC 8617 message signatures, independent of libdkim++.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace ref {
using std::string;
using std::vector;

struct Field { string raw; string name; size_t voff = 0; bool colon = false; };
struct Msg { vector<Field> f; string body; bool hasBody = false; };

Msg parse(const string& s);
string canonHeader(const string& raw, bool relaxed);
string canonBody(const string& body, bool relaxed);
bool bareCR(const string& s);           // a CR that is not part of CRLF

string b64e(const string& s);
string b64d(const string& s);           // ignores characters outside the alphabet
bool b64valid(const string& s);         // canonical apart from white space
string digest(const string& data, bool sha1);
string lower(string s);

struct Tag { string v; size_t rs = 0, re = 0; }; // trimmed value; raw region after '=' up to ';'
bool taglist(const string& s, std::map<string, Tag>& out);

struct Sig {
	bool ok = false; string why;
	bool arc = false, rsa = true, sha1 = false, hr = false, br = false;
	string d, s, b, bh, rawb, rawbh;
	vector<string> h;
	bool hasl = false; unsigned long l = 0;
	string ilocal, idom;
	bool hasx = false, iodd = false, xodd = false; long x = 0;
	bool hast = false; string t;
	unsigned long inst = 0;
	size_t rs = 0, re = 0; // raw region of b= within the value
};
Sig parseSig(const Field& f);

struct Key {
	bool ok = false, empty = false, odd = false; string why;
	bool rsa = true; bool hasH = false, sha1 = false, sha256 = false;
	string p; bool flagS = false, flagY = false; bool service = true;
};
Key parseKey(const string& rec);

// Possible reasons for not passing, as the result classes a verifier may report.
enum { FAIL = 1, PERM = 2, TEMP = 4, EXPIRED = 8 };
struct Judge { int noKey = 0, key = 0; bool weird = false; string why; Sig sig; bool expired = false; };
// noKey: findings that need no key; key: findings that need the record
Judge judge(const Msg& m, size_t idx, const string* rec);

string headerData(const Msg& m, size_t idx, const Sig& s);
bool verifyCrypto(const Sig& s, const Key& k, const string& data);

// Keys of the simulated world
struct PoolKey { string name; bool rsa; string pem, pkcs8, der, pub, secret, seed; };
const PoolKey* key(const string& name); // r1024a..c, r2048, ec, ed0..ed9
string record(const string& keyname, const string& extra = "");

string signData(const PoolKey& k, bool sha1, const string& data);

// A signature field by another implementation.
struct Foreign {
	string field;             // "DKIM-Signature" in any case, or ARC-Message-Signature
	vector<std::pair<string, string>> tags; // in order; "b" and "bh" get computed values
	string pre, eq, post, sep; // white space around names, '=' and values
	string keyname; bool sha1 = false, hr = false, br = false;
	bool hasl = false; unsigned long l = 0;
	int bfold = 0, bhfold = 0; string fws = "\r\n\t "; // folding inside the base64 values
	string bpre, bpost;
	bool trail = false;
	string bMod, bhMod;       // a change to the right value: x<pos> flips a bit, a<n> appends n bytes, c<n> cuts n, k<n> keeps n and replaces the rest
	string badBh, badB;       // when set: override
};
string foreignSign(const Foreign& f, const string& mail);

// DNS replies
struct Wire { bool structural = false, ambiguous = false; string text; vector<size_t> cuts; };
Wire decodeTXT(const string& pkt);
}
