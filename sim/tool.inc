// The command-line tool, run as its own process on simulated files, DNS and clock.
static string slurpFd(int fd)
{
	string s; char b[4096]; ssize_t n; off_t at = 0;
	while ((n = pread(fd, b, sizeof b, at)) > 0) { s.append(b, (size_t)n); at += n; }
	return s;
}
static sim::DnsAns zoneNow(const string& q)
{
	sim::DnsAns a{q, 2, ""};
	auto i = zone.find(ref::lower(q));
	if (i != zone.end()) for (auto& r : i->second) if (r.at <= sim::now) { a.status = r.st; a.text = r.text; }
	return a;
}
static void opTool(const Line& l)
{
	hit(sim::C_op_tool); ++sim::res->ops;
	bool sign = l.get("do") == "sign", lng = l.num("long") != 0;
	string dir = scratch + "/" + std::to_string(getpid());
	if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) { perror("scratch"); _exit(99); }
	vector<string> files, args{"dkimtool"}, made, dirs;
	std::map<string, string> content;
	if (sign) {
		const ref::PoolKey* k = ref::key(l.get("key"));
		string fmt = l.get("fmt"), ks = "garbage";
		if (k) ks = fmt == "pem" ? k->pem : fmt == "pkcs8" ? k->pkcs8 : fmt == "der" ? k->der : fmt == "raw64" ? k->secret : fmt == "raw32" ? k->seed : fmt == "b64" ? ref::b64e(k->secret) : fmt == "b32" ? ref::b64e(k->seed) : ks;
		content["key"] = ks;
		content["m0"] = mails[l.get("m", "m0")];
		files.push_back("m0");
		auto opt = [&](const char* s, const char* L, const string& v) { args.push_back(lng ? L : s); args.push_back(v); };
		opt("-s", "--selector", l.get("s")); opt("-d", "--domain", l.get("d")); opt("-k", "--keyfile", "key");
		if (l.has("K")) opt("-K", "--keyformat", l.get("K"));
		if (l.has("A")) opt("-A", "--arcinstance", l.get("A"));
	} else {
		args.push_back(lng ? "--validate" : "-v");
		if (l.num("a")) args.push_back(lng ? "--arc" : "-a");
		for (long i = 0; i < l.num("n", 1); ++i) { string f = "m" + std::to_string(i); files.push_back(f); content[f] = mails[f]; }
	}
	for (auto& f : files) args.push_back(f);
	string missing = l.get("missing"), isdir = l.get("dir");
	for (auto& c : content) {
		if (c.first == missing) { hit(sim::C_file_open_error); continue; }
		if (c.first == isdir) { hit(sim::C_file_read_error); mkdir(c.first.c_str(), 0700); dirs.push_back(c.first); continue; }
		int fd = open(c.first.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
		size_t at = 0; ssize_t n;
		while (at < c.second.size() && (n = write(fd, c.second.data() + at, c.second.size() - at)) > 0) at += (size_t)n;
		close(fd); made.push_back(c.first);
	}
	sim::fileFaults.clear();
	for (auto& x : split(l.get("ff"), ',')) {
		auto v = split(x, ':');
		if (v.size() < 4) continue;
		sim::fileFaults.push_back({v[0], v[1], (size_t)atol(v[2].c_str()), atol(v[3].c_str())});
	}
	sim::fileShort = l.num("short");
	static int* fired = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(fired, 0, 4096);
	sim::fileFired = fired;
	OpScope sc(l, 1000000);
	if (l.has("errno")) errno = (int)l.num("errno");
	int out = memfd_create("out", MFD_ALLOW_SEALING), err = memfd_create("err", 0);
	long lo = sim::clockNow(self);
	bool full = l.has("full"); // standard output goes to a place that is full after so many bytes
	if (full && (ftruncate(out, l.num("full")) || fcntl(out, F_ADD_SEALS, F_SEAL_GROW))) { perror("seal"); _exit(99); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		dup2(out, 1); dup2(err, 2);
		vector<char*> av; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
		sim::fileSeam = true; sim::logText = false;
		int n = (int)args.size();
		self->lib = 1;
		int rc = dkimtool_main(n, av.data());
		self->lib = 0; sim::fileSeam = false;
		fflush(stdout); fflush(stderr);
		sim::noteForeign();
		_exit(rc & 255);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	string so = slurpFd(out), se = slurpFd(err);
	if (full) so.resize((size_t)lseek(out, 0, SEEK_CUR));
	close(out); close(err);
	for (auto& f : made) unlink(f.c_str());
	for (auto& f : dirs) rmdir(f.c_str());
	if (chdir("/") == 0) rmdir(dir.c_str());
	if (sim::res->done == 2) _exit(0);
	sim::delay(10000000); // the tool's own waiting
	long hi = sim::clockNow(self);
	string cmd; for (auto& a : args) cmd += a + " ";
	string ctx = cmd + "| exit " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : std::to_string(WEXITSTATUS(st))) + " | stdout: " + so.substr(0, 700) + " | stderr: " + se.substr(0, 500);
	bool crashed = !WIFEXITED(st) || WEXITSTATUS(st) == 77 || se.find("AddressSanitizer") != string::npos || se.find("runtime error:") != string::npos;
	ev(string("tool ") + (crashed ? "crashed" : std::to_string(WEXITSTATUS(st)) + " " + so + " | " + se));
	sim::shape(string("tool") + (crashed ? "!" : std::to_string(WEXITSTATUS(st))));
	if (crashed) violate("tool-crash", ctx);
	int rc = WEXITSTATUS(st);
	if (full) {
		if (rc != 0) { hit(sim::C_file_write_error); return; } // part of the output is missing, and the tool said so
		ctx = "output limited to " + l.get("full") + " bytes: " + ctx; // it says that nothing is missing
	}
	auto broken = [&](const string& f) { // could not be opened or read
		if (f == missing || f == isdir) return true;
		for (size_t i = 0; i < sim::fileFaults.size(); ++i) if (sim::fileFaults[i].path == f && fired[i]) return true;
		return false;
	};
	auto sigs = [](const string& s) { string x = ref::lower(s); return x.find("dkim-signature:") != string::npos || x.find("arc-message-signature:") != string::npos; };
	if (sign) {
		bool bk = broken("key"), bm = broken("m0");
		OptCfg c; c.headers = defaultHeaders(); c.main.alg = l.get("K") == "ed25519" ? "ed" : "rsa"; c.main.key = l.get("key"); c.main.fmt = l.get("fmt"); c.main.d = l.get("d"); c.main.s = l.get("s");
		c.hr = c.br = true; c.hast = true; c.hasx = true; c.t = -1; c.x = 1; c.xabs = false; c.arc = (unsigned long)l.num("A");
		string mail = content["m0"];
		if (bk || bm) {
			if (sigs(so)) violate("signed-after-io-error", ctx);
			if (rc == 0) violate("io-error-hidden", ctx);
			if (se.empty()) violate("io-error-silent", ctx);
		} else if (!goodKey(c.main)) {
			if (rc == 0 || sigs(so)) violate("signed-without-key", ctx);
		} else {
			if (rc == 0 && !sigs(so)) violate("nothing-signed", ctx);
			if (rc != 0 && sigs(so)) violate("signed-and-failed", ctx);
			if (!signOutside(c, mail)) {
				if (rc != 0) violate("not-signed", ctx);
				string t = so;
				while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
				hit(sim::C_sign_ok);
				checkSigned(t, mail, c, ClkWin{{}, lo, hi});
			}
		}
		return;
	}
	bool arc = l.num("a") != 0;
	vector<string> lines = split(so, '\n');
	for (auto& f : files) {
		vector<string> rep;
		for (auto& x : lines) if (x.compare(0, f.size() + 2, "[" + f + "]") == 0) rep.push_back(x);
		ref::Msg m = ref::parse(content[f]);
		vector<size_t> idx; bool odd = false;
		for (size_t i = 0; i < m.f.size(); ++i) {
			if (m.f[i].name == (arc ? "arc-message-signature" : "dkim-signature")) idx.push_back(i);
			if (!m.f[i].raw.empty() && (m.f[i].raw[0] == ' ' || m.f[i].raw[0] == '\t')) odd = true;
		}
		if (odd) continue;
		bool br = broken(f);
		if (f == missing || f == isdir) {
			bool said = se.find(f) != string::npos;
			for (auto& x : rep) if (x.find("TEMPERR") != string::npos) said = true;
			if (!said) violate("io-error-silent", f + ": " + ctx);
			for (auto& x : rep) if (x.size() > 3 && x.compare(x.size() - 3, 3, " OK") == 0) violate("ok-for-unreadable", f + ": " + ctx);
			continue;
		}
		if (br) {
			bool said = se.find(f) != string::npos;
			for (auto& x : rep) if (x.find("TEMPERR") != string::npos) said = true;
			if (!said) violate("io-error-silent", f + ": " + ctx);
		} else if (rep.size() != idx.size()) violate("tool-lines", f + ": " + std::to_string(rep.size()) + " lines for " + std::to_string(idx.size()) + " signatures: " + ctx);
		if (rep.size() > idx.size()) violate("tool-lines", f + ": " + ctx);
		for (size_t i = 0; i < rep.size(); ++i) {
			const string& x = rep[i];
			string y = x; if (!y.empty() && y.back() == '\r') y.pop_back();
			int got = y.size() > 3 && y.compare(y.size() - 3, 3, " OK") == 0 && y.find("](") == string::npos ? (int)PASS : y.find("](permerror)") != string::npos ? (int)ref::PERM : y.find("](temperror)") != string::npos ? (int)ref::TEMP : y.find("](fail)") != string::npos ? (int)ref::FAIL : (int)OTHER;
			ref::Judge j0 = ref::judge(m, idx[i], nullptr);
			const string* rec = nullptr; sim::DnsAns a;
			if (j0.sig.ok) a = zoneNow(j0.sig.s + "._domainkey." + j0.sig.d);
			if (j0.sig.ok && a.status == 0 && !a.text.empty()) rec = &a.text;
			ref::Judge j = ref::judge(m, idx[i], rec);
			if (j.weird) { hit(sim::C_probe_weird_input); continue; }
			int expected = j.noKey;
			if (j.sig.ok && j.sig.hasx && !j.sig.xodd && j.sig.x < lo) expected |= ref::PERM;
			bool maybe = j.sig.ok && j.sig.hasx && (j.sig.xodd || j.sig.x < hi);
			if (j.sig.ok && !rec) expected |= a.status == 1 || a.status == 3 ? ref::TEMP : ref::PERM;
			if (rec) expected |= j.key;
			if (!expected) expected = PASS;
			if (maybe) expected |= ref::PERM;
			hit(got == PASS ? sim::C_sig_pass : got == ref::FAIL ? sim::C_sig_fail : got == ref::PERM ? sim::C_sig_perm : got == ref::TEMP ? sim::C_sig_temp : sim::C_sig_other);
			string why = f + " signature " + std::to_string(i) + ": got" + maskStr(got) + ", expected" + maskStr(expected) + " (" + j.why + "): " + ctx;
			if (got == PASS && !(expected & PASS)) violate("tool-false-ok", why);
			if (br) { if (got == ref::TEMP) continue; }
			if (got == OTHER || !(expected & got)) violate("tool-wrong-line", why);
		}
	}
}
