// C22: command lines and sideband files.

/* ---- File ranges. ---- */
struct Num {
	const char *s;
	bool ok;
	uint64_t v;
};
static void ranges()
{
	Bytes t = PSB();
	app(t, by({0x0e, 0x99, 1}));
	app(t, PSB());
	app(t, by({0x59, 3}));
	uint64_t n = t.size(); /* 37 */
	static const Num N[] = {{"0", true, 0}, {"1", true, 1}, {"15", true, 15}, {"16", true, 16}, {"0x10", true, 16}, {"020", true, 16}, {"0X13", true, 19}, {"19", true, 19},
		{"35", true, 35}, {"36", true, 36}, {"37", true, 37}, {"38", true, 38}, {"0x7fffffffffffffff", true, 0x7fffffffffffffff},
		{"0x8000000000000000", true, 0x8000000000000000}, {"0xffffffffffffffff", true, ~0ull}, {"0x10000000000000000", false, 0},
		{"99999999999999999999", false, 0}, {"x", false, 0}, {"0x", false, 0}, {"1x", false, 0}, {"08", false, 0}, {"", false, 0}};
	mem["@pt"] = &t;
	for (auto &f : N)
		for (int k = 0; k < 2 + (int)(sizeof(N) / sizeof(*N)); k++)
			for (unsigned o : {0u, B(O_NOSYNC) | B(O_RAW)}) {
				if (!*f.s && k > 1)
					continue; /* a sign, not a range */
				/* k == 0: no end; 1: trailing garbage */
				std::string a = std::string("@pt:") + f.s;
				uint64_t b = f.v, e = n;
				bool ok = f.ok;
				if (k == 1)
					a += "z", ok = false;
				if (k > 1) {
					a += std::string("-") + N[k - 2].s;
					ok = ok && N[k - 2].ok;
					e = N[k - 2].v;
					/* An empty number is not specified; there is no such file either. */
					ok = ok && b < e;
				}
				ok = ok && b < n && e <= n;
				Strs c = cmd(o, Cfg());
				c.push_back(a);
				cur(join(c));
				Run r = dump(c);
				counters["evaluations"]++;
				distinct(fnv(r.out.data(), r.out.size(), r.rc != 0));
				if (!ok) {
					if (!r.rc || r.err.empty() || !r.out.empty())
						viol("range", fmt("ptdump %s on a file of %u bytes: status %d, prints \"%s\" and \"%s\"; should fail with a message",
								  join(c).c_str(), (unsigned)n, r.rc, r.out.substr(0, 200).c_str(), r.err.c_str()));
					continue;
				}
				std::string w = expect(t.data() + b, e - b, o, Cfg()), g = norm(r.out);
				if (r.rc || w != g)
					viol("range", fmt("ptdump %s on %s: status %d, %s", join(c).c_str(), hex(t).c_str(), r.rc, firstdiff(w, g).c_str()));
			}
}
/* ---- Numbers. ---- */
static void numbers()
{
	struct O {
		const char *n;
		uint64_t max;
	};
	static const O os[] = {{"--mtc-freq", 255}, {"--nom-freq", 255}, {"--cpuid-0x15.eax", 0xffffffff}, {"--cpuid-0x15.ebx", 0xffffffff},
		{"--pevent:sample-type", ~0ull}, {"--pevent:time-zero", ~0ull}, {"--pevent:time-shift", 0xffff}, {"--pevent:time-mult", 0xffffffff},
		{"--pevent:tsc-offset", ~0ull}, {"--pevent:kernel-start", ~0ull}};
	static const Num N[] = {{"0", true, 0}, {"1", true, 1}, {"0xff", true, 255}, {"255", true, 255}, {"256", true, 256}, {"0x100", true, 256}, {"65535", true, 65535}, {"0x10000", true, 65536},
		{"4294967295", true, 0xffffffff}, {"0x100000000", true, 0x100000000ull}, {"0xffffffffffffffff", true, ~0ull}, {"0x10000000000000000", false, 0}, {"x", false, 0}, {"3x", false, 0},
		{"", false, 0}, {"--time", false, 0}, {"@pt", false, 0}, {"08", false, 0}, {0, false, 0}};
	Bytes t = PSB();
	app(t, by({0x0e}));
	mem["@pt"] = &t;
	std::string w = expect(t.data(), t.size(), 0, Cfg());
	for (auto &o : os)
		for (auto &v : N) {
			Strs c = {o.n};
			if (v.s)
				c.push_back(v.s), c.push_back("@pt");
			cur(join(c));
			Run r = dump(c);
			counters["evaluations"]++;
			distinct(fnv(o.n, strlen(o.n), v.v ^ (uint64_t)r.rc));
			if (v.s && v.ok && v.v <= o.max) {
				if (r.rc || norm(r.out) != w)
					viol("argument", fmt("ptdump %s: status %d, prints \"%s\" and \"%s\"", join(c).c_str(), r.rc, r.out.c_str(), r.err.c_str()));
			} else if (!r.rc || r.err.empty() || !r.out.empty())
				viol("argument", fmt("ptdump %s: status %d, prints \"%s\" and \"%s\"; should fail with a message", join(c).c_str(), r.rc, r.out.c_str(), r.err.c_str()));
		}
}
/* ---- All short command lines. ---- */
static void lines()
{
	static const char *const T[] = {"--no-sync", "--quiet", "--no-pad", "--no-timing", "--no-cyc", "--no-offset", "--raw", "--lastip", "--exec-mode", "--time", "--tcal", "--time-delta", "--no-tcal",
		"--no-wall-clock", "--keep-tcal-on-ovf", "-h", "--help", "--version", "--bogus", "-", "--cpu", "none", "6/142", "6/x", "--mtc-freq", "3", "300", "--nom-freq", "--cpuid-0x15.eax",
		"--cpuid-0x15.ebx", "@pt", "@none", "@empty", "--sb", "--sb:verbose", "--sb:time", "--sb:warn", "--pevent", "@sb", "--pevent:sample-type", "--pevent:sample-config", "1:2", "1:", "--pevent:sysroot",
		"--pevent:kcore", "--pevent:vdso-x64"};
	const uint64_t n = sizeof(T) / sizeof(*T);
	Bytes t = PSB(), none, sb;
	app(t, by({0x99, 1, 0}));
	app(t, tsc(0x1000));
	app(t, ipp(0x0d, 3, 0x401000));
	app(t, cyc(4));
	mem["@pt"] = &t;
	mem["@empty"] = &none;
	mem["@sb"] = &sb;
	for (int d = 0; d <= (opt.thorough ? 4 : 3); d++) {
		uint64_t tot = 1;
		for (int i = 0; i < d; i++)
			tot *= n;
		for (uint64_t k = 0; k < tot; k++) {
			if (!mine(k))
				continue;
			if (late())
				return;
			Strs c;
			uint64_t x = k;
			for (int i = 0; i < d; i++, x /= n)
				c.push_back(T[x % n]);
			/* Most lines without a trace are the same. */
			if (d && c.back() != "@pt" && d == 4)
				continue;
			enum { OK, FAIL, INFO } want = FAIL;
			unsigned o = 0;
			Cfg g;
			bool file = false, bad = false, sbopen = false;
			size_t i;
			for (i = 0; i < c.size() && !bad && want != INFO; i++) {
				const std::string &s = c[i];
				if (s[0] != '-') {
					file = true;
					bad = i + 1 < c.size() || s != "@pt";
					break;
				}
				int f = -1;
				for (int q = 0; q < NOPT; q++)
					if (s == oname[q])
						f = q;
				if (f >= 0) {
					if ((f == O_TIME && (o & B(O_TCAL))) || (f == O_TCAL && (o & B(O_TIME))))
						bad = true;
					o |= B(f);
				} else if (s == "-h" || s == "--help" || s == "--version")
					want = INFO;
				else if (s == "--bogus" || s == "-")
					bad = true;
				else if (s == "--sb" || s == "--sb:verbose" || s == "--sb:time" || s == "--sb:warn")
					;
				else {
					std::string v = ++i < c.size() ? c[i] : "";
					if (v.empty())
						bad = true;
					else if (s == "--cpu") {
						if (v == "6/142")
							g.cpu = "6/142";
						else if (v == "none")
							g.cpu = 0;
						else
							bad = true;
					} else if (s == "--pevent") {
						bad = v != "@sb" && v != "@pt";
						sbopen = true;
					} else if (s == "--pevent:sample-config")
						bad = v != "1:2" && v != "1:";
					else if (s == "--pevent:sysroot" || s == "--pevent:kcore" || s == "--pevent:vdso-x64")
						;
					else if (v != "3" && v != "300")
						bad = true;
					else {
						unsigned u = v == "3" ? 3 : 300;
						if (s == "--mtc-freq")
							g.mtc = u, bad = u > 255;
						if (s == "--nom-freq")
							g.nom = u, bad = u > 255;
						if (s == "--cpuid-0x15.eax")
							g.eax = u;
						if (s == "--cpuid-0x15.ebx")
							g.ebx = u;
					}
				}
			}
			/* What an empty sample type means and what the trace looks like as a sideband file is not
			 * the question here. */
			bool odd = sbopen || std::find(c.begin(), c.end(), "1:") != c.end();
			if (want != INFO && !bad && file)
				want = OK;
			cur(join(c));
			Run r = dump(c);
			counters["evaluations"]++;
			distinct(fnv(r.out.data(), r.out.size(), (uint64_t)r.rc));
			std::string e;
			if (want == INFO)
				e = r.rc || r.out.empty() || !r.err.empty() ? "should print the information" : "";
			else if (want == FAIL)
				e = !odd && (!r.rc || r.err.empty() || !r.out.empty()) ? "should fail with a message" : "";
			else if (!odd) {
				std::string w = expect(t.data(), t.size(), o, g), q = norm(r.out);
				if (r.rc || w != q)
					e = firstdiff(w, q);
			}
			if (!e.empty())
				viol("command-line", fmt("ptdump %s: status %d, prints \"%s\" and \"%s\"; %s", join(c).c_str(), r.rc, r.out.substr(0, 200).c_str(), r.err.c_str(), e.c_str()));
			if (want_sample())
				sample("ptdump " + join(c) + fmt(": status %d", r.rc));
		}
	}
}
static void args()
{
	if (opt.shard == 0) {
		ranges();
		numbers();
	}
	lines();
}

/* ---- Sideband. ---- */
struct Rec {
	uint64_t time;
	std::string text;
	uint64_t off;
};
struct Chan {
	std::string name;
	Bytes file;
	std::vector<Rec> r;
	size_t pos;
};
static void sideband()
{
	static const uint64_t when[2][4] = {{0, 0x100000, 0x100800, 0x300000}, {0x80, 0xff000, 0x100801, 0x300001}};
	std::vector<Bytes> sy = {tsc(0x100000), tsc(0x100800), mtc(2), cyc(0x10), cbr(0x10), by({0}), PSB(), by({2, 0xff})};
	Cfg c = timecfgs()[0];
	int maxr = opt.thorough ? 3 : 2;
	uint64_t idx = 0;
	/* All pairs of channels with up to maxr records each. */
	std::vector<std::vector<int>> hist = {{}};
	for (size_t i = 0; i < hist.size(); i++)
		if ((int)hist[i].size() < maxr)
			for (int w = 0; w < 4; w++) {
				auto h = hist[i];
				h.push_back(w);
				hist.push_back(h);
			}
	static const unsigned flags[] = {1, 2, 1 | 4, 1 | 8, 1 | 16, 1 | 4 | 8 | 16, 2 | 16, 0, 32 | 1};
	for (size_t a = 0; a < hist.size(); a++)
		for (size_t b = 0; b < hist.size(); b++)
			for (uint64_t k = 0; k < sy.size() * sy.size() * sy.size(); k++) {
				if (!mine(idx++))
					continue;
				if (late())
					return;
				Bytes t = PSB();
				app(t, sy[k % 8]);
				app(t, sy[k / 8 % 8]);
				app(t, sy[k / 64]);
				unsigned fl = flags[idx / 8 % 9];
				if (opt.thorough && hist[a].size() + hist[b].size() > 4)
					fl = flags[idx / 8 % 3];
				uint64_t off = idx / 72 % 3 == 2 ? 0x800 : 0;
				Chan ch[2];
				unsigned id = 0x10;
				for (int i = 0; i < 2; i++) {
					ch[i].name = i ? "@sb1" : "@sb0";
					ch[i].pos = 0;
					for (int w : hist[i ? b : a]) {
						Rec r;
						uint64_t tm = when[i][w];
						r.off = ch[i].file.size();
						r.time = tm < off ? 0 : tm - off;
						id++;
						Bytes &f = ch[i].file;
						ref::put(f, 2, 4), ref::put(f, 2, 2), ref::put(f, 8 + 16 + 16, 2);
						ref::put(f, id, 8), ref::put(f, id * 3, 8);
						ref::put(f, 7, 4), ref::put(f, 9, 4), ref::put(f, tm, 8);
						if (fl & 4)
							r.text += ch[i].name;
						if (fl & 8)
							r.text += fmt("%s%016llx", fl & 4 ? ":" : "", (ull)r.off);
						if (!r.text.empty())
							r.text += " ";
						if (fl & 16)
							r.text += fmt("%016llx ", (ull)r.time);
						if (fl & 1)
							r.text += fmt("PERF_RECORD_LOST %x, %x { 7/9 %llx }\n", id, id * 3, (ull)tm);
						else
							r.text += fmt("PERF_RECORD_LOST\n id: %x\n lost: %x\n pid: 7\n tid: 9\n time: %llx\n", id, id * 3, (ull)tm);
						if (!(fl & 31) || (fl & 32))
							r.text = "";
						ch[i].r.push_back(r);
					}
					mem[ch[i].name] = &ch[i].file;
				}
				Strs s;
				if (fl & 1)
					s.push_back(idx & 1 ? "--sb" : "--sb:compact");
				if (fl & 2)
					s.push_back("--sb:verbose");
				if (fl & 4)
					s.push_back("--sb:filename");
				if (fl & 8)
					s.push_back("--sb:offset");
				if (fl & 16)
					s.push_back("--sb:time");
				s.push_back("--pevent:sample-type");
				s.push_back("6");
				if (off)
					s.push_back("--pevent:tsc-offset"), s.push_back(fmt("0x%llx", (ull)off));
				s.push_back("--pevent:primary"), s.push_back("@sb0");
				s.push_back("--pevent:secondary"), s.push_back("@sb1");
				unsigned o = idx % 5 == 0 ? B(O_TIME) : 0;
				if (fl & 32)
					o |= B(O_QUIET);
				for (auto &x : cmd(o, c))
					s.push_back(x);
				s.push_back("@pt");
				mem["@pt"] = &t;
				auto sb = [&](uint64_t tm) {
					std::string r;
					for (;;) {
						/* the earliest record that is due */
						int best = -1;
						for (int i = 0; i < 2; i++)
							if (ch[i].pos < ch[i].r.size() && ch[i].r[ch[i].pos].time <= tm &&
							    (best < 0 || ch[i].r[ch[i].pos].time < ch[best].r[ch[best].pos].time))
								best = i;
						if (best < 0)
							return r;
						for (int i = 0; i < 2; i++)
							if (i != best && ch[i].pos < ch[i].r.size() && ch[i].r[ch[i].pos].time == ch[best].r[ch[best].pos].time)
								counters["ties"]++;
						r += ch[best].r[ch[best].pos++].text;
					}
				};
				if (curbuf)
					cur(join(s) + " | " + hex(t));
				uint64_t ties = counters["ties"];
				std::string w = expect(t.data(), t.size(), o, c, sb);
				Run r = dump(s);
				std::string g = norm(r.out);
				counters["evaluations"]++;
				distinct(fnv(g.data(), g.size()));
				if (counters["ties"] != ties)
					continue; /* the order of simultaneous records is not specified */
				if (w != g || r.rc)
					viol("sideband", fmt("ptdump %s on %s with %s and %s: status %d, %s", join(s).c_str(), hex(t).c_str(), hex(ch[0].file).c_str(),
							     hex(ch[1].file).c_str(), r.rc, firstdiff(w, g).c_str()));
				if (want_sample())
					sample(join(s) + ": " + g.substr(0, 300));
			}
}
