// C26: the test trace compiler.  The real pttc runs in this process (yasm in a child) on generated files in a scratch
// directory; the trace it writes is compared with an independent encoder.
#include "common.hpp"
#include "refpkt.hpp"
extern "C" {
#include "pttc.h"
}
#include <set>
#include <sys/stat.h>
using namespace vf;
using ref::Bytes;
typedef std::vector<std::string> Strs;

struct Out {
	int rc = 0;
	Bytes pt;
	std::string exp, err;
	std::set<std::string> files; /* that pttc says it wrote */
	bool hasexp = false;
};
static std::string slurp(const char *n, bool *ok = 0)
{
	std::string s;
	FILE *f = fopen(n, "rb");
	if (ok)
		*ok = f != 0;
	if (!f)
		return s;
	char b[4096];
	size_t k;
	while ((k = fread(b, 1, sizeof(b), f)) > 0)
		s.append(b, k);
	fclose(f);
	return s;
}
static struct pt_cpu cpu;
static Out compile(const std::string &text, const char *expname = "x.exp")
{
	Out r;
	unlink("x.pt");
	unlink("x.lst");
	unlink("x.bin");
	unlink(expname);
	FILE *f = fopen("x.ptt", "wb");
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
	struct pttc_options o;
	memset(&o, 0, sizeof(o));
	o.pttfile = "x.ptt";
	o.cpu = cpu;
	char *ob = 0, *eb = 0;
	size_t on = 0, en = 0;
	FILE *so = stdout, *se = stderr;
	fflush(so);
	fflush(se);
	stdout = open_memstream(&ob, &on);
	stderr = open_memstream(&eb, &en);
	r.rc = pttc_main(&o);
	fclose(stdout);
	fclose(stderr);
	stdout = so;
	stderr = se;
	r.err.assign(eb, en);
	for (size_t i = 0, k; i < on; i = k + 1) {
		k = std::min(std::string(ob, on).find_first_of(" \n", i), on);
		if (k > i)
			r.files.insert(std::string(ob + i, k - i));
	}
	free(ob);
	free(eb);
	std::string p = slurp("x.pt");
	r.pt.assign(p.begin(), p.end());
	r.exp = slurp(expname, &r.hasexp);
	count("evaluations");
	return r;
}

/* ---- Well-formed directives and the bytes they stand for. ---- */
struct Dir {
	std::string s;
	Bytes b;
};
static std::vector<Dir> dirs;
static const char *const HEAD = "org 0x401000\nbits 64\nstart: nop\nhigh: nop\n";
static const uint64_t LSTART = 0x401000, LHIGH = 0x401001;

static Bytes enc(int t, uint64_t f0 = 0, uint64_t f1 = 0, uint64_t f2 = 0, uint64_t f3 = 0, uint64_t f4 = 0)
{
	ref::Pk k;
	k.type = t;
	uint64_t f[] = {f0, f1, f2, f3, f4};
	memcpy(k.f, f, sizeof(f));
	return ref::encode(k);
}
static std::string num(uint64_t v, int how)
{
	return fmt(how == 0 ? "0x%llx" : how == 1 ? "%llu" : "0%llo", (unsigned long long)v);
}
static void add(const std::string &s, const Bytes &b) { dirs.push_back({s, b}); }
static std::vector<uint64_t> vals(int bits)
{
	std::vector<uint64_t> v = {0, 1};
	for (int i = 1; i < bits; i++) {
		v.push_back(1ull << i);
		v.push_back((1ull << i) - 1);
		v.push_back(0x5a5a5a5a5a5a5a5aull & ((1ull << i) - 1));
	}
	v.push_back(bits == 64 ? ~0ull : (1ull << bits) - 1);
	return v;
}
static Bytes le(uint64_t v, int n)
{
	Bytes b;
	for (int i = 0; i < n; i++)
		b.push_back((uint8_t)(v >> (8 * i)));
	return b;
}
static void build()
{
	static const struct {
		const char *n;
		int t;
	} E[] = {{"psb", ppt_psb}, {"psbend", ppt_psbend}, {"pad", ppt_pad}, {"ovf", ppt_ovf}, {"stop", ppt_stop}};
	for (auto &e : E)
		add(fmt("%s()", e.n), enc(e.t));
	/* tnt */
	for (int n = 1; n <= 6; n++)
		for (unsigned v = 0; v < 1u << n; v++) {
			std::string s, d;
			for (int i = n; i--;) {
				char c = v >> i & 1 ? 't' : 'n';
				s += c;
				d += c;
				d += i % 3 == 0 ? "." : i % 3 == 1 ? " " : ". .";
			}
			add("tnt(" + s + ")", enc(ppt_tnt_8, (uint64_t)n, v));
			add("tnt(" + d + ")", enc(ppt_tnt_8, (uint64_t)n, v));
		}
	for (int n = 1; n <= 47; n++)
		for (int k = -3; k < n; k++) {
			uint64_t v = k == -3 ? 0 : k == -2 ? (1ull << n) - 1 : k == -1 ? 0x2d5a33c96a5cull & ((1ull << n) - 1) : 1ull << k;
			std::string s;
			for (int i = n; i--;) {
				s += v >> i & 1 ? 't' : 'n';
				if (i % 8 == 0 && k & 1)
					s += '.';
			}
			add("tnt64(" + s + ")", enc(ppt_tnt_64, (uint64_t)n, v));
		}
	/* IPs */
	static const struct {
		const char *n;
		int t;
	} I[] = {{"tip", ppt_tip}, {"tip.pge", ppt_tip_pge}, {"tip.pgd", ppt_tip_pgd}, {"fup", ppt_fup}};
	static const int bits[] = {0, 16, 32, 48, 48, 0, 64};
	for (auto &i : I) {
		add(fmt("%s(0: 0)", i.n), enc(i.t, 0, 0));
		for (int c = 1; c <= 6; c++) {
			if (c == 5)
				continue;
			int h = 0;
			for (uint64_t v : vals(bits[c]))
				add(fmt(h & 1 ? "%s(%d: %s)" : "%s(%d:%s)", i.n, c, num(v, h % 3).c_str()), enc(i.t, (uint64_t)c, v)), h++;
			add(fmt("%s(%d: %%start)", i.n, c), enc(i.t, (uint64_t)c, LSTART));
			add(fmt("%s(%d: %%high)", i.n, c), enc(i.t, (uint64_t)c, LHIGH));
		}
	}
	/* modes */
	for (int v = 0; v < 2; v++) {
		const char *f = v ? ", if" : "";
		add(fmt("mode.exec(16bit%s)", f), enc(ppt_mode, 0, 0, 0, (uint64_t)v));
		add(fmt("mode.exec(32bit%s)", f), enc(ppt_mode, 0, 0, 1, (uint64_t)v));
		add(fmt("mode.exec(64bit%s)", f), enc(ppt_mode, 0, 1, 0, (uint64_t)v));
	}
	add("mode.tsx(begin)", enc(ppt_mode, 1, 1, 0));
	add("mode.tsx(abort)", enc(ppt_mode, 1, 0, 1));
	add("mode.tsx(commit)", enc(ppt_mode, 1, 0, 0));
	int h = 0;
	for (uint64_t v : vals(52)) {
		uint64_t c = v & ~0x1full;
		add("pip(" + num(c, h % 3) + ")", enc(ppt_pip, c, 0));
		add("pip(" + num(c, h % 3) + ", nr)", enc(ppt_pip, c, 1));
		add("vmcs(" + num(v & ~0xfffull, h++ % 3) + ")", enc(ppt_vmcs, v & ~0xfffull));
	}
	for (uint64_t v : vals(56))
		add("tsc(" + num(v, h++ % 3) + ")", enc(ppt_tsc, v));
	for (unsigned v = 0; v < 256; v++) {
		add(fmt("cbr(%s)", num(v, (int)v % 3).c_str()), enc(ppt_cbr, v));
		add(fmt("mtc(%s)", num(v, (int)(v + 1) % 3).c_str()), enc(ppt_mtc, v));
	}
	for (uint64_t c : vals(16))
		for (uint64_t f : vals(9))
			add("tma(" + num(c, h++ % 3) + ", " + num(f, h % 3) + ")", enc(ppt_tma, c, f));
	for (uint64_t v : vals(64)) {
		add("cyc(" + num(v, h++ % 3) + ")", enc(ppt_cyc, v));
		add("mnt(" + num(v, h++ % 3) + ")", enc(ppt_mnt, v));
		add("raw-64(" + num(v, h++ % 3) + ")", le(v, 8));
		add("ptw(1: " + num(v, h % 3) + ")", enc(ppt_ptw, v, 1, 0));
		add("ptw(1: " + num(v, h % 3) + ", ip)", enc(ppt_ptw, v, 1, 1));
		for (int t = 0; t < 32; t += 5)
			add(fmt("evd(%d: ", t) + num(v, h % 3) + ")", enc(ppt_evd, (uint64_t)t, v));
	}
	for (uint64_t v : vals(32)) {
		add("raw-32(" + num(v, h++ % 3) + ")", le(v, 4));
		add("ptw(0: " + num(v, h % 3) + ")", enc(ppt_ptw, v, 0, 0));
		add("ptw(0: " + num(v, h % 3) + ", ip)", enc(ppt_ptw, v, 0, 1));
		add("mwait(" + num(v, h % 3) + ", " + num(v ^ 0x12345678, 0) + ")", enc(ppt_mwait, v, v ^ 0x12345678));
		add("mwait(" + num(0x3c, h % 3) + ", " + num(v, 1) + ")", enc(ppt_mwait, 0x3c, v));
	}
	for (uint64_t v : vals(16))
		add("raw-16(" + num(v, h++ % 3) + ")", le(v, 2));
	for (uint64_t v : vals(8))
		add("raw-8(" + num(v, h++ % 3) + ")", le(v, 1));
	add("exstop()", enc(ppt_exstop, 0));
	add("exstop(ip)", enc(ppt_exstop, 1));
	/* C-state n is encoded as n - 1; C0 as 0xf */
	auto cs = [](int n) { return (uint64_t)((n - 1) & 0xf); };
	for (int a = 0; a < 16; a++) {
		add(fmt("pwre(c%d)", a), enc(ppt_pwre, cs(a), cs(0), 0));
		add(fmt("pwre(c%d, hw)", a), enc(ppt_pwre, cs(a), cs(0), 1));
		for (int b = 0; b < 16; b++) {
			add(fmt("pwre(c%d.%d)", a, b), enc(ppt_pwre, cs(a), cs(b), 0));
			add(fmt("pwre(c%d.%d, hw)", a, b), enc(ppt_pwre, cs(a), cs(b), 1));
			add(fmt("pwrx(int: c%d, c%d)", a, b), enc(ppt_pwrx, cs(a), cs(b), 1, 0, 0));
			add(fmt("pwrx(st: c%d, c%d)", a, b), enc(ppt_pwrx, cs(a), cs(b), 0, 1, 0));
			add(fmt("pwrx(hw: c%d, c%d)", a, b), enc(ppt_pwrx, cs(a), cs(b), 0, 0, 1));
		}
	}
	/* types whose vector is ignored don't need one */
	for (int t : {2, 3, 4, 6, 7, 8, 0xa, 0xd})
		for (int ip = 0; ip < 2; ip++)
			add(fmt("cfe(%d%s)", t, ip ? ", ip" : ""), enc(ppt_cfe, (uint64_t)t, 0, (uint64_t)ip));
	for (int t : {1, 5, 9, 0xc})
		for (int ip = 0; ip < 2; ip++)
			for (int v = 0; v < 256; v += v < 8 ? 1 : 13)
				add(fmt("cfe(%d: %d%s)", t, v, ip ? ", ip" : ""), enc(ppt_cfe, (uint64_t)t, (uint64_t)v, (uint64_t)ip));
	for (int b = 0; b < 256; b += b < 4 ? 1 : 3)
		for (int f = 0; f < 4; f++) {
			std::string s = fmt("%s%s", f & 1 ? ", ip" : "", f & 2 ? ", mult" : "");
			add(fmt("trig(%d%s)", b, s.c_str()), enc(ppt_trig, f & 1, 0, f >> 1 & 1, (uint64_t)b, 0));
			for (uint64_t i : {0, 1, 0x1234, 0xffff})
				add(fmt("trig(0x%x%s, icnt: %s)", b, s.c_str(), num(i, b % 3).c_str()),
				    enc(ppt_trig, f & 1, 1, f >> 1 & 1, (uint64_t)b, i));
		}
}

static void report(const Dir &d, const Out &o)
{
	viol("directive", fmt("@pt %s: status %d, writes %s, says \"%s\"; expected %s", d.s.c_str(), o.rc, hex(o.pt).c_str(),
			      o.err.c_str(), hex(d.b).c_str()));
}
static void directives()
{
	build();
	count("directives", opt.shard == 0 ? dirs.size() : 0);
	/* Every directive is at every place of a short file: batches of neighbours, then of strangers. */
	const size_t B = opt.thorough ? 7 : 23;
	int rounds = opt.thorough ? 12 : 3;
	for (int r = 0; r < rounds; r++) {
		size_t n = dirs.size(), stride = r == 0 ? 1 : r == 1 ? 97 : 101 + 2 * (size_t)r;
		while (n % stride == 0 && stride > 1)
			stride++;
		for (size_t b = 0; b < n; b += B) {
			if (!mine(b / B))
				continue;
			std::string t = HEAD;
			Bytes w;
			std::vector<size_t> ix;
			for (size_t k = b; k < std::min(n, b + B); k++) {
				const Dir &d = dirs[k * stride % n];
				ix.push_back(k * stride % n);
				t += (k & 1 ? "; @pt " : "nop ; text @pt ") + (k % 5 ? std::string() : fmt("l%zu: ", k)) + d.s + "\n";
				w.insert(w.end(), d.b.begin(), d.b.end());
			}
			cur(t);
			Out o = compile(t);
			distinct(fnv(o.pt.data(), o.pt.size()));
			if (!o.rc && o.pt == w && o.err.empty())
				continue;
			/* which one is it? */
			bool found = false;
			for (size_t i : ix) {
				Out p = compile(HEAD + ("; @pt " + dirs[i].s) + "\n");
				if (p.rc || p.pt != dirs[i].b || !p.err.empty())
					report(dirs[i], p), found = true;
			}
			if (!found)
				viol("sequence", fmt("status %d, writes %s, says \"%s\"; expected %s\n%s", o.rc, hex(o.pt).c_str(),
						     o.err.c_str(), hex(w).c_str(), t.c_str()));
		}
	}
}

/* ---- Directives that don't have a meaning. ---- */
static void malformed()
{
	static const char *const M[] = {
		"tnt()", "tnt( )", "tnt(.)", "tnt(ttttttt)", "tnt(x)", "tnt(t,n)", 
		"tnt64(tttttttttttttttttttttttttttttttttttttttttttttttt)", "tnt64(0)", "tip()", "tip(1)", "tip(1:)", "tip(5: 0)",
		"tip(7: 0)", "tip(x: 0)", "tip(1: y)", "tip(1: %nolabel)", "fup(3: 0x10000000000000000)", "fup(8: 1)", "tip.pge(9: 1)",
		"tip.pgd(-1: 1)", "mode.exec()", "mode.exec(8bit)", "mode.exec(64bit, of)", "mode.tsx()", "mode.tsx(end)", "pip()",
		"pip(x)", "pip(0x1000, rn)", "tsc()", "tsc(x)", "tsc(0x10000000000000000)", "cbr()", "cbr(256)",
		"cbr(x)", "tma()", "tma(1)", "tma(0x10000, 1)", "tma(1, 0x200)", "tma(1, 0x10000)", "tma(x, 1)", "tma(1, x)", "mtc()",
		"mtc(0x100)", "mtc(x)", "cyc()", "cyc(x)", "cyc(0x10000000000000000)", "vmcs()", "vmcs(x)", "mnt()", "mnt(x)",
		"mnt(0x10000000000000000)", "exstop(pi)", "mwait()", "mwait(1)", "mwait(0x100000000, 0)", "mwait(0, 0x100000000)", "mwait(x, 0)",
		"pwre()", "pwre(1)", "pwre(c16)", "pwre(c1.16)", "pwre(c1, sw)", "pwrx()", "pwrx(int)", "pwrx(int: c1)", "pwrx(foo: c1, c2)",
		"pwrx(int: c16, c1)", "pwrx(int: c1, c16)", "ptw()", "ptw(0)", "ptw(2: 1)", "ptw(3: 1)", "ptw(0: x)",
		"ptw(1: 1, pi)", "cfe()", "cfe(x)", "cfe(1)", "cfe(9)", "cfe(256)", "cfe(1: 256)", "cfe(1: x)", "cfe(2, pi)", "evd()",
		"evd(0)", "evd(x: 0)", "evd(0: x)", "trig()", "trig(x)", "trig(256)", "trig(1, icnt)", "trig(1, icnt: x)",
		"trig(1, icnt: 0x10000)", "raw-8()", "raw-8(256)", "raw-8(x)", "raw-16(0x10000)", "raw-16()", "raw-32(0x100000000)", "raw-32()",
		"raw-64(0x10000000000000000)", "raw-64()", "psbend(1)", "pad(x)", "ovf(0)", "psb(0)", "stop(0)", "foo()", "psb", "psb(", "tnt", "",
		"l:", "start: pad()", "()", "tip.(1: 0)", "raw-7(0)"};
	int i = 0;
	for (const char *m : M)
		for (int where = 0; where < 3; where++) {
			if (!mine((uint64_t)i++))
				continue;
			std::string t = HEAD;
			if (where == 1)
				t += "; @pt psb()\n; @pt pad()\n";
			t += std::string("; @pt ") + m + "\n";
			if (where == 2)
				t += "; @pt psb()\n; @pt pad()\n";
			cur(t);
			Out o = compile(t);
			distinct(fnv(o.err.data(), o.err.size(), (uint64_t)o.rc));
			if (!o.rc || o.err.empty())
				viol(fmt("malformed %s", m).c_str(), fmt("@pt %s (%d): status %d, writes %s, says \"%s\"; should fail with a message", m, where, o.rc,
						      hex(o.pt).c_str(), o.err.c_str()));
		}
	/* directives of any length, and what's behind them; too long ones fail */
	for (int n = 0; n < 1200; n += n < 240 || (n > 270 && n < 1000) ? 17 : 1) {
		if (!mine((uint64_t)i++))
			continue;
		std::string t = std::string(HEAD) + "; @pt tnt64(t" + std::string((size_t)n, n & 1 ? '.' : ' ') + "nt)x(tt) ) # cbr(1) ; @pt pad()\n";
		cur(t);
		Out o = compile(t);
		bool ok = !o.rc && o.err.empty() && o.pt == enc(ppt_tnt_64, 3, 5);
		bool refused = n > 256 && o.rc && !o.err.empty() && o.pt.empty();
		if (!ok && !refused)
			viol("long", fmt("an argument of %d characters: status %d, writes %s, says \"%s\"", n + 3, o.rc, hex(o.pt).c_str(), o.err.c_str()));
	}
	for (int n = 1; n < 1100; n += n < 240 || (n > 270 && n < 1000) ? 17 : 1) {
		if (!mine((uint64_t)i++))
			continue;
		std::string l((size_t)n, 'l');
		std::string t = HEAD + ("; @pt pad()\n; @pt " + l) + ": pad()\n; @pt .exp()\n;%" + l + "\n";
		cur(t);
		Out o = compile(t);
		bool ok = !o.rc && o.err.empty() && o.pt == Bytes(2, 0) && o.exp == "1\n";
		bool refused = n > 64 && o.rc && !o.err.empty();
		if (!ok && !refused)
			viol("long label", fmt("a label of %d characters: status %d, writes %s, says \"%s\"", n, o.rc, hex(o.pt).c_str(), o.err.c_str()));
	}
	/* the same label twice */
	if (mine((uint64_t)i++)) {
		Out o = compile(std::string(HEAD) + "; @pt a: pad()\n; @pt a: pad()\n");
		if (!o.rc || o.err.empty())
			viol("malformed", "a label that is used twice is accepted");
	}
}

/* ---- Expected output. ---- */
static void expfiles()
{
	struct L {
		const char *n;
		uint64_t v;
	};
	static const uint64_t ORG[] = {0, 0x1000, 0xc0001, 0x401000, 0xffffff004c, 0x7fffffffff00ull, 0xffffffff81000000ull};
	uint64_t idx = 0;
	static const struct {
		int f, m, s;
		const char *n;
	} CPU[] = {{0, 0, 0, ""}, {6, 61, 0, "-cpu_6_61"}, {6, 78, 3, "-cpu_6_78_3"}, {6, 92, 10, "-cpu_6_92_10"}};
	for (uint64_t org : ORG)
		for (int np = 0; np < 4; np++)
			for (int tool = 0; tool < 12; tool++) {
				if (!mine(idx++))
					continue;
				const auto &C = CPU[tool / 3];
				cpu.vendor = tool < 3 ? pcv_unknown : pcv_intel;
				cpu.family = (uint16_t)C.f;
				cpu.model = (uint8_t)C.m;
				cpu.stepping = (uint8_t)C.s;
				int how = tool % 3;
				std::string name = std::string(how ? "x-foo" : "x") + C.n + ".exp", name2 = std::string("x-ba.r") + C.n + ".exp", want2;
				std::string t = fmt("org 0x%llx\nbits 64\nla: nop\nl_2: nop\n", (unsigned long long)org);
				uint64_t la = org, l2 = org + 1, po[5] = {0}, n = 0;
				for (int i = 0; i < np; i++) {
					po[i] = n;
					t += fmt("; @pt p%d: %s\n", i, i == 0 ? "psb()" : i == 1 ? "fup(3: %la)" : "pad()");
					n += i == 0 ? 16 : i == 1 ? 7 : 1;
				}
				t += how ? "; @pt .exp(foo)\n" : "; @pt .exp()\n";
				std::string want;
				auto line = [&](const std::string &l, const std::string &w) {
					t += l + "\n";
					want += w + "\n";
				};
				line("; a b   c\t ", " a b   c");
				line("nop ;x # comment ; more", "x");
				line(";", "");
				line("; a #b #c", " a");
				line(";x#y;z#%nolabel", "x");
				line(";#", "");
				line("l_3: nop ; ;\t; y \t # x", " ;\t; y");
				line(";;%0la;#", ";" + fmt("%016llx", (unsigned long long)la) + ";");
				line(";@pt pad()", "@pt pad()");
				line("; @pt", " @pt");
				t += "\nnop\n";
				auto mask = [](uint64_t v, int k) { return k >= 8 ? v : v & ((1ull << (8 * k)) - 1); };
				for (auto &l : {L{"la", la}, L{"l_2", l2}}) {
					line(fmt(";%%%s", l.n), fmt("%llx", (unsigned long long)l.v));
					line(fmt("; %%0%s,%%%s.", l.n, l.n) == "" ? "" : fmt("; %%0%s, %%%s", l.n, l.n),
					     fmt(" %016llx, %llx", (unsigned long long)l.v, (unsigned long long)l.v));
					line(fmt("; x%%?%s y", l.n), fmt(" x%016llx y", (unsigned long long)l.v));
					for (int k = 1; k <= 8; k++) {
						unsigned long long m = mask(l.v, k);
						line(fmt(";%%%s.%d", l.n, k), fmt("%llx", m));
						line(fmt(";%%0%s.%d z", l.n, k), fmt("%016llx z", m));
						std::string q = fmt("%016llx", m);
						for (int j = 0; j < 16 - 2 * k; j++)
							q[(size_t)j] = '?';
						line(fmt("; %%?%s.%d", l.n, k), " " + q);
					}
				}
				for (int i = 0; i < np; i++) {
					line(fmt(";%%p%d", i), fmt("%llx", (unsigned long long)po[i]));
					line(fmt(";%%0p%d  pkt", i), fmt("%016llx  pkt", (unsigned long long)po[i]));
				}
				line(";%eos", fmt("%llx", (unsigned long long)n));
				line(";%0eos [end]", fmt("%016llx [end]", (unsigned long long)n));
				cur(t);
				if (how == 2) {
					/* lines and pt directives behind the first .exp belong to the second file, or mean nothing */
					t += "nop ; @pt .exp(ba.r)\n; second\n;%la, %?l_2.3\n";
					want2 = fmt(" second\n%llx, ??????????%06llx\n", (unsigned long long)la, (unsigned long long)(l2 & 0xffffff));
				}
				unlink(name2.c_str());
				cur(t);
				Out o = compile(t, name.c_str());
				std::string got2 = slurp(name2.c_str());
				std::set<std::string> fs = {name};
				if (how == 2)
					fs.insert(name2);
				memset(&cpu, 0, sizeof(cpu));
				distinct(fnv(o.exp.data(), o.exp.size()));
				if (o.rc || !o.err.empty() || o.exp != want || got2 != want2 || o.files != fs) {
					size_t k = 0, ln = 0;
					while (k < want.size() && k < o.exp.size() && want[k] == o.exp[k])
						ln = want[k] == '\n' ? k + 1 : ln, k++;
					viol("exp", fmt("status %d, \"%s\"; .exp (%s, %s) differs: got \"%s\" expected \"%s\"\n%s", o.rc, o.err.c_str(), name.c_str(), got2.c_str(),
							o.exp.substr(ln, 60).c_str(), want.substr(ln, 60).c_str(), t.c_str()));
				}
			}
}

static void put(Bytes &b, uint64_t v, int n)
{
	for (int i = 0; i < n; i++)
		b.push_back((uint8_t)(v >> (8 * i)));
}
static void puts_(Bytes &b, const std::string &s)
{
	b.insert(b.end(), s.begin(), s.end());
	do
		b.push_back(0);
	while (b.size() % 8);
}

/* ---- Sections and their labels. ---- */
static void sections()
{
	static const uint64_t ORG[] = {0, 0x1000, 0x401000};
	static const uint64_t V[] = {0xa000, 0x7fffffff0000ull, 0xffffffff80000000ull};
	static const int LEN[] = {1, 2, 15, 64};
	uint64_t idx = 0;
	for (uint64_t org : ORG)
		for (int n = 1; n <= 3; n++)
			for (int pat = 0; pat < 64; pat++) {
				if (pat >> (2 * n))
					break;
				if (!mine(idx++))
					continue;
				std::string t = fmt("org 0x%llx\nbits 64\n", (unsigned long long)org), want;
				static const char *const N[] = {"text", "s1", "foo_bar"};
				uint64_t start = org, pt = 0;
				Bytes w;
				struct S {
					uint64_t start, v, len;
				} sec[3];
				std::string lines;
				for (int i = 0; i < n; i++) {
					uint64_t len = (uint64_t)LEN[pat >> (2 * i) & 3];
					sec[i] = {start, V[(i + n) % 3] + (uint64_t)i * 16, len};
					t += fmt("section %s vstart=0x%llx start=0x%llx\n", N[i], (unsigned long long)sec[i].v, (unsigned long long)start);
					for (uint64_t k = 0; k < len; k++) {
						if (k == 0 || k == len / 2 || k + 1 == len)
							t += fmt("l%d_%llu: ", i, (unsigned long long)k);
						t += "nop\n";
						if (k == len / 2) {
							t += fmt("; @pt fup(3: %%l%d_%llu)\n", i, (unsigned long long)k);
							Bytes b = enc(ppt_fup, 3, sec[i].v + k);
							w.insert(w.end(), b.begin(), b.end());
						}
					}
					start += 0x100;
				}
				(void)pt;
				Bytes sb;
				for (int i = 0; i < n; i++) {
					if (i == 0)
						t += "; @sb primary(pevent)\n";
					t += fmt("; @sb pevent-mmap-section(%s, %d, 0x%x)\n", N[i], i + 7, pat * 1000);
					Bytes b;
					put(b, (uint64_t)i + 7, 4), put(b, (uint64_t)pat * 1000, 4);
					put(b, sec[i].v, 8), put(b, sec[i].len, 8), put(b, sec[i].start - org, 8);
					puts_(b, "x.bin");
					put(sb, 1, 4), put(sb, 0, 2), put(sb, b.size() + 8, 2);
					sb.insert(sb.end(), b.begin(), b.end());
				}
				const char *sbn = "x-pevent-primary,sample-type=0x0,time-zero=0x0,time-shift=0x0,time-mult=0x1.sb";
				unlink(sbn);
				t += "; @pt .exp(foo)\n";
				auto line = [&](const std::string &l, uint64_t v) {
					t += ";%0" + l + "\n";
					want += fmt("%016llx\n", (unsigned long long)v);
				};
				for (int i = 0; i < n; i++) {
					for (uint64_t k = 0; k < sec[i].len; k++)
						if (k == 0 || k == sec[i].len / 2 || k + 1 == sec[i].len)
							line(fmt("l%d_%llu", i, (unsigned long long)k), sec[i].v + k);
					line(fmt("section_%s_start", N[i]), sec[i].start);
					line(fmt("section_%s_vstart", N[i]), sec[i].v);
					line(fmt("section_%s_length", N[i]), sec[i].len);
				}
				line("eos", w.size());
				cur(t);
				Out o = compile(t, "x-foo.exp");
				distinct(fnv(o.exp.data(), o.exp.size()));
				std::string g = slurp(sbn);
				Bytes gb(g.begin(), g.end());
				if (o.rc || !o.err.empty() || o.exp != want || o.pt != w || gb != sb)
					viol("section", fmt("status %d, \"%s\"; .exp \"%s\" expected \"%s\", trace %s expected %s, sideband %s expected %s\n%s", o.rc, o.err.c_str(),
							    o.exp.c_str(), want.c_str(), hex(o.pt).c_str(), hex(w).c_str(), hex(gb).c_str(), hex(sb).c_str(), t.c_str()));
			}
}

/* ---- Sideband directives and the perf records they stand for. ---- */
static const struct {
	const char *n;
	int bit, nargs, args[2];
} SMP[] = {{"tid", 1, 2, {4, 4}}, {"time", 2, 1, {8}}, {"id", 6, 1, {8}}, {"cpu", 7, 1, {4}}, {"stream", 9, 1, {8}}, {"identifier", 16, 1, {8}}};
static uint64_t rnd(uint64_t &x) { return x = x * 6364136223846793005ull + 1442695040888963407ull, x ^ x >> 29; }
/* An event with arguments made from @x. */
static std::string event(int k, int mask, uint64_t x, Bytes &out)
{
	static const struct {
		const char *n;
		uint32_t type;
		uint16_t misc;
		const char *args;
	} E[] = {{"pevent-mmap", 1, 0, "ddqqqs"}, {"pevent-lost", 2, 0, "qq"}, {"pevent-comm", 3, 0, "dds"}, {"pevent-comm.exec", 3, 1 << 13, "dds"},
		 {"pevent-exit", 4, 0, "ddddq"}, {"pevent-fork", 7, 0, "ddddq"}, {"pevent-aux", 11, 0, "qqq"}, {"pevent-itrace-start", 12, 0, "dd"},
		 {"pevent-lost-samples", 13, 0, "q"}, {"pevent-switch.in", 14, 0, ""}, {"pevent-switch.out", 14, 1 << 13, ""},
		 {"pevent-switch-cpu-wide.in", 15, 0, "dd"}, {"pevent-switch-cpu-wide.out", 15, 1 << 13, "dd"}};
	if (k >= (int)(sizeof(E) / sizeof(E[0])))
		return "";
	std::string s = std::string(E[k].n) + "(", sep;
	Bytes b;
	for (const char *a = E[k].args; *a; a++) {
		uint64_t v = rnd(x);
		s += sep;
		sep = x & 64 ? "," : ", ";
		if (*a == 's') {
			std::string f = "a";
			for (uint64_t i = v % 19; i--;)
				f += (char)('b' + i % 20);
			s += f;
			puts_(b, f);
			continue;
		}
		if (*a == 'd')
			v &= 0xffffffff;
		if (x & 256)
			v = x & 512 ? (*a == 'd' ? 0xffffffff : ~0ull) : 0;
		s += num(v, (int)(x >> 40) % 3 ? 0 : 1);
		put(b, v, *a == 'd' ? 4 : 8);
	}
	uint64_t val[8];
	int nv = 0;
	uint64_t by[6][2] = {};
	for (int i = 0; i < 6; i++)
		if (mask >> i & 1)
			for (int j = 0; j < SMP[i].nargs; j++) {
				uint64_t v = rnd(x);
				if (SMP[i].args[j] == 4)
					v &= 0xffffffff;
				by[i][j] = val[nv++] = v;
				s += sep + num(v, 0);
				sep = ", ";
			}
	s += ")";
	/* the order in memory: tid, time, id, stream, cpu, identifier */
	static const int O[] = {0, 1, 2, 4, 3, 5};
	for (int o : O)
		if (mask >> o & 1) {
			if (o == 0)
				put(b, by[0][0], 4), put(b, by[0][1], 4);
			else if (o == 3)
				put(b, by[3][0], 4), put(b, 0, 4);
			else
				put(b, by[o][0], 8);
		}
	put(out, E[k].type, 4);
	put(out, E[k].misc, 2);
	put(out, b.size() + 8, 2);
	out.insert(out.end(), b.begin(), b.end());
	return s;
}
static void sideband()
{
	uint64_t idx = 0;
	const int reps = opt.thorough ? 64 : 4;
	/* every sample type x how it is written: all events, twice, with other arguments */
	for (int mask = 0; mask < 64; mask++)
		for (int how = 0; how < 5; how++)
			for (int rep = 0; rep < reps; rep++) {
				if (!mine(idx++))
					continue;
				uint64_t x = (uint64_t)(mask * 77 + how * 5003 + rep * 100003);
				bool src = how & 1, sec = how & 2;
				uint64_t st = 0;
				for (int i = 0; i < 6; i++)
					st |= mask >> i & 1 ? 1ull << SMP[i].bit : 0;
				/* pttc notes the configuration in the name */
				std::string name = fmt("x%s-pevent-%s,sample-type=0x%llx,time-zero=0x0,time-shift=0x0,time-mult=0x1.sb", src ? "-src1" : "",
						       sec ? "secondary" : "primary", (unsigned long long)st);
				std::string t = HEAD;
				std::string o2 = fmt("x-raw-%s.sb", sec ? "primary" : "secondary");
				Bytes w, w2;
				t += fmt("; @sb %s(pevent%s)\n", sec ? "secondary" : "primary", src ? (rep & 1 ? ",src1" : ", src1") : "");
				std::string ty;
				for (int i = 0; i < 6; i++) {
					int j = how == 3 ? 5 - i : i;
					if (!(mask >> j & 1))
						continue;
					if (!ty.empty())
						ty += ", ";
					bool n = how == 4 || (how >= 2 && (j + how) % 2);
					ty += n ? fmt("0x%x", 1u << SMP[j].bit) : std::string(SMP[j].n);
				}
				if (mask || how)
					t += "; @sb pevent-sample_type(" + (ty.empty() ? "0" : ty) + ")\n";
				std::string want;
				for (int k = 0; k < 26; k++) {
					if (!(k & 3))
						want += fmt("%llx\n", (unsigned long long)w.size());
					t += (k & 3 ? "; @sb " : fmt("nop ; @sb b%d: ", k)) + event(k % 13, mask, x + (uint64_t)k * 31, w) + "\n";
					if (k % 7 == 3) {
						/* something for another file, and back */
						t += fmt("; @sb %s(raw)\n; @sb raw-%d(%d)\n; @pt pad()\n; @sb %s(pevent%s)\n", sec ? "primary" : "secondary",
							 8 << (k / 7), k + how, sec ? "secondary" : "primary", src ? ", src1" : "");
						put(w2, (uint64_t)(k + how), 1 << (k / 7));
					}
				}
				t += "; @pt .exp()\n";
				for (int k = 0; k < 26; k += 4)
					t += fmt(";%%b%d\n", k);
				unlink(name.c_str());
				unlink(o2.c_str());
				cur(t);
				Out o = compile(t);
				std::string g = slurp(name.c_str()), g2 = slurp(o2.c_str());
				distinct(fnv(g.data(), g.size()));
				if (!o.rc && o.err.empty() && Bytes(g.begin(), g.end()) == w && Bytes(g2.begin(), g2.end()) == w2 && o.pt == Bytes(4, 0) && o.exp == want && o.files == std::set<std::string>{"x.exp", name, o2})
					continue;
				viol(fmt("sideband %d", how).c_str(), fmt("status %d, \"%s\"; writes %s expected %s; other file %s expected %s, labels \"%s\" expected \"%s\"\n%s", o.rc, o.err.c_str(),
							      hex(Bytes(g.begin(), g.end())).c_str(), hex(w).c_str(), hex(Bytes(g2.begin(), g2.end())).c_str(), hex(w2).c_str(), o.exp.c_str(), want.c_str(), t.c_str()));
				unlink(name.c_str());
			}
	/* raw values */
	for (int sz = 1; sz <= 8; sz *= 2)
		for (uint64_t v : vals(8 * sz)) {
			if (!mine(idx++))
				continue;
			std::string t = std::string(HEAD) + fmt("; @sb primary(raw)\n; @sb raw-%d(%s)\n", 8 * sz, num(v, (int)(v % 3)).c_str());
			unlink("x-raw-primary.sb");
			cur(t);
			Out o = compile(t);
			std::string g = slurp("x-raw-primary.sb");
			if (o.rc || !o.err.empty() || Bytes(g.begin(), g.end()) != le(v, sz))
				viol("sideband raw", fmt("status %d, \"%s\" writes %s\n%s", o.rc, o.err.c_str(), hex(Bytes(g.begin(), g.end())).c_str(), t.c_str()));
		}
	/* without a file, with too few and too many samples, changed too late */
	static const char *const M[] = {
		"; @sb pevent-switch.in()\n", "; @sb raw-8(1)\n", "; @sb pevent-sample_type(tid)\n",
		"; @sb primary(pevent)\n; @sb pevent-switch.in(1)\n", "; @sb primary(pevent)\n; @sb pevent-sample_type(tid)\n; @sb pevent-switch.in(1)\n",
		"; @sb primary(pevent)\n; @sb pevent-sample_type(tid)\n; @sb pevent-switch.in(1, 2, 3)\n",
		"; @sb primary(pevent)\n; @sb pevent-switch.in()\n; @sb pevent-sample_type(tid)\n", "; @sb primary()\n", "; @sb secondary()\n",
		"; @sb primary(pevent)\n; @sb pevent-sample_type(foo)\n", "; @sb primary(pevent)\n; @sb pevent-foo()\n", "; @sb primary(raw)\n; @sb raw-8(256)\n",
		"; @sb primary(raw)\n; @sb raw-16(0x10000)\n", "; @sb primary(raw)\n; @sb raw-32(0x100000000)\n",
		"; @sb primary(pevent)\n; @sb pevent-fork(1, 2, 3, 4)\n", "; @sb primary(pevent)\n; @sb pevent-itrace-start(1)\n",
		"; @sb primary(pevent)\n; @sb pevent-itrace-start(0x100000000, 1)\n", "; @sb primary(pevent)\n; @sb pevent-aux(1, 2)\n",
		"; @sb primary(pevent)\n; @sb pevent-mmap(1, 2, 3, 4, 5)\n", "; @sb primary(pevent)\n; @sb pevent-mmap-section(nosuch, 1, 2)\n"};
	for (const char *m : M) {
		if (!mine(idx++))
			continue;
		cur(m);
		Out o = compile(std::string(HEAD) + m);
		if (!o.rc || o.err.empty())
			viol(fmt("sideband malformed %s", m).c_str(), fmt("%s: status %d, says \"%s\"; should fail with a message", m, o.rc, o.err.c_str()));
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	if (chdir(opt.scratch.c_str()))
		return 3;
	if (opt.part == "directives")
		directives();
	else if (opt.part == "malformed")
		malformed();
	else if (opt.part == "sections")
		sections();
	else if (opt.part == "sideband")
		sideband();
	else
		expfiles();
	return finish();
}
