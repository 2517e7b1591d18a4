// C22: the packet dump.  The real ptdump runs in this process on enumerated traces, option sets,
// command lines and sideband files; its output is compared with what the packet decoder reports,
// formatted by an independent formatter, and its computed last IP, execution mode and time with an
// independent last-IP model, the library's time functions, and the event decoder's event times.
#include "common.hpp"
#include "refpkt.hpp"
extern "C" {
#include "pt_time.h"
int ptdump_main(int argc, char **argv);
FILE *__real_fopen(const char *, const char *);
}
using namespace vf;
using ref::Bytes;
typedef std::vector<std::string> Strs;

/* Files that live in memory. */
static std::map<std::string, const Bytes *> mem;
extern "C" FILE *__wrap_fopen(const char *name, const char *mode)
{
	auto it = mem.find(name);
	if (it == mem.end())
		return __real_fopen(name, mode);
	return fmemopen((void *)it->second->data(), it->second->size(), "rb");
}

struct Run {
	int rc = 0;
	std::string out, err;
};
static Run dump(const Strs &args)
{
	Run r;
	char *ob = 0, *eb = 0;
	size_t on = 0, en = 0;
	FILE *so = stdout, *se = stderr;
	std::vector<std::string> a = args;
	std::vector<char *> av;
	a.insert(a.begin(), "ptdump");
	for (auto &s : a)
		av.push_back(&s[0]);
	av.push_back(0);
	stdout = open_memstream(&ob, &on);
	stderr = open_memstream(&eb, &en);
	r.rc = ptdump_main((int)a.size(), av.data());
	fclose(stdout);
	fclose(stderr);
	stdout = so;
	stderr = se;
	r.out.assign(ob, on);
	r.err.assign(eb, en);
	free(ob);
	free(eb);
	return r;
}

/* ---- Options. ---- */
enum { O_NOSYNC, O_QUIET, O_NOPAD, O_NOTIMING, O_NOCYC, O_NOOFF, O_RAW, O_LASTIP, O_EXEC, O_TIME, O_TCAL, O_DELTA,
       O_NOTCAL, O_NOWALL, O_KEEP, NOPT };
static const char *const oname[NOPT] = {"--no-sync", "--quiet", "--no-pad", "--no-timing", "--no-cyc", "--no-offset",
	"--raw", "--lastip", "--exec-mode", "--time", "--tcal", "--time-delta", "--no-tcal", "--no-wall-clock",
	"--keep-tcal-on-ovf"};
#define B(x) (1u << (x))
struct Cfg {
	unsigned mtc = 0, nom = 0;
	uint32_t eax = 0, ebx = 0;
	const char *cpu = 0;
	int dfl = 1;
};
static Strs cmd(unsigned o, const Cfg &c)
{
	Strs s;
	for (int i = 0; i < NOPT; i++)
		if (o & B(i))
			s.push_back(oname[i]);
	if (c.mtc)
		s.push_back("--mtc-freq"), s.push_back(fmt("%u", c.mtc));
	if (c.nom)
		s.push_back("--nom-freq"), s.push_back(fmt("0x%x", c.nom));
	if (c.eax)
		s.push_back("--cpuid-0x15.eax"), s.push_back(fmt("%u", c.eax));
	if (c.ebx)
		s.push_back("--cpuid-0x15.ebx"), s.push_back(fmt("%u", c.ebx));
	if (c.cpu)
		s.push_back("--cpu"), s.push_back(c.cpu);
	return s;
}
static std::string join(const Strs &s)
{
	std::string r;
	for (auto &x : s)
		r += (r.empty() ? "" : " ") + x;
	return r;
}
static void config(struct pt_config *k, const Cfg &c, const uint8_t *p, size_t n)
{
	pt_config_init(k);
	k->begin = (uint8_t *)p;
	k->end = (uint8_t *)p + n;
	k->mtc_freq = (uint8_t)c.mtc;
	k->nom_freq = (uint8_t)c.nom;
	k->cpuid_0x15_eax = c.eax;
	k->cpuid_0x15_ebx = c.ebx;
	if (c.cpu) {
		pt_cpu cpu;
		memset(&cpu, 0, sizeof(cpu));
		cpu.vendor = pcv_intel;
		unsigned f = 0, m = 0, s = 0;
		sscanf(c.cpu, "%u/%u/%u", &f, &m, &s);
		cpu.family = (uint16_t)f;
		cpu.model = (uint8_t)m;
		cpu.stepping = (uint8_t)s;
		k->cpu = cpu;
		pt_cpu_errata(&k->errata, &cpu);
	}
}

/* ---- The expected output. ---- */
static std::string norm(const std::string &s)
{
	/* Collapse blanks; the layout of columns is not part of the property. */
	std::string r;
	for (char c : s) {
		if (c == ' ' && (r.empty() || r.back() == ' ' || r.back() == '\n'))
			continue;
		if (c == '\n')
			while (!r.empty() && r.back() == ' ')
				r.pop_back();
		r += c;
	}
	return r;
}
static std::string msg(uint64_t off, const char *what, int rc)
{
	if (!rc)
		return fmt("[%llx: %s]\n", (unsigned long long)off, what);
	return fmt("[%llx: %s: %s]\n", (unsigned long long)off, what, pt_errstr(pt_errcode(rc)));
}
typedef unsigned long long ull;
static std::string ippay(uint64_t ipc, uint64_t ip)
{
	static const int digits[] = {0, 4, 8, 12, 16, 0, 16};
	std::string s = fmt("%llx: ", (ull)ipc);
	int d = digits[ipc];
	s += std::string((size_t)(16 - d), '?');
	if (ipc == 3)
		ip = (ip & 0x800000000000ull) ? ip | 0xffff000000000000ull : ip & 0xffffffffffffull;
	static const uint64_t m[] = {0, 0xffff, 0xffffffff, ~0ull, ~0ull, 0, ~0ull};
	(void)m;
	if (ipc == 3)
		return fmt("3: %016llx", (ull)ip);
	if (ipc == 4)
		return fmt("4: ????%012llx", (ull)ip);
	if (d)
		s += fmt("%0*llx", d, (ull)ip);
	return s;
}
/* Opcode and payload of a packet. */
static void text(const ref::Pk &k, std::string &op, std::string &pay)
{
	const uint64_t *f = k.f;
	pay.clear();
	switch (k.type) {
	case ppt_psb: op = "psb"; break;
	case ppt_psbend: op = "psbend"; break;
	case ppt_pad: op = "pad"; break;
	case ppt_ovf: op = "ovf"; break;
	case ppt_stop: op = "stop"; break;
	case ppt_fup: op = "fup"; pay = ippay(f[0], f[1]); break;
	case ppt_tip: op = "tip"; pay = ippay(f[0], f[1]); break;
	case ppt_tip_pge: op = "tip.pge"; pay = ippay(f[0], f[1]); break;
	case ppt_tip_pgd: op = "tip.pgd"; pay = ippay(f[0], f[1]); break;
	case ppt_pip: op = "pip"; pay = fmt("%llx%s", (ull)f[0], f[1] ? ", nr" : ""); break;
	case ppt_vmcs: op = "vmcs"; pay = fmt("%llx", (ull)f[0]); break;
	case ppt_tnt_8:
	case ppt_tnt_64:
		op = k.type == ppt_tnt_8 ? "tnt.8" : "tnt.64";
		for (int i = (int)f[0] - 1; i >= 0; i--)
			pay += f[1] >> i & 1 ? '!' : '.';
		break;
	case ppt_mode:
		if (f[0] == 0) {
			op = "mode.exec";
			const char *n[3] = {"cs.d", "cs.l", "if"};
			uint64_t v[3] = {f[2], f[1], f[3]};
			for (int i = 0; i < 3; i++)
				if (v[i])
					pay += (pay.empty() ? "" : ", ") + std::string(n[i]);
		} else {
			op = "mode.tsx";
			if (f[1])
				pay = "intx";
			if (f[2])
				pay += (pay.empty() ? "" : ", ") + std::string("abrt");
		}
		break;
	case ppt_tsc: op = "tsc"; pay = fmt("%llx", (ull)f[0]); break;
	case ppt_cbr: op = "cbr"; pay = fmt("%llx", (ull)f[0]); break;
	case ppt_tma: op = "tma"; pay = fmt("%llx, %llx", (ull)f[0], (ull)f[1]); break;
	case ppt_mtc: op = "mtc"; pay = fmt("%llx", (ull)f[0]); break;
	case ppt_cyc: op = "cyc"; pay = fmt("%llx", (ull)f[0]); break;
	case ppt_mnt: op = "mnt"; pay = fmt("%llx", (ull)f[0]); break;
	case ppt_exstop: op = "exstop"; pay = f[0] ? "ip" : ""; break;
	case ppt_mwait: op = "mwait"; pay = fmt("%08llx, %08llx", (ull)f[0], (ull)f[1]); break;
	case ppt_pwre:
		op = "pwre";
		pay = fmt("c%u.%u%s", (unsigned)(f[0] + 1) & 15, (unsigned)(f[1] + 1) & 15, f[2] ? ", hw" : "");
		break;
	case ppt_pwrx: {
		op = "pwrx";
		const char *w = "bad";
		if (f[2] + f[3] + f[4] == 1)
			w = f[2] ? "int" : f[3] ? " st" : " hw";
		pay = fmt("%s: c%u, c%u", w, (unsigned)(f[0] + 1) & 15, (unsigned)(f[1] + 1) & 15);
		break;
	}
	case ppt_ptw: op = "ptw"; pay = fmt("%llx: %llx%s", (ull)f[1], (ull)f[0], f[2] ? ", ip" : ""); break;
	case ppt_cfe: {
		op = "cfe";
		pay = fmt("%llu", (ull)f[0]);
		/* Interrupts and SIPI have a vector. */
		if (f[0] == pt_cfe_intr || f[0] == pt_cfe_vmexit_intr || f[0] == pt_cfe_uintr)
			pay += fmt(": %llu", (ull)f[1]);
		else if (f[0] == pt_cfe_sipi)
			pay += fmt(": %llx", (ull)f[1]);
		pay += f[2] ? ", ip" : "";
		break;
	}
	case ppt_evd: op = "evd"; pay = fmt("%llu: %llx", (ull)f[0], (ull)f[1]); break;
	case ppt_trig:
		op = "trig";
		pay = fmt("%02llx%s%s", (ull)f[3], f[0] ? ", ip" : "", f[2] ? ", mult" : "");
		if (f[1])
			pay += fmt(", icnt: %llu", (ull)f[4]);
		break;
	case ppt_unknown: op = "<unknown>"; break;
	default: op = "<invalid>"; break;
	}
}

struct Model {
	unsigned o;
	const struct pt_config *cfg;
	/* last IP */
	uint64_t ip = 0;
	bool have = false, supp = false;
	/* time */
	struct pt_time time;
	struct pt_time_cal tcal;
	uint64_t otsc = 0, ofcr = 0;
	bool header = false;
	std::function<std::string(uint64_t)> sb; /* prints the sideband records up to some time */
	Model(unsigned oo, const struct pt_config *c) : o(oo), cfg(c) { reset(); }
	bool on(int b) const { return o >> b & 1; }
	void reset()
	{
		ip = 0;
		have = supp = false;
		pt_time_init(&time);
		pt_tcal_init(&tcal);
		otsc = ofcr = 0;
		header = false;
	}
	static std::string trunc(std::string s) { return s.substr(0, 16); }
	/* Returns the messages; fills in the tracking columns. */
	std::string track(uint64_t off, const struct pt_packet &p, const ref::Pk &k, std::string &tr)
	{
		std::string m;
		bool tracking = on(O_TIME) || on(O_TCAL) || sb;
		auto note = [&](const char *w, int rc) {
			if (rc < 0)
				m += msg(off, w, rc);
		};
		switch (k.type) {
		case ppt_psb:
			/* PSB resets the last IP. */
			ip = 0;
			have = supp = false;
			header = true;
			if (tracking)
				note("error calibrating time", pt_tcal_update_psb(&tcal, cfg));
			return m;
		case ppt_psbend:
			header = false;
			return m;
		case ppt_ovf:
			/* An overflow resets everything but the time; it also ends PSB+. */
			ip = 0;
			have = supp = false;
			header = false;
			if (tracking) {
				if (on(O_KEEP))
					note("error calibrating time", pt_tcal_update_ovf(&tcal, cfg));
				else
					pt_tcal_init(&tcal);
			}
			return m;
		case ppt_fup:
		case ppt_tip:
		case ppt_tip_pge:
		case ppt_tip_pgd:
			if (!on(O_LASTIP))
				return m;
			supp = k.f[0] == 0;
			switch (k.f[0]) {
			case 1: ip = (ip & ~0xffffull) | k.f[1]; break;
			case 2: ip = (ip & ~0xffffffffull) | k.f[1]; break;
			case 3: ip = (k.f[1] >> 47 & 1) ? k.f[1] | 0xffff000000000000ull : k.f[1]; break;
			case 4: ip = (ip & ~0xffffffffffffull) | k.f[1]; break;
			case 6: ip = k.f[1]; break;
			}
			if (!supp)
				have = true;
			if (!have) {
				tr = "ip <unavailable>";
				m += msg(off, "error tracking last-ip", -pte_noip);
			} else
				tr = supp ? "ip <suppressed>" : fmt("ip %016llx", (ull)ip);
			return m;
		case ppt_pip: tr = fmt("cr3 %016llx", (ull)k.f[0]); return m;
		case ppt_vmcs: tr = fmt("vmcs %016llx", (ull)k.f[0]); return m;
		case ppt_mode:
			if (k.f[0] == 0 && on(O_EXEC))
				tr = std::string("em ") + (k.f[1] ? k.f[2] ? "unknown" : "64-bit" : k.f[2] ? "32-bit" : "16-bit");
			return m;
		default:
			break;
		}
		if (!tracking)
			return m;
		bool cal = !on(O_NOTCAL), show_time = true, show_cal = true;
		switch (k.type) {
		case ppt_tsc:
			if (cal)
				note("error calibrating time", header ? pt_tcal_header_tsc(&tcal, &p.payload.tsc, cfg)
								      : pt_tcal_update_tsc(&tcal, &p.payload.tsc, cfg));
			note("error updating time", pt_time_update_tsc(&time, &p.payload.tsc, cfg));
			break;
		case ppt_cbr:
			if (cal)
				note("error calibrating time", header ? pt_tcal_header_cbr(&tcal, &p.payload.cbr, cfg)
								      : pt_tcal_update_cbr(&tcal, &p.payload.cbr, cfg));
			note("error updating time", pt_time_update_cbr(&time, &p.payload.cbr, cfg));
			show_time = false;
			break;
		case ppt_tma:
			if (cal)
				note("error calibrating time", pt_tcal_update_tma(&tcal, &p.payload.tma, cfg));
			note("error updating time", pt_time_update_tma(&time, &p.payload.tma, cfg));
			show_cal = false;
			break;
		case ppt_mtc:
			if (cal)
				note("error calibrating time", pt_tcal_update_mtc(&tcal, &p.payload.mtc, cfg));
			note("error updating time", pt_time_update_mtc(&time, &p.payload.mtc, cfg));
			break;
		case ppt_cyc: {
			if (on(O_NOCYC))
				return m;
			uint64_t fcr = 0;
			if (cal) {
				note("calibration error", pt_tcal_fcr(&fcr, &tcal));
				note("error calibrating time", pt_tcal_update_cyc(&tcal, &p.payload.cyc, cfg));
			}
			int rc = pt_time_update_cyc(&time, &p.payload.cyc, cfg, fcr);
			note("error updating time", rc);
			if (rc >= 0 && !fcr)
				m += msg(off, "error updating time: no calibration", 0);
			show_cal = false;
			break;
		}
		default:
			return m;
		}
		if (on(O_TCAL) && show_cal) {
			uint64_t fcr = 0;
			int rc = pt_tcal_fcr(&fcr, &tcal);
			tr = "fcr <unavailable>";
			if (rc < 0)
				m += msg(off, "error printing time", rc);
			else {
				double d = (double)fcr / (double)(1ull << pt_tcal_fcr_shr);
				if (on(O_DELTA)) {
					double od = (double)ofcr / (double)(1ull << pt_tcal_fcr_shr);
					tr = "fcr " + trunc(fmt("%+.3f", d - od));
					ofcr = fcr;
				} else
					tr = "fcr " + trunc(fmt("%.3f", d));
			}
		}
		if (on(O_TIME) && show_time) {
			uint64_t tsc = 0;
			int rc = pt_time_query_tsc(&tsc, NULL, NULL, &time);
			if (rc < 0 && !(rc == -pte_no_time && on(O_NOWALL))) {
				tr = "tsc <unavailable>";
				m += msg(off, "error printing time", rc);
			} else if (on(O_DELTA)) {
				tr = "tsc " + trunc(otsc <= tsc ? fmt("+%llx", (ull)(tsc - otsc)) : fmt("-%llx", (ull)(otsc - tsc)));
				otsc = tsc;
			} else
				tr = fmt("tsc %016llx", (ull)tsc);
		}
		if (sb) {
			uint64_t tsc = 0;
			pt_time_query_tsc(&tsc, NULL, NULL, &time);
			m += sb(tsc);
		}
		return m;
	}
};
static bool timing(int t) { return t == ppt_tsc || t == ppt_cbr || t == ppt_tma || t == ppt_mtc || t == ppt_cyc; }

/* What the dump should print. */
static std::string expect(const uint8_t *p, size_t n, unsigned o, const Cfg &c, const std::function<std::string(uint64_t)> &sb = nullptr)
{
	struct pt_config cfg;
	config(&cfg, c, p, n);
	std::string s;
	struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&cfg);
	if (!d) {
		errors.push_back("cannot allocate a packet decoder");
		return s;
	}
	Model m(o, &cfg);
	m.sb = sb;
	int rc = (o & B(O_NOSYNC)) ? pt_pkt_sync_set(d, 0) : pt_pkt_sync_forward(d);
	if (rc < 0) {
		if (rc != -pte_eos || (o & B(O_NOSYNC)))
			s += msg(0, "sync error", rc);
		pt_pkt_free_decoder(d);
		if (sb && rc == -pte_eos && !(o & B(O_NOSYNC)))
			s += sb(~0ull);
		return norm(s);
	}
	uint64_t off = 0;
	for (;;) {
		struct pt_packet pk;
		pt_pkt_get_offset(d, &off);
		rc = pt_pkt_next(d, &pk, sizeof(pk));
		if (rc == -pte_eos)
			break;
		if (rc < 0) {
			s += msg(off, "error decoding packet", rc);
			rc = pt_pkt_sync_forward(d);
			if (rc == -pte_eos)
				break;
			if (rc < 0) {
				s += msg(0, "sync error", rc);
				break;
			}
			m.reset();
			continue;
		}
		ref::Pk k = ref::flat(pk);
		std::string op, pay, tr;
		text(k, op, pay);
		s += m.track(off, pk, k, tr);
		bool skip = (k.type == ppt_pad && m.on(O_NOPAD)) || (timing(k.type) && m.on(O_NOTIMING)) ||
			    (k.type == ppt_cyc && m.on(O_NOCYC)) || m.on(O_QUIET);
		if (skip)
			continue;
		if (!m.on(O_NOOFF))
			s += fmt("%016llx ", (ull)off);
		if (m.on(O_RAW)) {
			for (int i = 0; i < pk.size; i++)
				s += fmt("%02x", p[off + (uint64_t)i]);
			s += ' ';
		}
		s += op + " " + pay + " " + tr + "\n";
	}
	pt_pkt_free_decoder(d);
	if (sb)
		s += sb(~0ull);
	return norm(s);
}
static std::string firstdiff(const std::string &a, const std::string &b)
{
	size_t i = 0, l = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) {
		if (a[i] == '\n')
			l = i + 1;
		i++;
	}
	auto line = [&](const std::string &s) { return l < s.size() ? s.substr(l, s.find('\n', l) - l) : std::string("(nothing)"); };
	return "expected \"" + line(a) + "\", printed \"" + line(b) + "\"";
}
static const char *key_of(unsigned o)
{
	return o & B(O_TIME) ? "time" : o & B(O_TCAL) ? "tcal" : o & B(O_LASTIP) ? "lastip" : "packets";
}
static uint64_t ncase;
static void one(const Bytes &t, unsigned o, const Cfg &c)
{
	Strs a = cmd(o, c);
	a.push_back("@pt");
	mem["@pt"] = &t;
	if (curbuf)
		cur(join(a) + " | " + hex(t));
	Run r = dump(a);
	std::string w = expect(t.data(), t.size(), o, c), g = norm(r.out);
	counters["evaluations"]++;
	ncase++;
	if (w != g)
		viol(key_of(o), fmt("ptdump %s on %s: %s", join(a).c_str(), hex(t).c_str(), firstdiff(w, g).c_str()));
	else if (!r.err.empty())
		viol("stderr", fmt("ptdump %s on %s: prints \"%s\" on stderr", join(a).c_str(), hex(t).c_str(), r.err.c_str()));
	distinct(fnv(g.data(), g.size()));
	if (want_sample())
		sample("ptdump " + join(a) + " on " + hex(t) + " prints: " + g.substr(0, 300));
}

/* ---- Symbols. ---- */
static void app(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
static Bytes by(std::initializer_list<int> l)
{
	Bytes b;
	for (int x : l)
		b.push_back((uint8_t)x);
	return b;
}
static Bytes PSB() { Bytes b; for (int i = 0; i < 8; i++) app(b, by({2, 0x82})); return b; }
static Bytes PSBEND() { return by({2, 0x23}); }
static Bytes OVF() { return by({2, 0xf3}); }
static Bytes tsc(uint64_t v) { Bytes b = by({0x19}); ref::put(b, v, 7); return b; }
static Bytes cbr(int r) { return by({2, 3, r, 0}); }
static Bytes tma(int c, int f) { return by({2, 0x73, c & 255, c >> 8, 0, f & 255, f >> 8}); }
static Bytes mtc(int c) { return by({0x59, c}); }
static Bytes cyc(unsigned v)
{
	if (v < 32)
		return by({(int)(v << 3 | 3)});
	if (v < 32 * 128)
		return by({(int)((v & 31) << 3 | 7), (int)((v >> 5) << 1)});
	return by({(int)((v & 31) << 3 | 7), (int)((v >> 5 & 127) << 1 | 1), (int)((v >> 12) << 1)});
}
static Bytes ipp(int op, int ipc, uint64_t v)
{
	Bytes b = by({op | ipc << 5});
	ref::put(b, v, ref::ip_bytes(ipc));
	return b;
}
static Bytes mnt(uint64_t v) { Bytes b = by({2, 0xc3, 0x88}); ref::put(b, v, 8); return b; }

/* All opcodes (all first two bytes) with several payloads. */
static void packets()
{
	static const unsigned os[] = {0, B(O_RAW), B(O_NOOFF), B(O_RAW) | B(O_NOOFF), B(O_QUIET), B(O_NOPAD) | B(O_LASTIP),
		B(O_NOTIMING) | B(O_RAW), B(O_NOCYC) | B(O_EXEC), B(O_TIME) | B(O_RAW), B(O_TCAL), B(O_NOSYNC),
		B(O_EXEC) | B(O_LASTIP) | B(O_RAW)};
	std::vector<unsigned> all;
	for (unsigned x = 0; x < 256; x++)
		all.push_back(x << O_QUIET);
	Cfg c;
	std::vector<Bytes> fills;
	fills.push_back(Bytes(14, 0));
	fills.push_back(Bytes(14, 0xff));
	Bytes d;
	for (int i = 0; i < 14; i++)
		d.push_back((uint8_t)(0x81 + 0x13 * i));
	fills.push_back(d);
	for (auto &x : d)
		x = (uint8_t)(~x & 0x7f);
	fills.push_back(d);
	uint64_t idx = 0;
	for (int b0 = 0; b0 < 256; b0++)
		for (int b1 = 0; b1 < 256; b1++) {
			if (!mine(idx++))
				continue;
			if (late())
				return;
			for (auto &f : fills) {
				Bytes t = PSB();
				app(t, PSBEND());
				app(t, by({b0, b1}));
				app(t, f);
				app(t, PSB());
				app(t, mnt(7));
					for (unsigned o : os)
						one(t, o, c);
			}
		}
	/* Well-formed packets of each kind with edge payloads, alone and followed by padding, for every
	 * combination of the display options. */
	std::vector<Bytes> ps;
	for (int op : {0x1d, 0x0d, 0x11, 0x01})
		for (int ipc : {0, 1, 2, 3, 4, 6})
			for (uint64_t v : {0x123456789abcull, 0xfedcba987654321ull, 0xffff800000000000ull})
				ps.push_back(ipp(op, ipc, v));
	for (int i = 0; i < 128; i++)
		ps.push_back(by({i << 1}));
	for (int i = 1; i <= 47; i++)
		for (uint64_t v : {0ull, ~0ull, 0x5555555555555555ull, 1ull, 1ull << (i - 1)}) {
			Bytes b = by({2, 0xa3});
			ref::put(b, 1ull << i | (v & ((1ull << i) - 1)), 6);
			ps.push_back(b);
		}
	for (int m = 0; m < 256; m++)
		ps.push_back(by({0x99, m}));
	for (int i = 0; i < 256; i += opt.thorough ? 1 : 5) {
		ps.push_back(by({2, 0x22, i & 0x88, i}));
		ps.push_back(by({2, 0xa2, i, i & 0x0d, 0, 0, 0}));
		ps.push_back(by({2, 0xa2, 0x12, i, 0, 0, 0}));
		ps.push_back(by({2, 0x13, i, i * 7 & 255}));
		ps.push_back(by({2, 0x53, i & 63, i, 2, 3, 4, 5, 6, 7, 0x80 | i}));
		ps.push_back(by({0xd9, i, 255 - i, 0x34, 0x12 + i}));
		ps.push_back(by({2, 0x43, i, i, 3, 4, 5, 6}));
		ps.push_back(by({2, 0xc8, i, 1, 2, 3, 255 - i}));
		ps.push_back(cyc((unsigned)i * 37));
		ps.push_back(mtc(i));
		ps.push_back(cbr(i));
	}
	for (uint64_t v : {0ull, 1ull, 0xffffffffffffffull, 0x80000000000000ull, 0x123456789ull})
		ps.push_back(tsc(v));
	ps.push_back(tma(0x1234, 0x1ff));
	ps.push_back(tma(0xffff, 0));
	ps.push_back(OVF());
	ps.push_back(by({2, 0x83}));
	ps.push_back(by({2, 0x62}));
	ps.push_back(by({2, 0xe2}));
	ps.push_back(mnt(0xfedcba9876543210ull));
	ps.push_back(by({2, 0xc2, 1, 2, 3, 4, 5, 6, 7, 0x88}));
	ps.push_back(by({2, 0xc2, 0, 0, 0, 0, 0, 0, 0, 0}));
	for (int x : {0x12, 0x32, 0x92, 0xb2})
		ps.push_back(by({2, x, 1, 2, 3, 4, 5, 6, 7, 0x88}));
	for (size_t i = 0; i < ps.size(); i++) {
		if (!mine(i))
			continue;
		for (unsigned o : all) {
			if (late())
				return;
			Bytes t = PSB();
			app(t, ps[i]);
			app(t, by({0}));
			one(t, o, c);
		}
	}
}

static void seqs(const std::vector<Bytes> &al, int depth, const std::vector<unsigned> &os, const std::vector<Cfg> &cs, const Bytes &lead)
{
	uint64_t n = al.size(), tot = 1;
	for (int i = 0; i < depth; i++)
		tot *= n;
	for (uint64_t k = 0; k < tot; k++) {
		if (!mine(k))
			continue;
		if (late())
			return;
		Bytes t = lead;
		uint64_t x = k;
		for (int i = 0; i < depth; i++, x /= n)
			app(t, al[x % n]);
		for (auto &c : cs)
			for (unsigned o : os)
				one(t, o, c);
	}
	maxi("depth", (uint64_t)depth);
}

static void lastip()
{
	std::vector<Bytes> al = {ipp(0x1d, 1, 0x1111), ipp(0x0d, 1, 0x2222), ipp(0x0d, 2, 0x33333333), ipp(0x11, 4, 0x844444444444),
		ipp(0x0d, 3, 0x855555555555), ipp(0x1d, 6, 0x6666777788889999), ipp(0x01, 0, 0), ipp(0x0d, 0, 0), PSB(), PSBEND(), OVF(),
		by({2, 0xff}), by({0x99, 1}), by({2, 0x43, 0x10, 0x20, 0, 0, 0, 0})};
	std::vector<unsigned> os;
	for (unsigned x = 0; x < 4; x++)
		os.push_back(B(O_LASTIP) | (x & 1 ? B(O_NOSYNC) : 0) | (x & 2 ? B(O_EXEC) | B(O_QUIET) : 0));
	for (int d = 1; d <= (opt.thorough ? 6 : 5); d++) {
		seqs(al, d, os, {Cfg()}, PSB());
		if (d < 4)
			seqs(al, d, os, {Cfg()}, Bytes());
	}
}

static std::vector<Bytes> timesyms()
{
	return {tsc(0x100000), tsc(0x100800), cbr(0x10), cbr(0), tma(0x1200, 0x12), mtc(2), mtc(3), mtc(0x90), cyc(0x10), cyc(0x300), PSB(), PSBEND(), OVF(), by({2, 0xff})};
}
static std::vector<Cfg> timecfgs()
{
	Cfg a, b, c, d;
	a.mtc = 9, a.nom = 0x20, a.eax = 2, a.ebx = 0xe8;
	b.mtc = 3, b.eax = 2, b.ebx = 0xe8;
	c.nom = 0x20, c.mtc = 9, c.cpu = "6/78/3", c.eax = 2, c.ebx = 0xe8;
	d.nom = 0x20, d.mtc = 9;
	return {a, b, c, d};
}
static void times()
{
	std::vector<unsigned> os;
	for (unsigned x = 0; x < 128; x++)
		os.push_back((x & 1 ? B(O_TIME) : B(O_TCAL)) | (x & 2 ? B(O_DELTA) : 0) | (x & 4 ? B(O_NOTCAL) : 0) | (x & 8 ? B(O_NOCYC) : 0) |
			     (x & 16 ? B(O_NOWALL) : 0) | (x & 32 ? B(O_KEEP) : 0) | (x & 64 ? B(O_NOTIMING) : 0));
	std::vector<unsigned> few = {B(O_TIME), B(O_TCAL), B(O_TIME) | B(O_DELTA) | B(O_KEEP), B(O_TCAL) | B(O_DELTA) | B(O_NOWALL), B(O_TIME) | B(O_NOCYC) | B(O_NOWALL)};
	for (int d = 1; d <= 3; d++)
		seqs(timesyms(), d, os, timecfgs(), PSB());
	seqs(timesyms(), 4, few, timecfgs(), PSB());
	Bytes lead = PSB();
	app(lead, tsc(0xff000));
	app(lead, tma(0x1000, 5));
	app(lead, cbr(0x18));
	app(lead, PSBEND());
	app(lead, mtc(1));
	for (int d = 1; d <= (opt.thorough ? 5 : 4); d++)
		seqs(timesyms(), d, d < 3 ? os : few, timecfgs(), lead);
	if (opt.thorough)
		seqs(timesyms(), 4, os, timecfgs(), PSB());
}

/* The time shown for a packet is the one of an event that comes right after it. */
static void events()
{
	std::vector<Bytes> al = timesyms();
	al.pop_back();
	auto cs = timecfgs();
	for (int depth = 1; depth <= (opt.thorough ? 6 : 5); depth++) {
		uint64_t n = al.size(), tot = 1;
		for (int i = 0; i < depth; i++)
			tot *= n;
		for (uint64_t k = 0; k < tot; k++) {
			if (!mine(k))
				continue;
			if (late())
				return;
			for (int lead = 0; lead < 2; lead++)
				for (auto &c : cs)
					for (int keep = 0; keep < 2; keep++) {
						Bytes t = PSB();
						if (lead) {
							app(t, tsc(0xff000));
							app(t, tma(0x1000, 5));
							app(t, cbr(0x18));
							app(t, PSBEND());
							app(t, mtc(1));
						}
						uint64_t x = k;
						std::vector<uint64_t> at; /* offset of the packet in front of each MNT */
						bool any = false, header = !lead;
						for (int i = 0; i < depth; i++, x /= n) {
							uint64_t s = x % n, off = t.size();
							app(t, al[s]);
							if (s == 12)
								any = true;
							header = s == 10 || (header && s != 11 && s != 12);
							/* In PSB+, events get the time at its end. */
							if (s < 10 && s != 2 && s != 3 && !header) {
								app(t, mnt(at.size() + 1));
								at.push_back(off);
							}
						}
						/* end any PSB+ so its events get out */
						app(t, PSBEND());
						if (at.empty() || (keep && !any))
							continue;
						if (curbuf)
							cur("events " + hex(t));
						unsigned o = B(O_TIME) | (keep ? B(O_KEEP) : 0);
						Strs a = cmd(o, c);
						a.push_back("@pt");
						mem["@pt"] = &t;
						Run r = dump(a);
						counters["evaluations"]++;
						/* Lines: offset opcode payload [tsc value]. */
						std::map<uint64_t, std::string> shown;
						std::string g = norm(r.out);
						for (size_t p = 0; p < g.size();) {
							size_t e = g.find('\n', p);
							std::string l = g.substr(p, e - p);
							p = e + 1;
							if (l[0] == '[')
								continue;
							size_t q = l.find(" tsc ", 18);
							if (q != std::string::npos)
								shown[strtoull(l.c_str(), 0, 16)] = l.substr(q + 5);
						}
						struct pt_config cfg;
						config(&cfg, c, t.data(), t.size());
						cfg.flags.variant.event.keep_tcal_on_ovf = keep;
						struct pt_event_decoder *d = pt_evt_alloc_decoder(&cfg);
						if (!d) {
							errors.push_back("cannot allocate the event decoder");
							return;
						}
						if (pt_evt_sync_forward(d) < 0)
							counters["undecodable"]++;
						else
						for (;;) {
							struct pt_event ev;
							memset(&ev, 0, sizeof(ev));
							if (pt_evt_next(d, &ev, sizeof(ev)) < 0)
								break;
							if (ev.type != ptev_mnt)
								continue;
							uint64_t i = ev.variant.mnt.payload;
							if (!i || i > at.size()) {
								errors.push_back("bad marker");
								break;
							}
							std::string want = ev.has_tsc ? fmt("%016llx", (ull)ev.tsc) : "<unavailable>";
							std::string got = shown.count(at[i - 1]) ? shown[at[i - 1]] : "(nothing)";
							counters["event_times"]++;
							distinct(ev.has_tsc ? ev.tsc : 1);
							if (got != want)
								viol("event-time", fmt("ptdump %s on %s: shows time %s for the packet at %llx; the event "
										       "decoder reports an event right behind it at %s", join(a).c_str(),
										       hex(t).c_str(), got.c_str(), (ull)at[i - 1], want.c_str()));
						}
						pt_evt_free_decoder(d);
					}
		}
	}
}

/* Truncation and damage at every place of several traces. */
static void damage()
{
	std::vector<Bytes> base;
	Bytes t = PSB();
	for (auto &x : {tsc(0x123456), cbr(16), tma(0x1200, 3), by({0x99, 1}), by({2, 0x43, 2, 0, 0, 0, 0, 0}), by({2, 0xc8, 1, 0, 0, 0, 0}), ipp(0x1d, 3, 0x401000), PSBEND(),
			by({0x0e}), mtc(0x13), cyc(0x300), ipp(0x0d, 2, 0x402000), by({2, 0xa3, 0x55, 0x55, 0x55, 0x55, 0x55, 0x01}), by({2, 0x13, 0x81, 3}), ipp(0x1d, 1, 7), ipp(0x01, 0, 0)})
		app(t, x);
	base.push_back(t);
	t = PSB();
	app(t, PSBEND());
	for (auto &x : {OVF(), ipp(0x11, 6, 0xffffffff81000000), by({2, 0x32, 1, 2, 3, 4, 5, 6, 7, 8}), by({2, 0xc2, 1, 2, 3, 4, 5, 6, 7, 8}), by({2, 0x22, 0x80, 0x21}), by({2, 0xa2, 0x12, 1, 0, 0, 0}),
			by({2, 0xe2}), PSB(), by({0x19}), PSB(), ipp(0x1d, 2, 0x403000), PSBEND(), by({0xd9, 0x60, 1, 2, 3}), by({2, 0x53, 1, 1, 2, 3, 4, 5, 6, 7, 8}), mnt(5)})
		app(t, x);
	base.push_back(t);
	static const unsigned os[] = {0, B(O_RAW) | B(O_LASTIP) | B(O_EXEC) | B(O_TIME), B(O_TCAL) | B(O_LASTIP) | B(O_NOSYNC)};
	Cfg c = timecfgs()[0], none;
	uint64_t idx = 0;
	for (auto &b : base) {
		for (size_t cut = 1; cut <= b.size(); cut++)
			for (size_t from = 0; from < cut; from++) {
				if (!mine(idx++))
					continue;
				Bytes x(b.begin() + (long)from, b.begin() + (long)cut);
				for (unsigned o : os)
					one(x, o, c);
				if (late())
					return;
			}
		for (size_t at = 0; at < b.size(); at++)
			for (int v = 0; v < 256; v++) {
				if (!mine(idx++))
					continue;
				Bytes x = b;
				x[at] = (uint8_t)v;
				one(x, os[1], c);
				if (opt.thorough) {
					one(x, os[0], none);
					one(x, os[2], c);
				}
				if (late())
					return;
			}
		/* removed, duplicated and swapped stretches */
		for (size_t at = 0; at < b.size(); at++)
			for (size_t len = 1; len <= 18 && at + len <= b.size(); len++) {
				if (!mine(idx++))
					continue;
				Bytes x = b;
				x.erase(x.begin() + (long)at, x.begin() + (long)(at + len));
				if (!x.empty())
					one(x, os[1], c);
				x = b;
				x.insert(x.begin() + (long)at, b.begin() + (long)at, b.begin() + (long)(at + len));
				one(x, os[1], c);
				if (late())
					return;
			}
	}
}
#include "c22args.hpp"
int main(int argc, char **argv)
{
	init(argc, argv);
	if (opt.part == "packets")
		packets();
	else if (opt.part == "lastip")
		lastip();
	else if (opt.part == "times")
		times();
	else if (opt.part == "events")
		events();
	else if (opt.part == "damage")
		damage();
	else if (opt.part == "args")
		args();
	else
		sideband();
	return finish();
}
