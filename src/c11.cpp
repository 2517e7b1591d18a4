// C11: the estimated time.
//
// Part "ref": all sequences of timing packets over a payload alphabet, against an independent formulation of the
//   timing algorithm, as seen through the events' time and the decoders' time queries.
// Part "clock": a model of the hardware's clocks emits the packets; the estimate is compared with the true time.
#include "hw.hpp"
typedef uint64_t u64;
typedef unsigned __int128 u128;

struct Conf {
	uint32_t eax, ebx;
	int mtc, nom;
	bool skl168, keep;
};
static std::string cstr(const Conf &c)
{
	return vf::fmt("eax=%u ebx=%u mtc_freq=%d nom_freq=%d skl168=%d keep=%d", c.eax, c.ebx, c.mtc, c.nom, c.skl168, c.keep);
}

/* ---- the algorithm ---- */
struct Ref {
	Conf c;
	/* the estimate: base + fast counter */
	u64 tsc = 0, base = 0, fc = 0;
	u64 lost_mtc = 0, lost_cyc = 0;
	bool have_tsc = false, have_tma = false, have_mtc = false;
	u64 ctc = 0;	 /* at base */
	u64 ctc_cyc = 0; /* at the beginning of the current CYC period */
	int cbr = -1;
	/* calibration: fast counter ticks per 256 cycles */
	bool cal = false;
	u64 fcr = 0;
	u64 ctsc = 0, cyc_tsc = 0; /* cycles since a TSC */
	bool cmtc = false;	   /* cycles since an MTC */
	u64 cctc = 0, cyc_mtc = 0;
	bool skl = false;

	u64 span() const { return (u64)1 << (c.mtc + 8); } /* MTC periods wrap around */
	u64 wrap(u64 to, u64 from) const { return to >= from ? to - from : to + span() - from; }
	bool ctcfc(u64 d, u64 *r) const
	{
		if (!c.eax || !c.ebx)
			return false;
		*r = (u64)((u128)d * c.ebx / c.eax);
		return true;
	}
	void calibrate(u64 v) { fcr = v, cal = true; }
	void nocal() { cal = false, fcr = 0, ctsc = cyc_tsc = cctc = cyc_mtc = 0, cmtc = skl = false; }

	void TSC(u64 v, bool header)
	{
		if (header && ctsc && cyc_tsc && !cmtc) {
			u64 d = v >= ctsc ? v - ctsc : v + ((u64)1 << 56) - ctsc;
			calibrate((u64)(((u128)d << 8) / cyc_tsc));
		}
		ctsc = v;
		cyc_tsc = 0;
		tsc = base = v;
		fc = 0;
		ctc = 0;
		have_tsc = true;
		have_tma = have_mtc = false;
		lost_mtc = lost_cyc = 0;
	}
	void TMA(u64 v, u64 f)
	{
		have_tma = true;
		base -= f;
		fc += f;
		/* a complete CTC is as good as an MTC */
		if (c.mtc + 8 <= 16)
			have_mtc = true;
		ctc = ctc_cyc = v % span();
	}
	void CBR(int r, bool header)
	{
		if (!header)
			nocal();
		if (c.nom)
			calibrate(((u64)c.nom << 8) / (u64)r);
		cbr = r;
	}
	void MTC(u64 v)
	{
		u64 now = v << c.mtc;
		/* calibration */
		bool chk = skl;
		skl = false;
		if (!cmtc) {
			cmtc = true;
			cyc_mtc = 0;
			cctc = now;
		} else if (cyc_mtc) {
			u64 d = wrap(now, cctc), f, n = cyc_mtc;
			cyc_mtc = 0;
			cctc = now;
			if (ctcfc(d, &f)) {
				bool use = true;
				if (chk) {
					/* cycles may be missing */
					if (d > (u64)1 << c.mtc)
						use = false;
					else if (c.mtc < 10 && cal && (u64)(((u128)fcr * (n + 0xf00)) >> 8) < f)
						use = false;
				}
				if (use)
					calibrate((f << 8) / n);
			}
		}
		/* time */
		if (have_tsc && !have_tma)
			return;
		u64 last = ctc;
		bool first = !have_mtc;
		if (fc || lost_cyc || first)
			ctc_cyc = now;
		have_mtc = true;
		fc = 0;
		ctc = now;
		lost_cyc = 0;
		if (first) {
			if (!have_tma)
				return;
			/* The most recent CTC value with the low bits of the TMA before this MTC. */
			last = (now & ~(u64)0xffff) | last;
			if ((now & 0xffff) < (last & 0xffff))
				last = (last - 0x10000) & (span() - 1);
		}
		u64 f;
		if (!ctcfc(wrap(now, last), &f)) {
			lost_mtc++;
			return;
		}
		base += f;
		tsc = base;
	}
	void CYC(u64 n)
	{
		cyc_mtc += n;
		cyc_tsc += n;
		if (!cal || !fcr) {
			lost_cyc++;
			return;
		}
		if (!fc && ctc != ctc_cyc) {
			/* The packet covers earlier MTC periods, as well. */
			u64 f;
			if (!ctcfc(wrap(ctc, ctc_cyc), &f)) {
				lost_cyc++;
				return;
			}
			u64 old = (f << 8) / fcr;
			n = n > old ? n - old : 0;
		}
		fc += (n * fcr) >> 8;
		tsc = base + fc;
	}
	void PSB() { skl |= c.skl168; }
	void OVF()
	{
		u64 f = fcr;
		bool k = cal, s = skl;
		nocal();
		if (c.keep)
			fcr = f, cal = k, skl = s;
	}
};

static std::vector<uint8_t> tr;
static void pk(int type, u64 f0 = 0, u64 f1 = 0, u64 f2 = 0, u64 f3 = 0)
{
	ref::Pk k;
	k.type = type;
	u64 f[4] = {f0, f1, f2, f3};
	memcpy(k.f, f, sizeof(f));
	auto b = ref::encode(k);
	tr.insert(tr.end(), b.begin(), b.end());
}
static void fup(u64 ip) { pk(ppt_fup, pt_ipc_sext_48, ip); }

/* ---- what is observed ---- */
enum { P_PTW, P_TNT, P_TIP, NPROBE };
struct Obs {
	bool has;
	u64 tsc, lm, lc;
	int cbr;
	bool operator==(const Obs &o) const
	{
		return has == o.has && tsc == o.tsc && lm == o.lm && lc == o.lc && cbr == o.cbr;
	}
	std::string str() const
	{
		return vf::fmt("%s%llx lost mtc=%llu cyc=%llu cbr=%d", has ? "" : "(relative) ", (unsigned long long)tsc,
			       (unsigned long long)lm, (unsigned long long)lc, cbr);
	}
};
static Obs obs(const Ref &r) { return Obs{r.have_tsc, r.tsc, r.lost_mtc, r.lost_cyc, r.cbr}; }
struct Exp {
	int type;
	Obs o;
};

static void config(struct pt_config *c, const Conf &f)
{
	pt_config_init(c);
	c->begin = tr.data();
	c->end = c->begin + tr.size();
	c->cpuid_0x15_eax = f.eax;
	c->cpuid_0x15_ebx = f.ebx;
	c->mtc_freq = (uint8_t)f.mtc;
	c->nom_freq = (uint8_t)f.nom;
	c->errata.skl168 = f.skl168;
}
static Obs qtime(struct pt_query_decoder *d)
{
	Obs o = {};
	uint32_t m = 0, y = 0, b = 0;
	int rc = pt_qry_time(d, &o.tsc, &m, &y);
	o.has = rc >= 0;
	o.lm = m;
	o.lc = y;
	if (rc < 0 && rc != -pte_no_time)
		o.tsc = ~0ull;
	rc = pt_qry_core_bus_ratio(d, &b);
	o.cbr = rc < 0 ? -1 : (int)b;
	return o;
}
/* The times at the probes, in the event decoder and in the query decoder. */
static std::string observe(const Conf &f, const std::vector<Exp> &exp, bool hasovf)
{
	struct pt_config c;
	config(&c, f);
	c.flags.variant.event.keep_tcal_on_ovf = f.keep;
	struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
	int st = pt_evt_sync_forward(d);
	size_t k = 0;
	std::string w;
	while (st >= 0 && w.empty()) {
		struct pt_event e;
		memset(&e, 0, sizeof(e));
		st = pt_evt_next(d, &e, sizeof(e));
		if (st < 0 || (e.type != ptev_ptwrite && e.type != ptev_tnt && e.type != ptev_tip))
			continue;
		if (k >= exp.size() || exp[k].type != (int)e.type) {
			w = vf::fmt("event decoder: unexpected event %d", e.type);
			break;
		}
		Obs o = {!!e.has_tsc, e.tsc, e.lost_mtc, e.lost_cyc, exp[k].o.cbr};
		if (!(o == exp[k].o))
			w = vf::fmt("event decoder: probe #%zu: ", k) + o.str() + " instead of " + exp[k].o.str();
		k++;
	}
	if (w.empty() && (st != -pte_eos || k != exp.size()))
		w = vf::fmt("event decoder: %s after %zu probes", vf::ename(st), k);
	pt_evt_free_decoder(d);
	if (w.size())
		return w;
	config(&c, f);
	c.flags.variant.query.keep_tcal_on_ovf = f.keep;
	struct pt_query_decoder *q = pt_qry_alloc_decoder(&c);
	u64 ip;
	st = pt_qry_sync_forward(q, &ip);
	for (k = 0; k < exp.size() && w.empty() && st >= 0;) {
		if (st & pts_event_pending) {
			struct pt_event e;
			memset(&e, 0, sizeof(e));
			st = pt_qry_event(q, &e, sizeof(e));
			if (st < 0 || e.type != ptev_ptwrite)
				continue;
			if (exp[k].type != ptev_ptwrite)
				w = "query decoder: unexpected ptwrite";
		} else if (exp[k].type == ptev_tnt) {
			int t;
			st = pt_qry_cond_branch(q, &t);
		} else if (exp[k].type == ptev_tip)
			st = pt_qry_indirect_branch(q, &ip);
		else
			w = vf::fmt("query decoder: status %x at probe #%zu", st, k);
		if (st < 0 || w.size())
			break;
		Obs o = qtime(q);
		if (!(o == exp[k].o))
			w = vf::fmt("query decoder: probe #%zu: ", k) + o.str() + " instead of " + exp[k].o.str();
		k++;
	}
	if (w.empty() && (st < 0 || k != exp.size()))
		w = vf::fmt("query decoder: %s after %zu probes", vf::ename(st), k);
	pt_qry_free_decoder(q);
	(void)hasovf;
	return w;
}

/* What the decoders say about the time and the ratio when there is a TSC, a CBR, or none. */
static void ask()
{
	for (int v = 0; v < 16; v++) {
		const bool tsc = v & 1, cbr = v & 2;
		std::vector<uint8_t> b;
		for (int i = 0; i < 8; i++)
			b.insert(b.end(), {2, 0x82});
		if (tsc)
			b.insert(b.end(), {0x19, 0x77, 0x66, 0, 0, 0, 0, 0});
		if (cbr)
			b.insert(b.end(), {2, 3, 9, 0});
		b.insert(b.end(), {0x99, 1, 0x7d, 0, 0x10, 0, 0, 0, 0, 2, 0x23});
		struct pt_config c;
		pt_config_init(&c);
		c.begin = b.data();
		c.end = c.begin + b.size();
		uint32_t m = 0, y = 0, r = 0;
		uint32_t *pm = v & 4 ? 0 : &m, *py = v & 8 ? 0 : &y;
		for (int k = 0; k < 3; k++) {
			uint64_t t = 0, ip;
			int rc, rr, st;
			struct pt_event e;
			m = y = r = 99;
			vf::count("evaluations");
			if (k == 0) {
				struct pt_query_decoder *d = pt_qry_alloc_decoder(&c);
				for (st = pt_qry_sync_forward(d, &ip); st > 0 && (st & pts_event_pending);)
					st = pt_qry_event(d, &e, sizeof(e));
				rc = pt_qry_time(d, &t, pm, py);
				rr = pt_qry_core_bus_ratio(d, &r);
				pt_qry_free_decoder(d);
			} else if (k == 1) {
				struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
				for (st = pt_insn_sync_forward(d); st > 0 && (st & pts_event_pending);)
					st = pt_insn_event(d, &e, sizeof(e));
				rc = pt_insn_time(d, &t, pm, py);
				rr = pt_insn_core_bus_ratio(d, &r);
				pt_insn_free_decoder(d);
			} else {
				struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
				for (st = pt_blk_sync_forward(d); st > 0 && (st & pts_event_pending);)
					st = pt_blk_event(d, &e, sizeof(e));
				rc = pt_blk_time(d, &t, pm, py);
				rr = pt_blk_core_bus_ratio(d, &r);
				pt_blk_free_decoder(d);
			}
			bool ok = rc == (tsc ? 0 : -pte_no_time) && (!tsc || t == 0x6677) &&
				  rr == (cbr ? 0 : -pte_no_cbr) && (!cbr || r == 9);
			ok = ok && m == (pm ? 0u : 99u) && y == (py ? 0u : 99u);
			if (!ok)
				vf::viol(vf::fmt("ask-%d", k).c_str(),
					 vf::fmt("%s decoder, trace with%s TSC, with%s CBR%s%s: time %s, %llx, lost %u, %u; ratio "
						 "%s, %u", k == 0 ? "query" : k == 1 ? "instruction" : "block",
						 tsc ? "" : "out", cbr ? "" : "out", pm ? "" : ", no lost_mtc",
						 py ? "" : ", no lost_cyc", vf::ename(rc),
						 (unsigned long long)t, m, y, vf::ename(rr), r));
		}
	}
}

/* ---- part "ref" ---- */
struct Sym {
	int type;
	u64 a, b;
};
enum { X_TSC, X_TSCTMA, X_TMA, X_MTC, X_CYC, X_CBR, X_PSB, X_OVF };
static std::vector<Sym> syms;
static Conf conf;
static int depth, probe;
static u64 unit, nodes;
static std::vector<std::string> names;

static std::string sname(const Sym &s)
{
	static const char *const N[] = {"tsc", "tsc+tma", "tma", "mtc", "cyc", "cbr", "psb+", "ovf"};
	return vf::fmt("%s(%llx,%llx)", N[s.type], (unsigned long long)s.a, (unsigned long long)s.b);
}
static bool apply(Ref &r, const Sym &s, std::vector<Exp> &x)
{
	switch (s.type) {
	case X_TSC:
		pk(ppt_tsc, s.a);
		r.TSC(s.a, false);
		break;
	case X_TSCTMA:
		pk(ppt_tsc, 0x2000000);
		r.TSC(0x2000000, false);
		pk(ppt_tma, s.a, s.b);
		r.TMA(s.a, s.b);
		break;
	case X_TMA:
		if (!r.have_tsc || r.have_tma)
			return false;
		pk(ppt_tma, s.a, s.b);
		r.TMA(s.a, s.b);
		break;
	case X_MTC:
		pk(ppt_mtc, s.a);
		r.MTC(s.a);
		break;
	case X_CYC:
		pk(ppt_cyc, s.a);
		r.CYC(s.a);
		break;
	case X_CBR:
		pk(ppt_cbr, s.a);
		r.CBR((int)s.a, false);
		break;
	case X_OVF:
		pk(ppt_ovf);
		fup(0x401000);
		r.OVF();
		break;
	case X_PSB: {
		pk(ppt_psb);
		r.PSB();
		int v = (int)s.a;
		if (v != 3) {
			pk(ppt_tsc, 0x3000000);
			r.TSC(0x3000000, true);
		}
		if (v == 1) {
			pk(ppt_tma, 0x1234, 7);
			r.TMA(0x1234, 7);
		}
		if (v >= 1) {
			pk(ppt_cbr, 0x18);
			r.CBR(0x18, true);
		}
		if (v == 2) {
			pk(ppt_cyc, 300);
			r.CYC(300);
			pk(ppt_mtc, 0x41);
			r.MTC(0x41);
		}
		fup(0x401000);
		pk(ppt_psbend);
		break;
	}
	}
	switch (probe) {
	case P_PTW:
		pk(ppt_ptw, 0x11, 0, 0);
		x.push_back({ptev_ptwrite, obs(r)});
		break;
	case P_TNT:
		pk(ppt_tnt_8, 1, 1);
		x.push_back({ptev_tnt, obs(r)});
		break;
	default:
		pk(ppt_tip, pt_ipc_update_16, 0x2000);
		x.push_back({ptev_tip, obs(r)});
		break;
	}
	return true;
}
static void rec(const Ref &r0, const std::vector<Exp> &x0, int d, bool hasovf)
{
	if (vf::late())
		return;
	for (auto &s : syms) {
		if (d == 1)
			if (!vf::mine(unit++))
				continue;
		Ref r = r0;
		std::vector<Exp> x = x0;
		size_t n = tr.size();
		if (!apply(r, s, x)) {
			tr.resize(n);
			continue;
		}
		nodes++;
		names.push_back(sname(s));
		bool o = hasovf || s.type == X_OVF;
		if (d + 1 == depth) {
			/* every prefix is covered by its extensions */
			vf::count("evaluations");
			vf::curhex("trace", tr.data(), tr.size());
			std::string w = observe(conf, x, o);
			u64 h = 0;
			for (auto &e : x)
				h = vf::fnv(&e.o.tsc, 8, h ^ e.o.lm ^ e.o.lc << 8);
			vf::distinct(h);
			if (w.size()) {
				std::string l;
				for (auto &q : names)
					l += q + " ";
				vf::viol("ref", cstr(conf) + "\n  " + l + "\n  " + w + "\n  trace: " + vf::hex(tr));
			}
		} else
			rec(r, x, d + 1, o);
		names.pop_back();
		tr.resize(n);
	}
}
static void ref_run(const Conf &c, int dep, int pr)
{
	conf = c;
	depth = dep;
	probe = pr;
	for (int start = 0; start < 2; start++) {
		tr.clear();
		Ref r;
		r.c = c;
		std::vector<Exp> x;
		names = {start ? "start: psb+" : "start: no tsc"};
		Sym s = {X_PSB, start ? 1u : 3u, 0};
		apply(r, s, x);
		rec(r, x, 0, false);
	}
}

/* ---- part "clock" ---- */
#include "c11clock.hpp"

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	bool th = vf::opt.thorough;
	if (vf::opt.part == "ref") {
		if (!vf::opt.shard)
			ask();
		for (u64 v : {0x1000ull, 0x2000100ull, 0xfffffffffffff0ull})
			syms.push_back({X_TSC, v, 0});
		for (u64 v : {0ull, 0x1280ull, 0xfff8ull})
			syms.push_back({X_TSCTMA, v, v & 0x1ff});
		syms.push_back({X_TMA, 0x8001, 0x1ff});
		for (u64 v : {0, 1, 2, 0x42, 0x80, 0xff})
			syms.push_back({X_MTC, v, 0});
		for (u64 v : {0, 1, 100, 4095, 700000})
			syms.push_back({X_CYC, v, 0});
		for (u64 v : {1, 0x20, 0xff})
			syms.push_back({X_CBR, v, 0});
		for (u64 v : {0, 1, 2, 3})
			syms.push_back({X_PSB, v, 0});
		syms.push_back({X_OVF, 0, 0});
		std::vector<Conf> cs;
		for (int m : {0, 3, 8, 9, 12, 15})
			for (int v = 0; v < 4; v++)
				cs.push_back({(uint32_t)(v == 1 ? 2 : v == 2 ? 3 : 1), (uint32_t)(v == 1 ? 189 : v == 2 ? 250 : 84),
					      m, v & 1 ? 0x22 : 0, v == 2 || v == 3, v >= 2});
		cs.push_back({0, 84, 3, 0x22, false, false});
		cs.push_back({2, 0, 9, 0, true, true});
		cs.push_back({1, 0xffffffff, 15, 0xff, false, true});
		cs.push_back({0xffffffff, 1, 0, 1, false, false});
		for (size_t i = 0; i < cs.size(); i++)
			ref_run(cs[i], 4, (int)(i % NPROBE));
		ref_run(cs[5], 5, P_PTW);
		if (th)
			for (size_t i = 0; i < cs.size(); i++)
				ref_run(cs[i], 5, (int)((i + 1) % NPROBE));
	} else
		clock_main(th);
	vf::count("states", nodes);
	vf::count("transitions", nodes);
	return vf::finish();
}
