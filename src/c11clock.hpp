/* The hardware: a crystal clock (CTC), the TSC derived from it, and a core clock at a multiple of the bus clock. */
struct Mach {
	u64 now = 0;	   /* TSC ticks since the beginning */
	u64 num = 0;	   /* core cycles so far, times nom */
	u64 sent = 0;	   /* cycles covered by CYC packets */
	unsigned ratio = 0;
	/* what software may know from the packets */
	bool tma = false;    /* TMA since the last TSC */
	bool anymtc = false; /* MTC since then */
	u64 tctc = 0;	     /* CTC at the last TSC */
	u64 at = 0;	     /* the exact time of the last TSC or used MTC */
	unsigned nmtc = 0;   /* MTC since the last TSC */
	unsigned ncyc = 0;   /* CYC since then */
	u64 cycat = 0;	     /* the time of the last CYC */
	u64 est = 0;	     /* the time from all packets that could be used */
	double err = 0;	     /* its error due to calibration */
	bool havetsc = false;
	/* calibration at the current frequency */
	bool cal = false;
	bool mtc1 = false, cyc1 = false; /* one MTC, with cycles after it */
	u64 tsc1 = ~0ull;		 /* a TSC that may be used for calibration */
	bool cyct = false;
	double rel = 0;			 /* the calibration's relative error */
	unsigned mtcs = 0;		 /* MTC in the current calibration period */
	u64 mtcat = 0;
	unsigned lostc = 0;
};
struct CConf {
	Conf c;
	unsigned nom;	 /* TSC ticks per bus clock */
	unsigned thr;	 /* CYC threshold in cycles */
	bool cycen, mtcen;
	u64 t0, ctc0;
};
struct Truth {
	u64 lo, hi; /* relative to t0 */
	u64 now;
	u64 lc;
};
static CConf cc;
static std::vector<Truth> truth;

static u64 ctc(const Mach &m) { return cc.ctc0 + (u64)((u128)m.now * cc.c.eax / cc.c.ebx); }
static u64 edge(u64 k) { return (u64)(((u128)(k - cc.ctc0) * cc.c.ebx + cc.c.eax - 1) / cc.c.eax); }
static void advance(Mach &m, u64 to)
{
	m.num += (to - m.now) * m.ratio;
	m.now = to;
}
static double cpt(const Mach &m) { return (double)m.ratio / cc.nom; } /* cycles per tick */
static void cycpk(Mach &m)
{
	u64 all = m.num / cc.nom, n = all - m.sent;
	if (!cc.cycen || !n || n < cc.thr)
		return;
	m.sent = all;
	pk(ppt_cyc, n);
	m.ncyc++;
	if (m.cal) {
		m.est += m.now - m.cycat;
		m.err += (m.now - m.cycat) * m.rel + 1 + cc.nom / 0x0b;
	}
	m.cycat = m.now;
	m.cyc1 = m.cyct = true;
	if (!m.cal)
		m.lostc++;
}
static u64 period() { return ((u64)cc.c.ebx << cc.c.mtc) / cc.c.eax; }
static void tscpk(Mach &m, bool header)
{
	if (header && m.tsc1 != ~0ull && m.cyct && !m.mtc1 && m.now > m.tsc1) {
		double n = (m.now - m.tsc1) * cpt(m);
		m.cal = true;
		m.rel = (1. + cc.thr) / n + cpt(m) / 256;
	}
	m.tsc1 = cc.t0 + m.now ? m.now : ~0ull;
	m.cyct = false;
	pk(ppt_tsc, (cc.t0 + m.now) & (((u64)1 << 56) - 1));
	m.havetsc = true;
	m.tma = m.anymtc = false;
	m.tctc = ctc(m);
	m.at = m.now;
	m.nmtc = m.ncyc = m.lostc = 0;
	m.cycat = m.est = m.now;
	m.err = 0;
	if (cc.mtcen) {
		pk(ppt_tma, ctc(m) & 0xffff, m.now - edge(ctc(m)));
		m.tma = true;
	}
}
static void cbrcal(Mach &m)
{
	if (cc.c.nom) {
		m.cal = true;
		m.rel = cpt(m) / 256;
	}
}
enum { K_MTC, K_DROP1, K_DROP200, K_EV1, K_EV2, K_TSC, K_PSB, K_CBR, NK };
static const char *const KN[] = {"mtc", "drop 1 mtc", "drop 200 mtc", "event (1/3)", "event (7/8)", "tsc", "psb", "cbr"};

static bool mtcpk(Mach &m, unsigned drop)
{
	if (!cc.mtcen)
		return false;
	u64 k = ((ctc(m) >> cc.c.mtc) + 1 + drop) << cc.c.mtc;
	/* The TMA does not provide all bits: MTC packets must not be lost around it. */
	if (!m.anymtc && k - m.tctc > 0xffff)
		return false;
	advance(m, edge(k));
	cycpk(m);
	pk(ppt_mtc, (k >> cc.c.mtc) & 0xff);
	if (m.mtc1 && m.cyc1) {
		double n = (m.now - m.mtcat) * cpt(m);
		m.cal = true;
		m.rel = (2. + 2 * cc.thr) / n + cpt(m) / 256 + 2. / (m.now - m.mtcat);
		m.cyc1 = false;
		m.mtcat = m.now;
	} else if (!m.mtc1) {
		m.mtc1 = true;
		m.cyc1 = false;
		m.mtcat = m.now;
	}
	m.anymtc = true;
	m.nmtc++;
	m.at = m.now;
	m.ncyc = m.lostc = 0;
	m.cycat = m.est = m.now;
	m.err = 0;
	return true;
}
static void note(Mach &m)
{
	cycpk(m);
	pk(ppt_ptw, 0x11, 0, 0);
	Truth t;
	u64 r = m.nmtc + 2; /* rounding */
	t.now = m.now;
	t.lc = m.lostc;
	u64 last = m.est;
	double e = m.err + (m.ncyc ? 2. * cc.thr * cc.nom / 0x0b : 0);
	u64 tol = r + (u64)e;
	/* Not later than now and not earlier than the last timing packet. */
	t.lo = last > tol ? last - tol : 0;
	t.hi = last + tol;
	truth.push_back(t);
}
static bool kstep(Mach &m, int op)
{
	switch (op) {
	case K_MTC:
		return mtcpk(m, 0);
	case K_DROP1:
		return mtcpk(m, 1);
	case K_DROP200:
		return mtcpk(m, 200);
	case K_EV1:
		advance(m, m.now + period() / 3);
		note(m);
		return true;
	case K_EV2:
		advance(m, m.now + period() / 8 * 7);
		note(m);
		return true;
	case K_TSC:
		advance(m, m.now + period() / 16);
		cycpk(m);
		tscpk(m, false);
		return true;
	case K_PSB:
		advance(m, m.now + period() / 16);
		cycpk(m);
		pk(ppt_psb);
		tscpk(m, true);
		pk(ppt_cbr, m.ratio);
		cbrcal(m);
		fup(0x401000);
		pk(ppt_psbend);
		return true;
	case K_CBR:
		cycpk(m);
		m.ratio = m.ratio == 0x20 ? 0x0b : 0x20;
		m.cal = m.mtc1 = m.cyc1 = m.cyct = false;
		m.tsc1 = ~0ull;
		pk(ppt_cbr, m.ratio);
		cbrcal(m);
		return true;
	}
	return false;
}
static std::string ckobs(u64 k, bool has, u64 tsc, u64 lm, u64 lc)
{
	if (k >= truth.size())
		return "too many events";
	const Truth &t = truth[k];
	if (!has)
		return vf::fmt("event #%llu: no time", (unsigned long long)k);
	/* modulo the TSC's size */
	int64_t d = (int64_t)((tsc - (cc.t0 & (((u64)1 << 56) - 1))) << 8) >> 8;
	if (d < (int64_t)t.lo || d > (int64_t)t.hi)
		return vf::fmt("event #%llu at %llu: time %lld, expected %llu..%llu", (unsigned long long)k,
			       (unsigned long long)t.now, (long long)d, (unsigned long long)t.lo, (unsigned long long)t.hi);
	if (lm)
		return vf::fmt("event #%llu: %llu lost MTC", (unsigned long long)k, (unsigned long long)lm);
	if (lc != t.lc)
		return vf::fmt("event #%llu: %llu lost CYC, expected %llu", (unsigned long long)k, (unsigned long long)lc,
			       (unsigned long long)t.lc);
	return "";
}
static std::string clock_observe()
{
	struct pt_config c;
	config(&c, cc.c);
	struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
	int st = pt_evt_sync_forward(d);
	u64 k = 0;
	std::string w;
	while (st >= 0 && w.empty()) {
		struct pt_event e;
		st = pt_evt_next(d, &e, sizeof(e));
		if (st >= 0 && e.type == ptev_ptwrite)
			w = ckobs(k, e.has_tsc, e.tsc, e.lost_mtc, e.lost_cyc), k++;
	}
	if (w.empty() && (st != -pte_eos || k != truth.size()))
		w = vf::fmt("%s after %llu events", vf::ename(st), (unsigned long long)k);
	pt_evt_free_decoder(d);
	return w;
}
static void crec(const Mach &m0, int d, int dep)
{
	if (vf::late())
		return;
	for (int op = 0; op < NK; op++) {
		if ((d == 1 && !vf::mine(unit++)) || (op == K_CBR && !cc.cycen))
			continue;
		Mach m = m0;
		size_t n = tr.size(), x = truth.size();
		names.push_back(KN[op]);
		if (kstep(m, op)) {
			nodes++;
			if (d + 1 == dep) {
				/* an event at the end */
				advance(m, m.now + period() / 5);
				note(m);
				vf::count("evaluations");
				vf::curhex("trace", tr.data(), tr.size());
				std::string w = clock_observe();
				vf::distinct(vf::fnv(tr.data(), tr.size()));
				if (w.size()) {
					std::string l;
					for (auto &q : names)
						l += q + ", ";
					vf::viol("clock", cstr(cc.c) + vf::fmt(" nom=%u thr=%u cyc=%d mtc=%d t0=%llx ctc0=%llx\n  ",
						 cc.nom, cc.thr, cc.cycen, cc.mtcen, (unsigned long long)cc.t0, (unsigned long long)cc.ctc0) +
						 l + "\n  " + w + "\n  trace: " + vf::hex(tr));
				}
			} else
				crec(m, d + 1, dep);
		}
		names.pop_back();
		tr.resize(n);
		truth.resize(x);
	}
}
static void clock_main(bool th)
{
	std::vector<CConf> v;
	struct {
		uint32_t a, b;
	} R[] = {{1, 84}, {2, 189}, {3, 250}};
	for (int mtc : {3, 6, 9, 12, 15})
		for (auto &r : R) {
			bool nomk = mtc & 1;
			for (int w = 0; w < 4; w++) {
				CConf k;
				k.nom = 0x22;
				k.c = {r.a, r.b, mtc, nomk != (w == 1) ? 0x22 : 0, false, false};
				k.cycen = w > 0;
				k.mtcen = w != 3;
				k.thr = w == 2 ? 16 : 0;
				k.t0 = r.a == 1 ? 0x123456789ull : r.a == 2 ? ((u64)1 << 56) - 1000000 : 0x7654321000ull;
				k.ctc0 = r.a == 1 ? 0xfff0 : r.a == 2 ? 0x12345678 : ((u64)1 << (mtc + 8)) - 5;
				v.push_back(k);
			}
		}
	for (auto &k : v) {
		cc = k;
		tr.clear();
		truth.clear();
		Mach m;
		m.ratio = 0x20;
		advance(m, 12345);
		m.sent = m.num / cc.nom;
		pk(ppt_psb);
		tscpk(m, true);
		pk(ppt_cbr, m.ratio);
		cbrcal(m);
		fup(0x401000);
		pk(ppt_psbend);
		names = {"start: psb+"};
		crec(m, 0, th ? 7 : 5);
	}
}
