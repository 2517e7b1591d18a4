// C12: after an overflow, decoding resumes where tracing resumed.
//
// Part "flow": executions of the processor model with at least one overflow, in all decoders and with all errata
//   workarounds enabled or not; the hardware may also have the errata APL11 (a spurious TIP.PGD) and APL12 (a
//   spurious FUP), provided their workaround is enabled.
// Part "cut": an overflow instead of the rest of the trace, after every packet of every execution.
// Part "skd010": the FUP after an overflow is lost; decoding resumes at the next packet with an IP.
#include "hwrun.hpp"
using namespace hw;

static Env *env;
static int nerr = 5;

static void errata(struct pt_config *c, int e)
{
	if (e == 1 || e == 4)
		c->errata.skd010 = 1;
	if (e == 2 || e == 4)
		c->errata.apl11 = 1;
	if (e == 3 || e == 4)
		c->errata.apl12 = 1;
}
struct Decs {
	struct pt_insn_decoder *id;
	struct pt_block_decoder *bd;
	struct pt_event_decoder *ed;
	struct pt_query_decoder *qd;
	Decs(const std::vector<uint8_t> &tr, bool ifl, int e)
	{
		struct pt_config c;
		config(&c, tr);
		errata(&c, e);
		struct pt_config cb = c, ce = c, cq = c;
		c.flags.variant.insn.enable_iflags_events = ifl;
		cb.flags.variant.block.enable_iflags_events = ifl;
		ce.flags.variant.event.enable_iflags_events = ifl;
		cq.flags.variant.query.enable_iflags_events = ifl;
		id = pt_insn_alloc_decoder(&c);
		bd = pt_blk_alloc_decoder(&cb);
		ed = pt_evt_alloc_decoder(&ce);
		qd = pt_qry_alloc_decoder(&cq);
		pt_insn_set_image(id, env->image);
		pt_blk_set_image(bd, env->image);
	}
	~Decs()
	{
		pt_insn_free_decoder(id);
		pt_blk_free_decoder(bd);
		pt_evt_free_decoder(ed);
		pt_qry_free_decoder(qd);
	}
};
static const char *const EN[] = {"no errata", "skd010", "apl11", "apl12", "all errata"};

static void flow(const Machine &m0, const std::vector<int> &path)
{
	if (!m0.novf)
		return;
	Machine m = m0;
	if (!m.end())
		return;
	vf::cur(steps_str(path) + " | " + m.trace());
	env->load(m);
	Flow exp = truth(m);
	std::string es = exp.str();
	vf::distinct(vf::fnv(es.data(), es.size()));
	for (int e = 0; e < nerr; e++) {
		if (m.c.err == ERR_APL11 && e != 2 && e != 4)
			continue;
		if (m.c.err == ERR_APL12 && e != 3 && e != 4)
			continue;
		vf::count("evaluations");
		auto what = [&](const char *d) {
			return steps_str(path) + vf::fmt("\n  %s decoder, %s%s: ", d, EN[e],
				m.c.err == ERR_APL11 ? ", spurious TIP.PGD" :
				m.c.err == ERR_APL12 ? ", spurious FUP" : "");
		};
		std::string tr = "\n  trace: " + m.trace();
		Decs d(m.tr, m.c.iflags, e);
		std::string w;
		Flow got = insn_flow(d.id, pt_insn_sync_forward(d.id), &w);
		if (!(got == exp) || w.size())
			vf::viol("insn", what("insn") + w + diff(got, exp) + tr);
		w.clear();
		got = blk_flow(d.bd, pt_blk_sync_forward(d.bd), m, &w);
		if (!(got == exp) || w.size())
			vf::viol("block", what("block") + w + diff(got, exp) + tr);
		int end;
		auto ev = evt_events(d.ed, pt_evt_sync_forward(d.ed), &end);
		if (ev != m.evl || end != -pte_eos)
			vf::viol("event", what("event") + vf::ename(end) + evdiff(ev, m.evl) + tr);
		uint64_t ip;
		QReplay q{d.qd, m, false};
		w = q.run(pt_qry_sync_forward(d.qd, &ip), 0, 0, 0);
		if (w.size())
			vf::viol("query", what("query") + w + tr);
	}
}

/* ---- an overflow after every packet ---- */
static const char *const TN[] = {"enabled", "disabled", "overflow twice", "timing packets, enabled", "disabled, psb",
	"timing packets and standalone events, enabled"};
/* Two events that may come before or after the overflow they are interleaved with. */
static bool marked(const Ev &e)
{
	return (e.type == ptev_cbr && e.a[0] == 0x5a) || (e.type == ptev_mnt && e.a[0] == 0xfeedface);
}
static Machine tailm(const Cfg &c, int k)
{
	Machine t;
	t.reset(c);
	t.c.tntmax = 6;
	t.slots[0] = 200; /* unlike anything before */
	t.slots[1] = 200;
	t.dm_ever = true;
	t.have_last = true;
	auto en = [&](bool mode_known) {
		if (!mode_known) {
			step(t, S_NOP);
			/* whatever the mode is: say it with an interrupt */
			u64 from = t.ip;
			t.ippk(ppt_fup, from);
			Ev e[2];
			t.mode = M64;
			t.mode_pk(M64, t.iflag);
			int n = t.mode_ev(M64, t.iflag, e);
			u64 to = t.fresh(0);
			t.ippk(ppt_tip, to);
			t.at(E(ptev_async_branch, false, from, to));
			t.ip = to;
			for (int i = 0; i < n; i++)
				e[i].a[0] = to, t.at(e[i]);
			t.lo = t.n();
			t.anch();
		} else
			step(t, S_PGX);
		step(t, S_JT);
		step(t, S_JN);
		step(t, S_IJF);
		step(t, S_NOP);
	};
	switch (k) {
	case 0:
		t.overflow(false, true, t.fresh(0));
		en(false);
		break;
	case 1:
		t.overflow(false, false, 0);
		en(true);
		break;
	case 2:
		t.overflow(false, false, 0);
		t.overflow(false, true, t.fresh(0));
		en(false);
		break;
	case 3:
	case 5: {
		t.overflow(false, true, t.fresh(0));
		/* insert timing packets between OVF and FUP */
		std::vector<uint8_t> x = {0x00, 0x19, 1, 2, 3, 4, 5, 6, 7, 0x02, 0x73, 1, 0, 0, 1, 0, 0x59, 9, 0x13};
		if (k == 5) {
			std::vector<uint8_t> y = {0x02, 0x03, 0x5a, 0x00, 0x02, 0xc3, 0x88, 0xce, 0xfa, 0xed, 0xfe, 0, 0, 0, 0};
			x.insert(x.begin() + 1, y.begin(), y.end());
		}
		t.tr.insert(t.tr.begin() + (long)t.pks[0].off + 2, x.begin(), x.end());
		en(false);
		break;
	}
	default:
		t.overflow(false, false, 0);
		t.psb();
		en(true);
		break;
	}
	t.end();
	return t;
}

static std::vector<Machine> tails; /* per configuration */
static bool branchy(const Tok &t)
{
	if (t.isev || t.i.cls == ptic_other || t.i.cls == ptic_ptwrite)
		return false;
	return t.i.raw[0] != 0xe9 && t.i.raw[0] != 0xe8; /* direct ones need no trace */
}
static void cut(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	/* Packets before the last step have been cut off, already. */
	static std::vector<size_t> done;
	done.resize(64);
	size_t from = path.size() ? done[path.size() - 1] : 0;
	done[path.size()] = m0.pks.size();
	for (size_t pi = from > 2 ? from - 2 : 0; pi < m.pks.size(); pi++) {
		/* after this packet; not right after the PSB packet */
		size_t n = pi + 1 < m.pks.size() ? m.pks[pi + 1].off : m.tr.size();
		if (m.c.pad && pi + 1 < m.pks.size() && m.pks[pi + 1].type != ppt_psb)
			n--;
		std::vector<uint8_t> cutt(m.tr.begin(), m.tr.begin() + (long)n);
		bool hdr = false;
		for (size_t i = 0; i <= pi; i++)
			if (m.pks[i].type == ppt_psb)
				hdr = true;
			else if (m.pks[i].type == ppt_psbend)
				hdr = false;
		Machine x = m; /* for the code */
		for (size_t k = 0; k < tails.size(); k++) {
			const Machine &t = tails[k];
			vf::count("evaluations");
			std::vector<uint8_t> tr = cutt;
			tr.insert(tr.end(), t.tr.begin(), t.tr.end());
			x.code = m.code;
			for (Code q : t.code)
				for (int md : {M64, M32, M16}) {
					/* the mode after the overflow is not known here */
					q.mode = (uint8_t)md;
					if (md == M64 || q.b[0] == 0x90)
						x.code.push_back(q);
				}
			vf::cur(steps_str(path) + " | " + vf::hex(tr));
			env->load(x);
			auto what = [&](const char *d) {
				return steps_str(path) + vf::fmt("\n  %s decoder, overflow after packet %zu, %s: ", d, pi,
								 TN[k]);
			};
			auto trs = [&] { return "\n  trace: " + vf::hex(tr); };
			for (int e = 0; e < 5; e += nerr > 1 ? 4 : 5) {
				if (e && hdr && m0.novf)
					continue; /* with APL12, it depends on the rest of the PSB+ */
				Decs a(cutt, m.c.iflags, e), b(tr, m.c.iflags, e);
				int end;
				auto pre = evt_events(a.ed, pt_evt_sync_forward(a.ed), &end);
				if (end != -pte_eos && end != -pte_nosync)
					vf::viol("event", what("event") + "the trace before: " + vf::ename(end) + trs());
				auto ev = evt_events(b.ed, pt_evt_sync_forward(b.ed), &end);
				if (k == 5) {
					size_t n = ev.size();
					ev.erase(std::remove_if(ev.begin(), ev.end(), marked), ev.end());
					if (n != ev.size() + 2)
						vf::viol("event", what("event") + vf::fmt("%zu standalone events instead of 2", n - ev.size()) + trs());
				}
				if (hdr) {
					/* the overflow also ends the PSB+ */
					size_t i = pre.size();
					while (i < ev.size() && ev[i].su)
						pre.push_back(ev[i++]);
				}
				pre.insert(pre.end(), t.evl.begin(), t.evl.end());
				if (ev != pre || end != -pte_eos)
					vf::viol("event", what("event") + vf::ename(end) + evdiff(ev, pre) + trs());
				if (hdr)
					continue; /* the overflow may hide the mode, and everything else */
				Flow te = truth(t);
				for (int bl = 0; bl < 2; bl++) {
					std::string w;
					Flow fa, fb;
					if (bl) {
						fa = blk_flow(a.bd, pt_blk_sync_forward(a.bd), x, &w);
						w.clear();
						fb = blk_flow(b.bd, pt_blk_sync_forward(b.bd), x, &w);
					} else {
						fa = insn_flow(a.id, pt_insn_sync_forward(a.id), &w);
						w.clear();
						fb = insn_flow(b.id, pt_insn_sync_forward(b.id), &w);
					}
					if (k == 5)
						fb.t.erase(std::remove_if(fb.t.begin(), fb.t.end(), [](const Tok &x) {
							return x.isev && marked(x.e); }), fb.t.end());
					/* up to the tail's overflow */
					size_t o = 0;
					auto isovf = [&](const Tok &k) { return k.isev && k.e.type == ptev_overflow; };
					size_t nov = 0, want = 0;
					for (auto &q : fa.t)
						want += isovf(q);
					while (o < fb.t.size()) {
						if (isovf(fb.t[o]) && nov++ == want)
							break;
						o++;
					}
					/* is the mode known? */
					bool known = t.pks[t.pks.size() > 1 ? 1 : 0].type != ppt_fup && k != 2;
					for (size_t i = 0; i < o; i++)
						known |= fb.t[i].isev && fb.t[i].e.type == ptev_exec_mode;
					if (!known)
						continue;
					std::string s;
					for (size_t i = 0; i < o && s.empty(); i++)
						if (i >= fa.t.size() ?
						    /* reported together with the end of the trace */
						    !(i == fa.t.size() && i + 1 == o && fb.t[i].isev) :
						    !(fa.t[i] == fb.t[i]))
							s = "before the overflow: " + diff(fb, fa);
					/* everything the trace says must have been used */
					size_t lowest = fa.t.size();
					if (lowest && branchy(fa.t[lowest - 1]))
						lowest--;
					while (lowest && !fa.t[lowest - 1].isev && !branchy(fa.t[lowest - 1]))
						lowest--;
					if (s.empty() && o < lowest)
						s = "trace from before the overflow is lost: " + diff(fb, fa);
					Flow rest;
					rest.err = fb.err;
					rest.t.assign(fb.t.begin() + (long)o, fb.t.end());
					Flow e2 = te;
					/* the mode after the overflow is whatever it was before */
					for (size_t i = 0; i < e2.t.size() && i < rest.t.size(); i++) {
						if (e2.t[i].isev && e2.t[i].e.type == ptev_exec_mode)
							break;
						if (!e2.t[i].isev)
							e2.t[i].i.mode = rest.t[i].i.mode;
					}
					if (s.empty() && !(rest == e2))
						s = "after the overflow: " + diff(rest, e2);
					if (s.empty())
						s = w;
					std::string h = rest.str();
					vf::distinct(vf::fnv(h.data(), h.size(), o));
					/* Standalone events hide the overflow from an instruction that was postponed for
					 * an event and whose own packet was lost.
					 */
					int lp = m.pks[pi].type;
					if (lp == ppt_fup && pi && m.pks[pi - 1].type == ppt_cfe)
						lp = ppt_cfe;
					if (k == 5 && rest.t.empty() && fb.err == -pte_bad_query &&
					    (lp == ppt_cfe || lp == ppt_pip || lp == ppt_vmcs))
						vf::viol("postponed-standalone", what(bl ? "block" : "insn") + s + trs());
					else if (s.size())
						vf::viol(bl ? "block" : "insn",
							 what(bl ? "block" : "insn") + s + trs());
				}
			}
		}
	}
}

/* ---- a lost FUP ---- */
static void skd(const Machine &m0, const std::vector<int> &path)
{
	if (m0.novf != 1)
		return;
	Machine m = m0;
	if (!m.end())
		return;
	size_t o = 0;
	while (m.pks[o].type != ppt_ovf)
		o++;
	/* the events before the overflow, without the model's own overflow event */
	size_t k = m.pks[o].evl;
	std::vector<Ev> exp(m.evl.begin(), m.evl.begin() + (long)k);
	bool fup_hdr = false;
	const size_t none = ~(size_t)0;
	size_t tsx = none;
	for (size_t i = o + 1; i < m.pks.size(); i++) {
		auto &p = m.pks[i];
		if (p.ipbit)
			return; /* not recoverable, or not in a simple way */
		switch (p.type) {
		case ppt_tnt_8: case ppt_tnt_64: case ppt_stop: case ppt_ovf: case ppt_tip_pge:
			return;
		case ppt_psb: case ppt_fup: case ppt_tip: case ppt_tip_pgd: {
			/* decode its IP: it has to be full here */
			Ev e;
			size_t at = p.evl;
			if (p.type == ppt_tip_pgd)
				e = E(ptev_overflow, true), at++;
			else if (p.type == ppt_tip)
				e = E(ptev_overflow, false, m.evl[at].a[0]), at++;
			else if (p.type == ppt_psb) {
				if (m.evl[at].type != ptev_enabled)
					return;
				e = E(ptev_overflow, false, m.evl[at].a[0]);
			} else if (tsx != none && m.evl[tsx].type == ptev_tsx) {
				/* at the FUP that MODE.TSX binds to */
				at = tsx;
				e = E(ptev_overflow, false, m.evl[at].a[0]);
			} else
				return; /* just like the one that was lost */
			exp.push_back(e);
			exp.insert(exp.end(), m.evl.begin() + (long)at, m.evl.end());
			fup_hdr = true;
		}
			break;
		case ppt_mode:
			if (tsx != none)
				return;
			tsx = p.evl;
			continue;
		default:
			continue;
		}
		break;
	}
	if (!fup_hdr)
		return;
	vf::cur(steps_str(path) + " | " + m.trace());
	for (int e = 1; e < 5; e += 3) {
		vf::count("evaluations");
		struct pt_config c;
		config(&c, m.tr);
		errata(&c, e);
		c.flags.variant.event.enable_iflags_events = m.c.iflags;
		struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
		int end;
		auto ev = evt_events(d, pt_evt_sync_forward(d), &end);
		pt_evt_free_decoder(d);
		std::string es = evs(exp);
		vf::distinct(vf::fnv(es.data(), es.size()));
		if (ev != exp || end != -pte_eos)
			vf::viol("skd010", steps_str(path) + "\n  event decoder, FUP lost, " + EN[e] + ": " + vf::ename(end) +
				 evdiff(ev, exp) + "\n  trace: " + m.trace());
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	env = new Env;
	Walker w;
	bool th = vf::opt.thorough;
	auto go = [&](std::vector<int> alpha, int depth, int ncfg, int err) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = 0; i < ncfg; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.cfg.err = err;
				w.cfg.txovf = vf::opt.part == "skd010";
				if (vf::opt.part == "cut") {
					tails.clear();
					for (int k = 0; k < 6; k++)
						tails.push_back(tailm(w.cfg, k));
				}
				w.start_enabled = e;
				w.run();
			}
	};
	auto with_ovf = [](std::vector<int> a) {
		for (int s : {S_OF, S_OFF, S_OD})
			if (std::find(a.begin(), a.end(), s) == a.end())
				a.push_back(s);
		return a;
	};
	if (vf::opt.part == "flow") {
		w.visit = flow;
		for (int err = 0; err <= ERR_APL12; err++) {
			go(all_steps(), 3, th ? 6 : 3, err);
			nerr = th ? 5 : err ? 5 : 1;
			for (auto &t : THEMES)
				go(with_ovf(*t.steps), th ? 5 : 4, th ? 3 : 1, err);
			nerr = 5;
		}
		if (th)
			for (int err = 0; err <= ERR_APL12; err++)
				go(all_steps(), 4, 1, err);
	} else if (vf::opt.part == "cut") {
		w.visit = cut;
		go(all_steps(), 2, 6, 0);
		nerr = 1;
		for (auto &t : THEMES)
			go(*t.steps, th ? 4 : 3, th ? 6 : 2, 0);
	} else {
		w.visit = skd;
		go(all_steps(), 3, 6, ERR_SKD010);
		for (auto &t : THEMES)
			go(with_ovf(*t.steps), th ? 6 : 5, th ? 3 : 1, ERR_SKD010);
		if (th)
			go(all_steps(), 4, 3, ERR_SKD010);
	}
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
