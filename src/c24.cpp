// C24: errata workarounds.
//
// Part "hit": the processor model has an erratum; with the workaround enabled, the decoders reproduce what the
// processor did.
// Part "miss": the processor does not have any erratum; with all workarounds enabled, the decoders still reproduce
// what the processor did.
#include "hwrun.hpp"
#include <algorithm>
using namespace hw;

static Env *env;
static int filter; /* 0: none, 1: everything but REG[7], 2: REG[7] is a stop region, 3: both */
static bool all;

static void errata(struct pt_config *c, int err)
{
	if (all) {
		struct pt_errata &e = c->errata;
		e.bdm70 = e.bdm64 = e.skd007 = e.skd022 = e.skd010 = e.skl014 = e.apl11 = e.apl12 = 1;
		e.skl168 = e.skz84 = 1;
		return;
	}
	switch (err) {
	case ERR_BDM70: c->errata.bdm70 = 1; break;
	case ERR_BDM64: c->errata.bdm64 = 1; break;
	case ERR_SKD022: c->errata.skd022 = 1; break;
	case ERR_SKL014: c->errata.skl014 = 1; break;
	default: break;
	}
}
static void filters(struct pt_config *c)
{
	auto &f = c->addr_filter;
	if (filter & 1) {
		f.config.ctl.addr0_cfg = 1;
		f.addr0_a = 0;
		f.addr0_b = REG[7] - 1;
		f.config.ctl.addr1_cfg = 1;
		f.addr1_a = REG[7] + REGSZ;
		f.addr1_b = 0x7fffffffffffull;
		f.config.ctl.addr2_cfg = 1;
		f.addr2_a = 0xffffffff81000000ull;
		f.addr2_b = ~0ull;
	}
	if (filter & 2) {
		f.config.ctl.addr3_cfg = 2;
		f.addr3_a = REG[7];
		f.addr3_b = REG[7] + REGSZ - 1;
	}
}
static const char *const EN[] = {"", "apl11", "apl12", "skd010", "bdm70", "bdm64", "skd022", "skl014"};

/* With erratum BDM64, a CBR between the corrupted branch and the abort hides the abort: the flow is right up to and
 * including the CBR and the abort event, which comes next, does not.  */
static const char *key(const char *k, const Machine &m, const std::vector<int> &path, const Flow &got, const Flow &exp)
{
	if (m.c.err != ERR_BDM64 || std::find(path.begin(), path.end(), (int)S_BIC) == path.end())
		return k;
	size_t i = 0;
	while (i < got.t.size() && i < exp.t.size() && got.t[i] == exp.t[i])
		i++;
	if (!i || i >= exp.t.size() || !exp.t[i].isev || exp.t[i].e.type != ptev_tsx || !exp.t[i - 1].isev ||
	    exp.t[i - 1].e.type != ptev_cbr || exp.t[i - 1].e.a[0] != 13)
		return k;
	return "bdm64-cbr";
}
static void visit(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	/* An asynchronous disable at a VM entry looks like erratum SKD022. */
	for (u64 a : m.adis)
		for (auto &k : m.code)
			if (k.ip == a && k.b[0] == 0x0f && k.b[1] == 0x01 && (k.b[2] == 0xc2 || k.b[2] == 0xc3))
				return;
	std::string pre = steps_str(path) + vf::fmt("\n  hardware with %s%s filter %d", EN[m.c.err],
						    all ? ", all workarounds" : "", filter);
	vf::cur(pre + " | " + m.trace());
	env->load(m);
	struct pt_config c;
	config(&c, m.tr);
	errata(&c, m.c.err);
	filters(&c);
	Flow exp = truth(m);
	vf::distinct(vf::fnv(exp.str().data(), exp.str().size()));
	vf::count("evaluations");
	{
		struct pt_config k = c;
		k.flags.variant.event.enable_iflags_events = m.c.iflags;
		struct pt_event_decoder *d = pt_evt_alloc_decoder(&k);
		int end;
		auto ev = evt_events(d, pt_evt_sync_forward(d), &end);
		pt_evt_free_decoder(d);
		if (ev != m.evl || end != -pte_eos)
			vf::viol("event", pre + vf::fmt("\n  event decoder: %s", vf::ename(end)) + evdiff(ev, m.evl) +
				 "\n  trace: " + m.trace());
		for (size_t b : m.bogus) {
			/* starting at a PSB+ that contains more than it should */
			auto &mk = m.marks[b];
			std::vector<Ev> tail(m.evl.begin() + (long)mk.evl, m.evl.end());
			d = pt_evt_alloc_decoder(&k);
			ev = evt_events(d, pt_evt_sync_set(d, mk.off), &end);
			pt_evt_free_decoder(d);
			vf::count("tails");
			if (ev != tail || end != -pte_eos)
				vf::viol("tail", pre + vf::fmt("\n  event decoder from %zu: %s", mk.off,
							       vf::ename(end)) + evdiff(ev, tail) +
					 "\n  trace: " + m.trace());
		}
	}
	{
		struct pt_config k = c;
		k.flags.variant.query.enable_iflags_events = m.c.iflags;
		struct pt_query_decoder *d = pt_qry_alloc_decoder(&k);
		uint64_t ip = 0;
		int st = pt_qry_sync_forward(d, &ip);
		QReplay q{d, m, false};
		std::string why = q.run(st, 0, 0, 0);
		pt_qry_free_decoder(d);
		if (why.size())
			vf::viol("query", pre + "\n  query decoder: " + why + "\n  trace: " + m.trace());
	}
	{
		struct pt_config k = c;
		k.flags.variant.insn.enable_iflags_events = m.c.iflags;
		struct pt_insn_decoder *d = pt_insn_alloc_decoder(&k);
		pt_insn_set_image(d, env->image);
		std::string why;
		Flow got = insn_flow(d, pt_insn_sync_forward(d), &why);
		pt_insn_free_decoder(d);
		if (!(got == exp) || why.size())
			vf::viol(key("insn", m, path, got, exp), pre + "\n  instruction decoder: " + why + diff(got, exp) + "\n  trace: " +
				 m.trace());
	}
	for (int fl = 0; fl < 4; fl += 3) {
		struct pt_config k = c;
		k.flags.variant.block.enable_iflags_events = m.c.iflags;
		k.flags.variant.block.end_on_call = fl & 1;
		k.flags.variant.block.end_on_jump = fl >> 1;
		struct pt_block_decoder *d = pt_blk_alloc_decoder(&k);
		pt_blk_set_image(d, env->image);
		std::string why;
		Flow got = blk_flow(d, pt_blk_sync_forward(d), m, &why);
		pt_blk_free_decoder(d);
		if (!(got == exp) || why.size())
			vf::viol(key("block", m, path, got, exp), pre + vf::fmt("\n  block decoder, flags %d: ", fl) + why + diff(got, exp) +
				 "\n  trace: " + m.trace());
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	env = new Env;
	bool th = vf::opt.thorough;
	Walker w;
	w.visit = visit;
	int bog = 0;
	auto go = [&](const std::vector<int> &alpha, int depth, int ncfg, int err) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = 0; i < ncfg; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.cfg.err = err;
				w.cfg.bog = bog;
				w.start_enabled = e;
				w.run();
			}
	};
	if (vf::opt.part == "hit") {
		struct {
			int err, filter;
			std::vector<int> add, alpha;
		} H[] = {
			{ERR_BDM70, 0, {},
			 {S_NOP, S_JT, S_IJ, S_CD, S_RM, S_AD, S_ADM, S_SCD, S_XB, S_PGE, S_PGM, S_PGR, S_PGX,
			  S_DPI, S_PS, S_OD}},
			{ERR_BDM64, 0, {S_BJT, S_BJN, S_BIJ, S_BIC, S_BCI, S_BRT},
			 {S_NOP, S_JT, S_JN, S_DJ, S_IJ, S_CD, S_CI, S_RM, S_XB, S_XE, S_TA, S_PS, S_FJM, S_CB}},
			{ERR_SKD022, 0, {S_VLD, S_VRD, S_VLE, S_VLI},
			 {S_NOP, S_JT, S_IJ, S_DJ, S_LT, S_CD, S_RM, S_VML, S_AD, S_SCD, S_MC, S_PGE, S_PGM, S_PGR,
			  S_DPI, S_PS}},
			{ERR_SKL014, 1, {S_DJX, S_CDX, S_DJI},
			 {S_NOP, S_JT, S_IJ, S_DJ, S_CD, S_RM, S_MC, S_MCD, S_SCD, S_JTD, S_DJD, S_CDD, S_PGE, S_PGM,
			  S_PGR, S_STOP, S_PS, S_LT}},
			{ERR_SKL014, 2, {S_DJX, S_CDX, S_DJI},
			 {S_NOP, S_JT, S_DJ, S_CD, S_RM, S_MC, S_PGE, S_PGR, S_STOP, S_JTD}},
			{ERR_SKL014, 3, {S_DJX, S_CDX, S_DJI},
			 {S_NOP, S_JT, S_DJ, S_CD, S_PGE, S_STOP, S_SCD}},
		};
		for (auto &h : H) {
			filter = h.filter;
			auto a = h.alpha;
			a.insert(a.end(), h.add.begin(), h.add.end());
			all = true;
			for (bog = 7; h.err == ERR_BDM70 && bog; bog--)
				go(a, th ? 4 : 3, 4, h.err);
			for (int v = 0; v < 2; v++) {
				all = v;
				go(all_steps(), th ? 3 : 2, 6, h.err);
				go(a, th ? 6 : v ? 5 : 4, th ? v ? 2 : 6 : v ? 1 : 3, h.err);
			}
		}
	} else {
		all = true;
		for (filter = 0; filter < 2; filter++) {
			go(all_steps(), 3, th ? 6 : filter ? 1 : 2, 0);
			for (auto &t : THEMES)
				go(*t.steps, th ? 5 : 4, 1, 0);
		}
	}
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
