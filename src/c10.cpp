// C10: decoding from any PSB+ gives the tail of the full decode, whatever the decoder did before.
#include "hwrun.hpp"
using namespace hw;

static Env *env;

/* What a decode from that PSB+ must give. */
static Machine tail(const Machine &m, const Machine::Mark &k)
{
	Machine t = m;
	int uses = 0;
	for (size_t i = 0; i < k.ins && i < m.ins.size(); i++)
		uses += m.ins[i].use != 0;
	t.evl.erase(t.evl.begin(), t.evl.begin() + (long)k.evl);
	t.ins.erase(t.ins.begin(), t.ins.begin() + (long)std::min(k.ins, t.ins.size()));
	t.fev.erase(t.fev.begin(), t.fev.begin() + (long)k.fev);
	for (auto &f : t.fev) {
		f.pos = std::max(0, f.pos - (int)k.ins);
		f.nu = std::max(0, f.nu - uses);
	}
	return t;
}
/* Without tracing at the PSB+, a decoder that starts there is told the mode again later, and does not know
 * where tracing stopped.
 */
static void mask(std::vector<Ev> &v)
{
	std::vector<Ev> r;
	bool first = true;
	for (auto &e : v) {
		if ((e.type == ptev_exec_mode || e.type == ptev_iflags) && !e.su)
			continue;
		r.push_back(e);
		if (e.type == ptev_enabled && !e.su && first) {
			r.back().a[1] = 0;
			first = false;
		}
	}
	v = r;
}
static void mask(Flow &f)
{
	std::vector<Tok> r;
	bool first = true;
	for (auto &t : f.t) {
		if (t.isev && (t.e.type == ptev_exec_mode || t.e.type == ptev_iflags) && !t.e.su)
			continue;
		r.push_back(t);
		if (t.isev && t.e.type == ptev_enabled && !t.e.su && first) {
			r.back().e.a[1] = 0;
			first = false;
		}
	}
	f.t = r;
}

static void visit(const Machine &m0, const std::vector<int> &path)
{
	if (m0.marks.size() < 2)
		return;
	Machine m = m0;
	if (!m.end())
		return;
	vf::cur(steps_str(path) + " | " + m.trace());
	env->load(m);
	struct pt_config c;
	config(&c, m.tr);
	c.flags.variant.insn.enable_iflags_events = m.c.iflags;
	struct pt_config cb = c, ce = c, cq = c;
	memset(&cb.flags, 0, sizeof(cb.flags));
	memset(&ce.flags, 0, sizeof(ce.flags));
	memset(&cq.flags, 0, sizeof(cq.flags));
	cb.flags.variant.block.enable_iflags_events = m.c.iflags;
	ce.flags.variant.event.enable_iflags_events = m.c.iflags;
	cq.flags.variant.query.enable_iflags_events = m.c.iflags;
	struct pt_insn_decoder *id = pt_insn_alloc_decoder(&c);
	struct pt_block_decoder *bd = pt_blk_alloc_decoder(&cb);
	struct pt_event_decoder *ed = pt_evt_alloc_decoder(&ce);
	struct pt_query_decoder *qd = pt_qry_alloc_decoder(&cq);
	pt_insn_set_image(id, env->image);
	pt_blk_set_image(bd, env->image);
	static const int PRE[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000};
	for (size_t ki = 0; ki < m.marks.size(); ki++) {
		auto &k = m.marks[ki];
		if (k.nomode || (!k.en && k.intx))
			continue;
		Machine t = tail(m, k);
		Flow exp = truth(t);
		bool msk = !k.en;
		if (msk) {
			mask(exp);
			mask(t.evl);
		}
		std::string es = exp.str();
		vf::distinct(vf::fnv(es.data(), es.size()));
		Flow fi, fb;
		std::vector<Ev> fe;
		for (int pre : PRE) {
			vf::count("evaluations");
			auto name = [&](const char *d) {
				return steps_str(path) + vf::fmt("\n  %s decoder at PSB %zu (offset %zu), after decoding "
								 "%d items from the start: ", d, ki, k.off, pre);
			};
			auto tr = [&] { return "\n  trace: " + m.trace(); };
			/* disturb */
			int old = MAXTOK;
			std::string w;
			int st;
			MAXTOK = pre;
			if (pre) {
				insn_flow(id, pt_insn_sync_set(id, m.marks[0].off), &w);
				blk_flow(bd, pt_blk_sync_set(bd, m.marks[0].off), m, &w);
				int e;
				st = pt_evt_sync_set(ed, m.marks[0].off);
				evt_events(ed, st, &e);
				uint64_t ip;
				st = pt_qry_sync_set(qd, &ip, m.marks[0].off);
				for (int i = 0; i < pre && i < 50 && st >= 0; i++) {
					struct pt_event x;
					int tk;
					if (st & pts_event_pending)
						st = pt_qry_event(qd, &x, sizeof(x));
					else if (pt_qry_cond_branch(qd, &tk) < 0)
						st = pt_qry_indirect_branch(qd, &ip);
				}
			}
			MAXTOK = old;
			w.clear();
			/* an unused decoder's result, unmasked, is everyone's */
			Flow got = insn_flow(id, pt_insn_sync_set(id, k.off), &w);
			if (!pre)
				fi = got;
			else if (!(got == fi))
				vf::viol("insn", name("insn") + "unlike an unused decoder: " + diff(got, fi) + tr());
			if (msk)
				mask(got);
			if (!(got == exp) || w.size())
				vf::viol("insn", name("insn") + w + diff(got, exp) + tr());
			w.clear();
			got = blk_flow(bd, pt_blk_sync_set(bd, k.off), m, &w);
			if (!pre)
				fb = got;
			else if (!(got == fb))
				vf::viol("block", name("block") + "unlike an unused decoder: " + diff(got, fb) + tr());
			if (msk)
				mask(got);
			if (!(got == exp) || w.size())
				vf::viol("block", name("block") + w + diff(got, exp) + tr());
			int end;
			auto ev = evt_events(ed, pt_evt_sync_set(ed, k.off), &end);
			if (!pre)
				fe = ev;
			else if (ev != fe)
				vf::viol("event", name("event") + "unlike an unused decoder: " + evdiff(ev, fe) + tr());
			if (msk)
				mask(ev);
			if (ev != t.evl || end != -pte_eos)
				vf::viol("event", name("event") + vf::ename(end) + evdiff(ev, t.evl) + tr());
			if (msk && k.told)
				continue;
			uint64_t ip = 0;
			st = pt_qry_sync_set(qd, &ip, k.off);
			if (st < 0 || !(st & pts_ip_suppressed) != k.en)
				vf::viol("query", name("query") + vf::fmt("sync status %d", st) + tr());
			else {
				QReplay q{qd, t, pre == 1};
				std::string s = q.run(st, 0, 0, 0);
				if (s.size())
					vf::viol("query", name("query") + s + tr());
			}
		}
	}
	pt_insn_free_decoder(id);
	pt_blk_free_decoder(bd);
	pt_evt_free_decoder(ed);
	pt_qry_free_decoder(qd);
}

/* A bare PSB+, behind the trace: what decoders find there depends on nothing that came before it.  It does not
 * name an address space, or the time, and, in the second variant, not even an execution mode.
 */
static const u64 BARE = 0xe000;
static struct pt_image *bimage;
static void bare(const Machine &m0, const std::vector<int> &path)
{
	static const std::vector<uint8_t> CODE = {0x75, 0x00, 0x90, 0xff, 0xe0};
	if (!bimage) {
		int fd = memfd_create("bare", 0);
		if (fd < 0 || write(fd, CODE.data(), CODE.size()) != (ssize_t)CODE.size())
			exit(3);
		bimage = pt_image_alloc(0);
		struct pt_asid a;
		pt_asid_init(&a);
		a.cr3 = CR3A;
		a.vmcs = 0x8456000;
		if (pt_image_copy(bimage, env->image) ||
		    pt_image_add_file(bimage, vf::fmt("/proc/self/fd/%d", fd).c_str(), 0, CODE.size(), &a, BARE))
			exit(3);
	}
	static const std::vector<uint8_t> TAIL[] = {
		{2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82,
		 0x99, 1, 0x7d, 0, 0xe0, 0, 0, 0, 0, 2, 0x23,
		 6, 0x61, 0, 0xf0, 0, 0, 0, 0, 2, 3, 9, 0},
		{2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82,
		 2, 0x23, 2, 3, 9, 0, 0x31, 0, 0xe0, 6, 0x61, 0, 0xf0, 0, 0, 0, 0},
	};
	Machine m = m0;
	if (m.marks.empty() || !m.end())
		return;
	for (int o : {0, 2, 3}) {
		Code k = {BARE + (u64)o, (uint8_t)(o == 2 ? 1 : 2), (uint8_t)M64, {}};
		memcpy(k.b, &CODE[o], k.len);
		m.code.push_back(k);
	}
	vf::cur("bare " + steps_str(path) + " | " + m.trace());
	size_t off = m.tr.size();
	env->load(m);
	for (auto &tl : TAIL) {
		m.tr.resize(off);
		m.tr.insert(m.tr.end(), tl.begin(), tl.end());
		struct pt_config ci;
		config(&ci, m.tr);
		struct pt_config cb = ci, ce = ci, cq = ci;
		memset(&cb.flags, 0, sizeof(cb.flags));
		memset(&ce.flags, 0, sizeof(ce.flags));
		memset(&cq.flags, 0, sizeof(cq.flags));
		struct pt_insn_decoder *id = pt_insn_alloc_decoder(&ci);
		struct pt_block_decoder *bd = pt_blk_alloc_decoder(&cb);
		struct pt_event_decoder *ed = pt_evt_alloc_decoder(&ce);
		struct pt_query_decoder *qd = pt_qry_alloc_decoder(&cq);
		pt_insn_set_image(id, bimage);
		pt_blk_set_image(bd, bimage);
		std::string first[4];
		for (int pre : {0, 1, 2, 3, 4, 5, 6, 8, 11}) {
			vf::count("evaluations");
			int old = MAXTOK, e;
			std::string w;
			uint64_t ip;
			if (pre) {
				MAXTOK = pre;
				insn_flow(id, pt_insn_sync_set(id, m.marks[0].off), &w);
				blk_flow(bd, pt_blk_sync_set(bd, m.marks[0].off), m, &w);
				evt_events(ed, pt_evt_sync_set(ed, m.marks[0].off), &e);
				int st = pt_qry_sync_set(qd, &ip, m.marks[0].off);
				for (int i = 0; i < pre && st >= 0; i++) {
					struct pt_event x;
					int tk;
					if (st & pts_event_pending)
						st = pt_qry_event(qd, &x, sizeof(x));
					else if (pt_qry_cond_branch(qd, &tk) < 0)
						st = pt_qry_indirect_branch(qd, &ip);
				}
			}
			MAXTOK = 50;
			std::string got[4];
			auto time = [&](std::string &s, auto tf, auto rf, auto *d) {
				uint64_t t = 0;
				uint32_t lm = 0, lc = 0, r = 0;
				int a = tf(d, &t, &lm, &lc), b = rf(d, &r);
				s += vf::fmt(" time %d %llx %u %u ratio %d %u; ", a, a < 0 ? 0ull : (unsigned long long)t,
					     lm, lc, b, b < 0 ? 0 : r);
			};
			auto asid = [&](std::string &s, auto f, auto *d) {
				struct pt_asid a;
				pt_asid_init(&a);
				int r = f(d, &a, sizeof(a));
				s += vf::fmt("asid %d %llx %llx; ", r, (unsigned long long)a.cr3,
					     (unsigned long long)a.vmcs);
			};
			for (int round = 0; round < 2; round++) {
				w.clear();
				int st = pt_insn_sync_set(id, off);
				time(got[0], pt_insn_time, pt_insn_core_bus_ratio, id);
				asid(got[0], pt_insn_asid, id);
				got[0] += insn_flow(id, st, &w).str() + w;
				time(got[0], pt_insn_time, pt_insn_core_bus_ratio, id);
				w.clear();
				st = pt_blk_sync_set(bd, off);
				time(got[1], pt_blk_time, pt_blk_core_bus_ratio, bd);
				asid(got[1], pt_blk_asid, bd);
				got[1] += blk_flow(bd, st, m, &w).str() + w;
				time(got[1], pt_blk_time, pt_blk_core_bus_ratio, bd);
			}
			int st = pt_evt_sync_set(ed, off);
			while (st >= 0) {
				struct pt_event x;
				memset(&x, 0, sizeof(x));
				st = pt_evt_next(ed, &x, sizeof(x));
				if (st >= 0)
					got[2] += flat(x).str() + vf::fmt(" tsc %d %llx %u %u; ", x.has_tsc,
									  (unsigned long long)x.tsc, x.lost_mtc,
									  x.lost_cyc);
			}
			got[2] += vf::fmt("%d", st);
			st = pt_qry_sync_set(qd, &ip, off);
			got[3] = vf::fmt("%d %llx ", st, st < 0 || (st & pts_ip_suppressed) ? 0ull :
					 (unsigned long long)ip);
			time(got[3], pt_qry_time, pt_qry_core_bus_ratio, qd);
			for (int i = 0; i < 20 && st >= 0; i++) {
				struct pt_event x;
				int tk = -1;
				if (st & pts_event_pending) {
					memset(&x, 0, sizeof(x));
					st = pt_qry_event(qd, &x, sizeof(x));
					got[3] += flat(x).str();
				} else {
					st = pt_qry_cond_branch(qd, &tk);
					got[3] += vf::fmt("tnt %d", tk);
				}
				got[3] += vf::fmt(" %d; ", st);
			}
			time(got[3], pt_qry_time, pt_qry_core_bus_ratio, qd);
			MAXTOK = old;
			static const char *const NM[] = {"insn", "block", "event", "query"};
			for (int d = 0; d < 4; d++) {
				if (!pre)
					first[d] = got[d];
				else if (got[d] != first[d])
					vf::viol(vf::fmt("bare-%s", NM[d]).c_str(),
						 steps_str(path) + vf::fmt("\n  %s decoder at a bare PSB+ at offset %zu, "
									   "after decoding %d items from the start:\n"
									   "  got: ", NM[d], off, pre) + got[d] +
						 "\n  an unused decoder: " + first[d] + "\n  trace: " + m.trace());
			}
		}
		pt_insn_free_decoder(id);
		pt_blk_free_decoder(bd);
		pt_evt_free_decoder(ed);
		pt_qry_free_decoder(qd);
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	env = new Env;
	Walker w;
	w.visit = visit;
	bool th = vf::opt.thorough;
	auto go = [&](std::vector<int> alpha, int depth, int ncfg) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = 0; i < ncfg; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.start_enabled = e;
				w.run();
			}
	};
	go(all_steps(), 3, 6);
	for (auto &t : THEMES) {
		std::vector<int> a = *t.steps;
		if (std::find(a.begin(), a.end(), (int)S_PS) == a.end())
			a.push_back(S_PS);
		go(a, th ? 5 : 4, th ? 6 : 2);
	}
	if (th)
		go(all_steps(), 4, 2);
	w.visit = bare;
	go(all_steps(), th ? 3 : 2, 2);
	go(T_SYSTEM, th ? 4 : 3, 2);
	go(T_EVENT, th ? 4 : 3, 2);
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
