// C08: the blocks concatenate to the instruction flow.
//
// Part "flow": for every execution of the processor model, the blocks are those of the machine, with
// every combination of end-on-call and end-on-jump.
// Part "cut": for every truncation of those traces, blocks and instructions agree up to the same end.
#include "hwrun.hpp"
using namespace hw;

static Env *env;
static bool cut;
static int flags_mask = 15;

static void setup(struct pt_config *c, const std::vector<uint8_t> &tr, const Machine &m, int fl)
{
	config(c, tr);
	c->flags.variant.block.enable_iflags_events = m.c.iflags;
	c->flags.variant.block.end_on_call = fl & 1;
	c->flags.variant.block.end_on_jump = fl >> 1;
}
static std::string ends(const std::vector<struct pt_block> &bs, const Flow &f, int fl)
{
	(void)f;
	for (auto &b : bs) {
		if (b.ninsn < 1)
			return "an empty block";
		(void)fl;
	}
	return "";
}
static Flow blocks(const std::vector<uint8_t> &tr, const Machine &m, int fl, std::string *why)
{
	struct pt_config c;
	setup(&c, tr, m, fl);
	struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
	pt_blk_set_image(d, env->image);
	std::vector<struct pt_block> bs;
	Flow got = blk_flow(d, pt_blk_sync_forward(d), m, why, &bs);
	pt_blk_free_decoder(d);
	*why += isids(got, env) + ends(bs, got, fl);
	/* calls and jumps end blocks */
	size_t k = 0;
	for (auto &b : bs) {
		for (int i = 0; i < b.ninsn; i++) {
			while (k < got.t.size() && got.t[k].isev)
				k++;
			if (k >= got.t.size())
				return got;
			int cls = got.t[k++].i.cls;
			if (i + 1 < b.ninsn && (((fl & 1) && cls == ptic_call) || ((fl & 2) && cls == ptic_jump)))
				*why += vf::fmt("the block at %llx continues after a %s  ", (unsigned long long)b.ip,
						cls == ptic_call ? "call" : "jump");
		}
	}
	return got;
}
static Flow insns(const std::vector<uint8_t> &tr, const Machine &m, std::string *why)
{
	struct pt_config c;
	config(&c, tr);
	c.flags.variant.insn.enable_iflags_events = m.c.iflags;
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	pt_insn_set_image(d, env->image);
	Flow f = insn_flow(d, pt_insn_sync_forward(d), why);
	pt_insn_free_decoder(d);
	*why += isids(f, env);
	return f;
}

static void visit(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	vf::cur(steps_str(path) + " | " + m.trace());
	env->load(m);
	if (!cut) {
		Flow exp = truth(m);
		vf::distinct(vf::fnv(exp.str().data(), exp.str().size()));
		for (int fl = 0; fl < 4; fl++) {
			if (!(flags_mask >> fl & 1))
				continue;
			vf::count("evaluations");
			std::string why;
			Flow got = blocks(m.tr, m, fl, &why);
			if (!(got == exp) || why.size())
				vf::viol("block", steps_str(path) + vf::fmt(" flags %d\n  ", fl) + why +
					 diff(got, exp) + "\n  trace: " + m.trace());
		}
		return;
	}
	for (size_t n = m0.tr.size() > 24 ? 16 : 0; n < m.tr.size(); n++) {
		std::vector<uint8_t> t(m.tr.begin(), m.tr.begin() + n);
		std::string why;
		vf::count("evaluations");
		Flow a = insns(t, m, &why);
		Flow e = blocks(t, m, 0, &why);
		std::string s = a.str();
		vf::distinct(vf::fnv(s.data(), s.size()));
		if (!(a == e) || why.size())
			vf::viol("cut", steps_str(path) + vf::fmt(" cut at %zu\n  ", n) + why + diff(e, a) +
				 "\n  trace: " + m.trace());
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	cut = vf::opt.part == "cut";
	bool th = vf::opt.thorough;
	env = new Env(true);
	Walker w;
	w.visit = visit;
	auto go = [&](const std::vector<int> &alpha, int depth, int ncfg, int c0 = 0) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = c0; i < ncfg; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.start_enabled = e;
				w.run();
			}
	};
	if (cut) {
		go(all_steps(), th ? 3 : 2, 6);
		for (auto &t : THEMES)
			go(*t.steps, th ? 4 : 3, 6);
	} else {
		go(all_steps(), 3, 6);
		/* long branches */
		go(T_BRANCH, th ? 4 : 3, 8, 6);
		go(T_ENABLE, th ? 4 : 3, 8, 6);
		flags_mask = th ? 9 : 1;
		for (auto &t : THEMES)
			go(*t.steps, th ? 5 : 4, th ? 6 : 2);
		if (th)
			go(all_steps(), 4, 2);
		deep(w, th ? 3 : 2, th ? 6 : 3);
	}
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
