// C05/C07/C08: the decoders reproduce what the processor did.
#include "hwrun.hpp"
using namespace hw;

static Env *env;

static void visit(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	vf::cur(steps_str(path) + " | " + m.trace());
	vf::count("evaluations");
	Flow exp = truth(m);
	env->load(m);
	struct pt_config c;
	config(&c, m.tr);
	c.flags.variant.insn.enable_iflags_events = m.c.iflags;
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	pt_insn_set_image(d, env->image);
	std::string why;
	Flow got = insn_flow(d, pt_insn_sync_forward(d), &why);
	pt_insn_free_decoder(d);
	vf::distinct(vf::fnv(exp.str().data(), exp.str().size()));
	if (!(got == exp) || why.size())
		vf::viol("insn", steps_str(path) + "\n  " + why + diff(got, exp) + "\n  trace: " + m.trace());
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	env = new Env;
	Walker w;
	w.visit = visit;
	bool th = vf::opt.thorough;
	auto go = [&](const std::vector<int> &alpha, int depth, int ncfg, int c0 = 0) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = c0; i < ncfg; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.start_enabled = e;
				w.run();
			}
	};
	go(all_steps(), 3, 6);
	/* long branches */
	go(T_BRANCH, th ? 4 : 3, 8, 6);
	go(T_ENABLE, th ? 4 : 3, 8, 6);
	for (auto &t : THEMES)
		go(*t.steps, th ? 5 : 4, 6);
	if (th)
		go(all_steps(), 4, 3);
	deep(w, th ? 3 : 2, th ? 6 : 3);
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
