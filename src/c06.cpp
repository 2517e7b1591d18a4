// C06: queries replay the branch outcomes and events in program order.
#include "hwrun.hpp"
using namespace hw;

static bool wrongq;
static void visit(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	vf::cur(steps_str(path) + " | " + m.trace());
	for (int w = 0; w <= (wrongq ? 1 : 0); w++) {
		vf::count("evaluations");
		struct pt_config c;
		config(&c, m.tr);
		c.flags.variant.query.enable_iflags_events = m.c.iflags;
		struct pt_query_decoder *d = pt_qry_alloc_decoder(&c);
		uint64_t ip = 0;
		int st = pt_qry_sync_forward(d, &ip);
		QReplay q{d, m, w == 1};
		std::string why;
		bool en = m.marks[0].en;
		if (st < 0)
			why = vf::fmt("sync: %s", vf::ename(st));
		else if (!(st & pts_ip_suppressed) != en)
			why = vf::fmt("sync status %x, tracing is %s", st, en ? "enabled" : "disabled");
		else if (en && ip != m.start)
			why = vf::fmt("start at %llx instead of %llx", (unsigned long long)ip,
				      (unsigned long long)m.start);
		if (why.empty())
			why = q.run(st, 0, 0, 0);
		pt_qry_free_decoder(d);
		vf::count("queries", q.queries);
		vf::count("refused_queries", q.refused);
		vf::distinct(vf::fnv(q.log.data(), q.log.size()));
		if (why.size())
			vf::viol(w ? "wrong-query" : "query", steps_str(path) + "\n  " + why +
				 "\n  trace: " + m.trace());
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	bool th = vf::opt.thorough;
	Walker w;
	w.visit = visit;
	auto go = [&](const std::vector<int> &alpha, int depth, int ncfg) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = 0; i < ncfg; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.start_enabled = e;
				w.run();
			}
	};
	wrongq = true;
	go(all_steps(), 3, 6);
	for (auto &t : THEMES)
		go(*t.steps, th ? 5 : 4, 6);
	if (th)
		go(all_steps(), 4, 3);
	deep(w, th ? 3 : 2, th ? 6 : 3);
	/* long runs of outcomes, around the capacities of the packets and of the decoder's cache */
	w.alpha = {S_JT, S_JN, S_IJ, S_CI, S_RM, S_CB, S_CBF, S_A, S_AD, S_PW, S_OF, S_PS};
	w.start_enabled = true;
	auto cs = cfgs();
	for (int i = 0; i < 6; i++)
		for (int n = 4; n <= 140; n += n < 66 ? 1 : 7)
			for (int pat = 0; pat < 4; pat++) {
				w.cfg = cs[(size_t)i];
				w.depth = th ? 3 : 2;
				w.prefix.clear();
				for (int k = 0; k < n; k++) {
					bool t = pat == 0 ? true : pat == 1 ? false : (k * 7 / 3) & 1;
					if (pat == 3 && k == n / 2)
						w.prefix.push_back(S_IJ);
					w.prefix.push_back(t ? S_JT : S_JN);
				}
				w.run();
			}
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
