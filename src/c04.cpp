// C04: IP reconstruction.  All sequences of IP packets over an address alphabet, in all legal compressions.
#include "hw.hpp"
using hw::E;
using hw::Ev;
typedef uint64_t u64;

/* Addresses that differ in exactly the parts that the compressions distinguish. */
static const std::vector<u64> ADDR = {0x401234, 0x405678, 0xffff800077771234, 0x800077771234, 0x77771234,
	0x7fff77771234, 0xffffffffffff5678, 0x0012345677771234, 0, 0xffff};

struct Item {
	int kind; /* 0: event, 1: indirect branch, 2: conditional branch */
	Ev e;
	u64 ip;
	bool sup;
	bool taken;
};
struct St {
	std::vector<uint8_t> tr;
	std::vector<Ev> ev;
	std::vector<Item> q;
	u64 last = 0;
	bool en = false;
};

static void pk(St &s, int type, u64 f0 = 0, u64 f1 = 0, u64 f2 = 0, u64 f3 = 0, u64 f4 = 0)
{
	ref::Pk k;
	k.type = type;
	u64 f[5] = {f0, f1, f2, f3, f4};
	memcpy(k.f, f, sizeof(f));
	auto b = ref::encode(k);
	s.tr.insert(s.tr.end(), b.begin(), b.end());
}
static int legal(u64 last, u64 a, int *o)
{
	int n = 0;
	if (!((last ^ a) >> 16))
		o[n++] = pt_ipc_update_16;
	if (!((last ^ a) >> 32))
		o[n++] = pt_ipc_update_32;
	if (!((last ^ a) >> 48))
		o[n++] = pt_ipc_update_48;
	if ((u64)((int64_t)(a << 16) >> 16) == a)
		o[n++] = pt_ipc_sext_48;
	o[n++] = pt_ipc_full;
	return n;
}
/* An IP packet with the address in the given compression. */
static void ip(St &s, int type, u64 a, int c)
{
	u64 v = a;
	if (c == pt_ipc_update_16)
		v &= 0xffff;
	else if (c == pt_ipc_update_32)
		v &= 0xffffffff;
	else if (c == pt_ipc_sext_48 || c == pt_ipc_update_48)
		v &= 0xffffffffffffull;
	pk(s, type, (u64)c, v);
	s.last = a;
}
static void ev(St &s, const Ev &e)
{
	s.ev.push_back(e);
	if (e.type != ptev_tip && e.type != ptev_tnt)
		s.q.push_back({0, e, 0, false, false});
}

/* One operation, in all its encodings. */
enum Op { O_TIP, O_TIPS, O_PTW, O_TSX, O_EXS, O_CFE, O_TRG, O_ASY, O_PGD, O_PGDS, O_ADS, O_ADI, O_PGE, O_PSB,
	  O_PSBU, O_OVF, O_OVD, O_TNT, NOP };
typedef std::function<void(St &)> K;
static int naddr, naddr2;

static void each(const St &s, int n, const std::function<void(u64, int)> &f)
{
	int o[6];
	for (int i = 0; i < n; i++) {
		int k = legal(s.last, ADDR[(size_t)i], o);
		for (int j = 0; j < k; j++)
			f(ADDR[(size_t)i], o[j]);
	}
}
static void op(const St &s0, int o, const K &k)
{
	auto two = [&](int t2, int n, std::function<void(St &, u64)> pre, std::function<void(St &, u64, u64)> post) {
		each(s0, naddr, [&](u64 a, int c) {
			St s = s0;
			pre(s, a);
			ip(s, ppt_fup, a, c);
			if (t2 == ppt_invalid) {
				post(s, a, 0);
				k(s);
				return;
			}
			each(s, n, [&](u64 b, int d) {
				St t = s;
				ip(t, t2, b, d);
				post(t, a, b);
				k(t);
			});
		});
	};
	auto no = [](St &, u64) {};
	switch (o) {
	case O_TIP:
		if (s0.en)
			each(s0, naddr, [&](u64 a, int c) {
				St s = s0;
				ip(s, ppt_tip, a, c);
				s.q.push_back({1, Ev(), a, false, false});
				ev(s, E(ptev_tip, false, a));
				k(s);
			});
		break;
	case O_TIPS:
		if (s0.en) {
			St s = s0;
			pk(s, ppt_tip, pt_ipc_suppressed, 0);
			s.q.push_back({1, Ev(), 0, true, false});
			ev(s, E(ptev_tip, true));
			k(s);
		}
		break;
	case O_TNT:
		if (s0.en) {
			St s = s0;
			pk(s, ppt_tnt_8, 2, 2);
			s.q.push_back({2, Ev(), 0, false, true});
			s.q.push_back({2, Ev(), 0, false, false});
			ev(s, E(ptev_tnt, false, 2, 2));
			k(s);
		}
		break;
	case O_PTW:
		if (s0.en)
			two(ppt_invalid, 0, [](St &s, u64) { pk(s, ppt_ptw, 0x1122, 0, 1); },
			    [](St &s, u64 a, u64) { ev(s, E(ptev_ptwrite, false, a, 4, 0x1122)); });
		break;
	case O_TSX:
		if (s0.en)
			two(ppt_invalid, 0, [](St &s, u64) { pk(s, ppt_mode, 1, 1, 0); },
			    [](St &s, u64 a, u64) { ev(s, E(ptev_tsx, false, a, 1, 0)); });
		break;
	case O_EXS:
		if (s0.en)
			two(ppt_invalid, 0, [](St &s, u64) { pk(s, ppt_mwait, 3, 1); pk(s, ppt_exstop, 1); },
			    [](St &s, u64 a, u64) {
				    ev(s, E(ptev_mwait, false, a, 3, 1));
				    ev(s, E(ptev_exstop, false, a));
			    });
		break;
	case O_CFE:
		if (s0.en)
			two(ppt_invalid, 0, [](St &s, u64) { pk(s, ppt_cfe, pt_cfe_iret, 0, 1); },
			    [](St &s, u64 a, u64) { ev(s, E(ptev_iret, false, a)); });
		break;
	case O_TRG:
		if (s0.en)
			two(ppt_invalid, 0, [](St &s, u64) { pk(s, ppt_trig, 1, 1, 0, 3, 0); },
			    [](St &s, u64 a, u64) { ev(s, E(ptev_trig, false, a, 3, 0, 0)); });
		break;
	case O_ASY: {
		if (!s0.en)
			break;
		two(ppt_tip, naddr2, no, [](St &s, u64 a, u64 b) { ev(s, E(ptev_async_branch, false, a, b)); });
		break;
	}
	case O_PGD:
		if (s0.en)
			each(s0, naddr, [&](u64 a, int c) {
				St s = s0;
				ip(s, ppt_tip_pgd, a, c);
				s.en = false;
				ev(s, E(ptev_disabled, false, a));
				k(s);
			});
		break;
	case O_PGDS:
		if (s0.en) {
			St s = s0;
			pk(s, ppt_tip_pgd, pt_ipc_suppressed, 0);
			s.en = false;
			ev(s, E(ptev_disabled, true));
			k(s);
		}
		break;
	case O_ADI:
		if (s0.en)
			two(ppt_tip_pgd, naddr2, no, [](St &s, u64 a, u64 b) {
				s.en = false;
				ev(s, E(ptev_async_disabled, false, a, b));
			});
		break;
	case O_ADS:
		if (s0.en)
			two(ppt_invalid, 0, no, [](St &s, u64 a, u64) {
				pk(s, ppt_tip_pgd, pt_ipc_suppressed, 0);
				s.en = false;
				ev(s, E(ptev_async_disabled, true, a));
			});
		break;
	case O_PGE:
		if (!s0.en)
			each(s0, naddr, [&](u64 a, int c) {
				St s = s0;
				ip(s, ppt_tip_pge, a, c);
				s.en = true;
				/* the first enabled event after a disable may resume: not looked at here */
				ev(s, E(ptev_enabled, false, a));
				k(s);
			});
		break;
	case O_PSB: {
		St s = s0;
		pk(s, ppt_psb);
		s.last = 0;
		if (!s.en) {
			pk(s, ppt_psbend);
			Ev e = E(ptev_disabled, true);
			e.su = true;
			ev(s, e);
			k(s);
			break;
		}
		each(s, naddr, [&](u64 a, int c) {
			St t = s;
			ip(t, ppt_fup, a, c);
			pk(t, ppt_psbend);
			Ev e = E(ptev_enabled, false, a);
			e.su = true;
			ev(t, e);
			k(t);
		});
		break;
	}
	case O_OVF: {
		St s = s0;
		pk(s, ppt_ovf);
		s.last = 0;
		each(s, naddr, [&](u64 a, int c) {
			St t = s;
			ip(t, ppt_fup, a, c);
			t.en = true;
			ev(t, E(ptev_overflow, false, a));
			k(t);
		});
		break;
	}
	case O_OVD: {
		St s = s0;
		pk(s, ppt_ovf);
		pk(s, ppt_mode, 1, 0, 0); /* not a FUP */
		s.last = 0;
		s.en = false;
		ev(s, E(ptev_overflow, true));
		ev(s, E(ptev_tsx, true, 0, 0, 0));
		k(s);
		break;
	}
	default:
		break;
	}
}

static void check(const St &s)
{
	vf::count("evaluations");
	vf::curhex("trace", s.tr.data(), s.tr.size());
	struct pt_config c;
	pt_config_init(&c);
	c.begin = const_cast<uint8_t *>(s.tr.data());
	c.end = c.begin + s.tr.size();
	auto str = [&](const std::vector<Ev> &v) {
		std::string r;
		for (auto &e : v)
			r += e.str() + " ";
		return r;
	};
	{
		struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
		std::vector<Ev> got;
		int st = pt_evt_sync_forward(d);
		while (st >= 0 && got.size() < 100) {
			struct pt_event e;
			memset(&e, 0x5a, sizeof(e));
			st = pt_evt_next(d, &e, sizeof(e));
			if (st >= 0) {
				got.push_back(hw::flat(e));
				if (e.type == ptev_enabled)
					got.back().a[1] = 0;
			}
		}
		pt_evt_free_decoder(d);
		if (st != -pte_eos || got != s.ev)
			vf::viol("event", vf::fmt("event decoder: %s\n  got: ", vf::ename(st)) + str(got) + "\n  exp: " + str(s.ev) +
				 "\n  trace: " + vf::hex(s.tr));
		uint64_t h = 0;
		for (auto &e : got)
			h = vf::fnv(e.a, sizeof(e.a), h + (uint64_t)e.type);
		vf::distinct(h);
	}
	struct pt_query_decoder *d = pt_qry_alloc_decoder(&c);
	uint64_t ip0 = 0;
	int st = pt_qry_sync_forward(d, &ip0);
	std::string w;
	size_t k = 0;
	for (; k < s.q.size() && w.empty(); k++) {
		auto &q = s.q[k];
		if (st < 0) {
			w = vf::fmt("#%zu: %s", k, vf::ename(st));
			break;
		}
		if (q.kind == 0) {
			struct pt_event e;
			memset(&e, 0x5a, sizeof(e));
			if (!(st & pts_event_pending)) {
				w = vf::fmt("#%zu: status %x, expected ", k, st) + q.e.str();
				break;
			}
			st = pt_qry_event(d, &e, sizeof(e));
			if (st < 0) {
				w = vf::fmt("#%zu: %s, expected ", k, vf::ename(st)) + q.e.str();
				break;
			}
			Ev g = hw::flat(e);
			if (e.type == ptev_enabled)
				g.a[1] = 0;
			if (!(g == q.e))
				w = vf::fmt("#%zu: ", k) + g.str() + ", expected " + q.e.str();
		} else if (q.kind == 1) {
			uint64_t a = 0x1111;
			st = pt_qry_indirect_branch(d, &a);
			if (st < 0)
				w = vf::fmt("#%zu: %s, expected a branch", k, vf::ename(st));
			else if (!!(st & pts_ip_suppressed) != q.sup || (!q.sup && a != q.ip))
				w = vf::fmt("#%zu: target %llx (status %x), expected %llx%s", k, (unsigned long long)a, st,
					    (unsigned long long)q.ip, q.sup ? " suppressed" : "");
		} else {
			int t = -1;
			st = pt_qry_cond_branch(d, &t);
			if (st < 0 || t != (int)q.taken)
				w = vf::fmt("#%zu: outcome %d (%d)", k, t, st);
		}
	}
	pt_qry_free_decoder(d);
	if (w.size())
		vf::viol("query", "query decoder: " + w + "\n  events: " + str(s.ev) + "\n  trace: " + vf::hex(s.tr));
}

static int depth;
static std::vector<int> alpha;
static uint64_t unit, nodes;
static void rec(const St &s, int d)
{
	if (vf::late())
		return;
	for (int o : alpha) {
		op(s, o, [&](St &t) {
			if (d == 1 || depth == 1)
				if (!vf::mine(unit++))
					return;
			nodes++;
			check(t);
			if (d + 1 < depth)
				rec(t, d + 1);
		});
	}
}
/* Start: every kind of PSB+. */
static void run(std::vector<int> a, int dep, int na, int na2)
{
	alpha = a;
	depth = dep;
	naddr = na;
	naddr2 = na2;
	for (int e = 0; e < 2; e++) {
		St s;
		s.en = e;
		int o = naddr;
		naddr = e ? 2 : 1;
		op(s, O_PSB, [&](St &t) {
			naddr = o;
			rec(t, 0);
			naddr = e ? 2 : 1;
		});
		naddr = o;
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	bool th = vf::opt.thorough;
	std::vector<int> full, core = {O_TIP, O_TIPS, O_PTW, O_ASY, O_PGD, O_PGDS, O_ADS, O_PGE, O_PSB, O_OVF, O_OVD};
	for (int i = 0; i < NOP; i++)
		full.push_back(i);
	run(full, 2, 10, 10);
	run(full, 3, th ? 6 : 3, th ? 2 : 1);
	run({O_TIP, O_TIPS, O_PGD, O_PGDS, O_PGE, O_PSB, O_OVF, O_OVD}, 4, th ? 6 : 4, 2);
	if (th) {
		run(full, 3, 10, 3);
		run(core, 4, 5, 2);
	}
	vf::count("states", nodes);
	vf::count("transitions", nodes);
	return vf::finish();
}
