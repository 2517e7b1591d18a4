// C05: the event stream is the processor's event stream.
//
// Part "model": every execution of the processor model; the event decoder must report its events.
// Part "packets": every sequence, up to a depth, of single packets in the orders a processor may emit
// them, with every kind of event, binding and payload form; pending events are completed at the end.
// Part "header": PSB+ headers with every arrangement of their packets, ended by PSBEND or OVF.
#include "hwrun.hpp"
using namespace hw;

static void setup(struct pt_config *c, const Machine &m)
{
	config(c, m.tr);
	c->flags.variant.event.enable_iflags_events = m.c.iflags;
}
static bool run(const Machine &m, std::vector<Ev> &got, std::string &why)
{
	struct pt_config c;
	setup(&c, m);
	struct pt_event_decoder *d = pt_evt_alloc_decoder(&c);
	int st = pt_evt_sync_forward(d);
	uint64_t last = 0;
	while (st >= 0) {
		struct pt_event e;
		memset(&e, 0xa5, sizeof(e));
		st = pt_evt_next(d, &e, sizeof(e));
		if (st < 0)
			break;
		got.push_back(flat(e));
		uint64_t off = 0;
		int rc = pt_evt_get_offset(d, &off);
		if (rc < 0 || off < last || off > m.tr.size()) {
			why = vf::fmt("bad offset %llx after event %zu (%s)", (unsigned long long)off, got.size() - 1,
				      vf::ename(rc));
			break;
		}
		last = off;
		if (got.size() > (size_t)MAXTOK) {
			why = "does not end";
			break;
		}
	}
	pt_evt_free_decoder(d);
	if (why.empty() && st != -pte_eos)
		why = vf::fmt("ends with %s", vf::ename(st));
	return why.empty();
}
static void compare(const Machine &m, const std::string &name)
{
	vf::curhex(name.c_str(), m.tr.data(), m.tr.size());
	vf::count("evaluations");
	std::vector<Ev> got;
	std::string why;
	run(m, got, why);
	uint64_t h = 1469598103934665603ull;
	for (auto &e : m.evl) {
		h = vf::fnv(e.a, sizeof(e.a), h);
		h = h * 31 + (uint64_t)e.type * 4 + e.ips * 2 + e.su;
	}
	vf::distinct(h);
	if (got == m.evl && why.empty())
		return;
	size_t k = 0;
	while (k < got.size() && k < m.evl.size() && got[k] == m.evl[k])
		k++;
	vf::viol("event", name + "\n  " + why + vf::fmt(" differs at #%zu\n  got: ", k) + evs(got) +
		 "\n  exp: " + evs(m.evl) + "\n  trace: " + m.trace());
}
static void visit(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	compare(m, steps_str(path));
}

/* ---- single packets ---- */
struct Pend {
	Ev e;
	bool x;	 /* MODE.EXEC: may bind to a TIP as well */
	bool ign; /* nothing to report */
};
struct St {
	Machine m;
	std::vector<Pend> b; /* bind to the next FUP */
	std::vector<Ev> f;   /* bind to the FUP of an asynchronous branch */
	int evd = 0;	     /* 1: interrupt, 2: vmexit */
	Ev ee;
	bool mw = false;
	Ev me;
	bool async = false;
	u64 from = 0;
	std::vector<Ev> t; /* bind to the TIP of an asynchronous branch */
	bool pip = false, vmcs = false, mode = false;
	unsigned na = 0;
	bool ovf = false; /* waiting for the FUP of an overflow */

	bool clean() const { return b.empty() && f.empty() && !evd && !mw && !async; }
	bool onlyx() const
	{
		for (auto &p : b)
			if (!p.x)
				return false;
		return f.empty() && !evd && !mw && !async;
	}
	bool room() const { return b.size() + f.size() + t.size() < 8; }
	u64 addr()
	{
		static const u64 A[] = {0x401000, 0x401234, 0x7f1200401000, 0xffffffff81001000ull, 0x7f12fffff001,
					0xffff800000000000ull};
		return A[na++ % 6];
	}
	Ev ip(Ev e, u64 a)
	{
		switch (e.type) {
		case ptev_async_vmcs: e.a[1] = a; break;
		case ptev_async_paging: e.a[2] = a; break;
		default: e.a[0] = a; break;
		}
		return e;
	}
};
struct Atom {
	std::string name;
	std::function<bool(St &)> f;
};
static std::vector<Atom> atoms;
static void add(const char *n, std::function<bool(St &)> f) { atoms.push_back({n, f}); }

static bool fup(St &s)
{
	if (!s.m.en) {
		/* only for a trigger */
		if (s.b.empty())
			return false;
		for (auto &p : s.b)
			if (p.e.type != ptev_trig)
				return false;
	}
	if (s.evd || s.mw || s.async)
		return false;
	u64 a = s.addr();
	s.m.ippk(ppt_fup, a);
	for (auto &e : s.f)
		s.m.ev(e.type == ptev_rsm || e.type == ptev_sipi ? e : s.ip(e, a));
	for (auto &p : s.b)
		if (!p.ign)
			s.m.ev(s.ip(p.e, a));
	if (s.b.empty()) {
		s.async = true;
		s.from = a;
	}
	s.b.clear();
	s.f.clear();
	return true;
}
static bool tip(St &s)
{
	if (!s.m.en || s.mw || s.evd || s.f.size())
		return false;
	u64 a = s.addr();
	if (s.async) {
		s.m.ippk(ppt_tip, a);
		s.m.ev(E(ptev_async_branch, false, s.from, a));
		for (auto &e : s.t)
			s.m.ev(s.ip(e, a));
	} else {
		if (!s.onlyx())
			return false;
		s.m.ippk(ppt_tip, a);
		s.m.ev(E(ptev_tip, false, a));
		for (auto &p : s.b)
			if (!p.ign)
				s.m.ev(s.ip(p.e, a));
	}
	s.b.clear();
	s.t.clear();
	s.async = s.pip = s.vmcs = s.mode = false;
	return true;
}
static bool pgd(St &s, bool sup)
{
	if (!s.m.en || s.mw || s.evd || s.f.size())
		return false;
	if (!s.async && s.b.size())
		return false; /* MODE.EXEC with a synchronous disable: not modelled */
	u64 a = 0;
	if (sup)
		s.m.ipsup(ppt_tip_pgd);
	else
		s.m.ippk(ppt_tip_pgd, a = s.addr());
	if (s.async) {
		s.m.ev(E(ptev_async_disabled, sup, s.from, a));
		for (auto e : s.t) {
			e.ips = true;
			s.m.ev(e);
		}
	} else
		s.m.ev(E(ptev_disabled, sup, a));
	s.t.clear();
	s.async = s.pip = s.vmcs = s.mode = false;
	s.m.en = false;
	return true;
}
static bool cfe(St &s, int type, int vec, bool ip, const Ev &e, bool async)
{
	bool en = s.m.en;
	if (s.async || s.mw || !s.room())
		return false;
	if (!en && ip)
		return false;
	if (en && ip && s.f.size())
		return false;
	if (en && !ip && async && s.b.size())
		return false;
	s.m.pk(ppt_cfe, (u64)type, (u64)vec, ip);
	if (en && ip)
		s.b.push_back({e, false, false});
	else if (en && async) {
		s.f.push_back(e);
		if (e.type == ptev_rsm || e.type == ptev_sipi)
			s.f.back().ips = true;
	} else {
		Ev n = e;
		n.ips = true;
		s.m.ev(n);
	}
	s.evd = 0;
	return true;
}
static void build(bool th)
{
	static const struct {
		int cfe, ev, vec, ipok, async;
		const char *n;
	} K[] = {{pt_cfe_intr, ptev_interrupt, 14, 1, 1, "intr"}, {pt_cfe_iret, ptev_iret, 0, 1, 0, "iret"},
		 {pt_cfe_smi, ptev_smi, 0, 1, 1, "smi"}, {pt_cfe_rsm, ptev_rsm, 0, 0, 1, "rsm"},
		 {pt_cfe_sipi, ptev_sipi, 0x1f, 0, 1, "sipi"}, {pt_cfe_init, ptev_init, 0, 1, 1, "init"},
		 {pt_cfe_vmentry, ptev_vmentry, 0, 1, 0, "vmentry"},
		 {pt_cfe_vmexit, ptev_vmexit, 0, 1, 1, "vmexit"},
		 {pt_cfe_vmexit_intr, ptev_vmexit, 33, 1, 1, "vmexit_intr"},
		 {pt_cfe_shutdown, ptev_shutdown, 0, 1, 0, "shutdown"},
		 {pt_cfe_uintr, ptev_uintr, 5, 1, 1, "uintr"}, {pt_cfe_uiret, ptev_uiret, 0, 1, 0, "uiret"}};
	for (auto &k : K)
		for (int ip = 0; ip <= k.ipok; ip++)
			add((std::string("cfe-") + k.n + (ip ? "-ip" : "")).c_str(), [=](St &s) {
				Ev e = E(k.ev);
				if (s.evd) {
					if (e.type != s.ee.type)
						return false;
					e = s.ee;
				}
				if (k.cfe == pt_cfe_sipi)
					e.a[0] = (u64)k.vec;
				else if (k.ev == ptev_vmexit) {
					e.a[1] = k.vec != 0;
					e.a[4] = (u64)k.vec;
				} else
					e.a[1] = (u64)k.vec;
				return cfe(s, k.cfe, k.vec, ip, e, k.async);
			});
	/* a type that is not defined */
	for (int ip = 0; ip < 2; ip++)
		add(ip ? "cfe-15-ip" : "cfe-15", [=](St &s) {
			if (s.evd || s.mw || s.async || !s.room() || (ip && (!s.m.en || s.f.size())))
				return false;
			s.m.pk(ppt_cfe, 0x15, 3, ip);
			if (ip)
				s.b.push_back({Ev(), false, true});
			return true;
		});
	add("evd-cr2", [](St &s) {
		if (s.evd || s.mw || s.async)
			return false;
		s.m.pk(ppt_evd, pt_evd_cr2, 0xdead0000beefull);
		s.evd = 1;
		s.ee = E(ptev_interrupt, false, 0, 0, 1, 0xdead0000beefull);
		return true;
	});
	for (int r = 0; r < 2; r++)
		add(r ? "evd-vmxr" : "evd-vmxq", [=](St &s) {
			if (s.mw || s.async || s.evd == 1)
				return false;
			if (!s.evd)
				s.ee = E(ptev_vmexit);
			if (s.ee.a[r ? 2 : 3])
				return false;
			s.evd = 2;
			s.ee.a[r ? 2 : 3] = 1;
			s.ee.a[r ? 5 : 6] = r ? 0x30 : 0x123456789;
			s.m.pk(ppt_evd, r ? pt_evd_vmxr : pt_evd_vmxq, r ? 0x30 : 0x123456789);
			return true;
		});
	add("evd-unknown", [](St &s) {
		s.m.pk(ppt_evd, 0x2a, 0x77);
		return true;
	});
	for (int plc = 0; plc < 2; plc++)
		for (int ip = 0; ip < 2; ip++)
			add(vf::fmt("ptw%d%s", plc ? 8 : 4, ip ? "-ip" : "").c_str(), [=](St &s) {
				if (s.async || s.mw || s.evd || !s.room() || s.f.size() || (ip && !s.m.en))
					return false;
				u64 v = plc ? 0xfedcba9876543210ull : 0x89abcdefu;
				s.m.pk(ppt_ptw, v, (u64)plc, ip);
				Ev e = E(ptev_ptwrite, !ip, 0, plc ? 8 : 4, v);
				if (ip)
					s.b.push_back({e, false, false});
				else
					s.m.ev(e);
				return true;
			});
	add("mwait", [](St &s) {
		if (s.async || s.mw || s.evd || !s.room() || s.f.size())
			return false;
		s.m.pk(ppt_mwait, 0xe9, 3);
		s.mw = true;
		s.me = E(ptev_mwait, false, 0, 0xe9, 3);
		return true;
	});
	for (int ip = 0; ip < 2; ip++)
		add(ip ? "exstop-ip" : "exstop", [=](St &s) {
			if (s.async || s.evd || !s.room() || s.f.size() || (ip && !s.m.en))
				return false;
			s.m.pk(ppt_exstop, ip);
			Ev e = E(ptev_exstop);
			if (s.mw) {
				if (ip)
					s.b.push_back({s.me, false, false});
				else {
					s.me.ips = true;
					s.m.ev(s.me);
				}
				s.mw = false;
			}
			e.ips = !ip;
			if (ip)
				s.b.push_back({e, false, false});
			else
				s.m.ev(e);
			return true;
		});
	for (int v = 0; v < 2; v++) {
		add(v ? "pwre-hw" : "pwre", [=](St &s) {
			s.m.pk(ppt_pwre, v ? 13 : 2, v ? 6 : 11, v);
			s.m.ev(E(ptev_pwre, false, v ? 13 : 2, v ? 6 : 11, v));
			return true;
		});
	}
	for (int v = 0; v < 4; v++)
		add(vf::fmt("pwrx%d", v).c_str(), [=](St &s) {
			s.m.pk(ppt_pwrx, v == 2 ? 10 : 5, v == 2 ? 6 : 9, v == 1, v == 2, v == 3);
			s.m.ev(E(ptev_pwrx, false, v == 2 ? 10 : 5, v == 2 ? 6 : 9, v == 1, v == 2, v == 3));
			return true;
		});
	for (int v = 0; v < 3; v++)
		add(v == 2 ? "tsx-abort" : v ? "tsx-begin" : "tsx-commit", [=](St &s) {
			if (s.async || s.mw || s.evd || !s.room())
				return false;
			if (!s.m.en) {
				if (v == 2)
					return false;
				s.m.pk(ppt_mode, 1, v, 0);
				s.m.ev(E(ptev_tsx, true, 0, v, 0));
				return true;
			}
			if (v == 2 ? s.b.size() : s.f.size())
				return false;
			s.m.pk(ppt_mode, 1, v == 1, v == 2);
			Ev e = E(ptev_tsx, false, 0, v == 1, v == 2);
			if (v == 2)
				s.f.push_back(e);
			else
				s.b.push_back({e, false, false});
			return true;
		});
	for (int v = 0; v < 4; v++)
		add(vf::fmt("mode-exec%d", v).c_str(), [=](St &s) {
			if (s.mw || s.evd || !s.room() || (s.f.size()))
				return false;
			if (s.mode || (!s.async && s.b.size()))
				return false; /* at most one, and first */
			int md = v == 0 ? M64 : v == 1 ? M32 : v == 2 ? M16 : M64;
			bool iff = v != 3;
			s.m.mode_pk(md, iff);
			Ev e[2];
			int k = s.m.mode_ev(md, iff, e);
			if (s.async) {
				for (int i = 0; i < k; i++)
					s.t.push_back(e[i]);
				s.mode = true;
			} else {
				for (int i = 0; i < k; i++)
					s.b.push_back({e[i], true, false});
				if (!k)
					s.b.push_back({Ev(), true, true});
			}
			return true;
		});
	for (int nr = 0; nr < 2; nr++)
		add(nr ? "pip-nr" : "pip", [=](St &s) {
			if (s.mw || s.evd || s.f.size() || (!s.onlyx() && !s.async) || s.pip)
				return false;
			u64 cr3 = nr ? 0xfffffffffffe0ull : 0x1000;
			s.m.pk(ppt_pip, cr3, nr);
			if (!s.async) {
				s.m.ev(E(ptev_paging, false, cr3, nr));
				return true;
			}
			s.t.push_back(E(ptev_async_paging, false, cr3, nr));
			s.pip = true;
			return true;
		});
	add("vmcs", [](St &s) {
		if (s.mw || s.evd || s.f.size() || (!s.onlyx() && !s.async) || s.vmcs)
			return false;
		u64 base = 0xffffffffff000ull;
		s.m.pk(ppt_vmcs, base);
		if (!s.async) {
			s.m.ev(E(ptev_vmcs, false, base));
			return true;
		}
		Ev e = E(ptev_async_vmcs, false, base);
		s.vmcs = true;
		for (size_t i = 0; i < s.t.size(); i++)
			if (s.t[i].type == ptev_async_paging) {
				if (s.mode && i + 1 < s.t.size())
					return false; /* the order among the three is not defined */
				s.t.insert(s.t.begin() + (long)i, e);
				return true;
			}
		s.t.push_back(e);
		return true;
	});
	for (int v = 0; v < 4; v++)
		add(vf::fmt("trig%d", v).c_str(), [=](St &s) {
			/* 0: no ICNT, 1: ICNT 0, 2: ICNT, 3: IP */
			if (s.mw || s.evd || s.async || s.f.size() || !s.room())
				return false;
			if (v == 2 && !s.m.en)
				return false;
			s.m.pk(ppt_trig, v == 3, v >= 1, v & 1, 0x40 | (u64)v, v == 2 ? 0xfffe : 0);
			Ev e = E(ptev_trig, v == 0, 0, 0x40 | (u64)v, v & 1, v == 2 ? 0xfffe : 0);
			if (v == 3)
				s.b.push_back({e, false, false});
			else
				s.m.ev(e);
			return true;
		});
	auto tnt = [](const char *n, int type, int size, u64 bits) {
		add(n, [=](St &s) {
			if (!s.m.en || !s.clean())
				return false;
			s.m.pk(type, (u64)size, bits);
			s.m.ev(E(ptev_tnt, false, bits, (u64)size));
			return true;
		});
	};
	tnt("tnt1", ppt_tnt_8, 1, 1);
	tnt("tnt6", ppt_tnt_8, 6, 0x2a);
	tnt("tnt47", ppt_tnt_64, 47, 0x555555555555ull);
	add("fup", fup);
	add("tip", tip);
	add("pgd", [](St &s) { return pgd(s, false); });
	add("pgd-noip", [](St &s) { return pgd(s, true); });
	add("pge", [](St &s) {
		if (s.m.en || s.evd || s.mw || !s.onlyx())
			return false;
		u64 a = s.addr();
		s.m.ippk(ppt_tip_pge, a);
		s.m.ev(E(ptev_enabled, false, a));
		for (auto &p : s.b)
			if (!p.ign)
				s.m.ev(s.ip(p.e, a));
		s.b.clear();
		s.m.en = true;
		return true;
	});
	add("stop", [](St &s) {
		if (s.m.en || s.evd || s.mw)
			return false;
		s.m.pk(ppt_stop);
		s.m.ev(E(ptev_stop));
		return true;
	});
	add("psb", [](St &s) {
		if (!s.clean())
			return false;
		s.m.ip = s.addr();
		s.m.mode = s.m.dm_valid ? s.m.dm : M64;
		s.m.iflag = s.m.dm_valid ? s.m.dif : true;
		s.m.psb();
		return true;
	});
	for (int v = 0; v < 4; v++)
		add(v == 0 ? "ovf-fup" : v == 1 ? "ovf" : v == 2 ? "ovf-cbr-fup" : "ovf-tsc-mnt-fup", [=](St &s) {
			s.b.clear();
			s.f.clear();
			s.t.clear();
			s.evd = 0;
			s.mw = s.async = s.pip = s.vmcs = s.mode = false;
			s.m.pk(ppt_ovf);
			s.m.dm_valid = false;
			s.m.full_next = true;
			if (v == 1) {
				s.m.ev(E(ptev_overflow, true));
				s.m.en = false;
				return true;
			}
			if (v == 2) {
				s.m.pk(ppt_cbr, 5);
				s.m.ev(E(ptev_cbr, false, 5));
			}
			if (v == 3) {
				s.m.pk(ppt_tsc, 0x12345);
				s.m.pk(ppt_mnt, 7);
				s.m.ev(E(ptev_mnt, false, 7));
			}
			u64 a = s.addr();
			s.m.ippk(ppt_fup, a);
			s.m.ev(E(ptev_overflow, false, a));
			s.m.en = true;
			return true;
		});
	add("cbr", [](St &s) {
		s.m.pk(ppt_cbr, 0x11);
		s.m.ev(E(ptev_cbr, false, 0x11));
		return true;
	});
	add("mnt", [](St &s) {
		s.m.pk(ppt_mnt, 0xffffffffffffffffull);
		s.m.ev(E(ptev_mnt, false, 0xffffffffffffffffull));
		return true;
	});
	add("timing", [](St &s) {
		s.m.pk(ppt_tsc, 0x1000 + s.m.tr.size());
		s.m.pk(ppt_tma, 1, 2);
		s.m.pk(ppt_mtc, 3);
		s.m.pk(ppt_cyc, 0x123);
		s.m.pk(ppt_pad);
		return true;
	});
	(void)th;
}
static std::string names(const std::vector<int> &p)
{
	std::string s;
	for (int i : p)
		s += (s.empty() ? "" : " ") + atoms[(size_t)i].name;
	return s;
}
static int find(const char *n)
{
	for (size_t i = 0; i < atoms.size(); i++)
		if (atoms[i].name == n)
			return (int)i;
	exit(3);
}
static uint64_t unit, nodes, edges;
static void close(St s, const std::vector<int> &p)
{
	if (s.evd)
		cfe(s, s.evd == 1 ? pt_cfe_intr : pt_cfe_vmexit, s.evd == 1 ? 14 : 0, false,
		    [&] {
			    Ev e = s.ee;
			    if (s.evd == 1)
				    e.a[1] = 14;
			    return e;
		    }(), true);
	if (s.mw) {
		s.m.pk(ppt_exstop, 0);
		s.me.ips = true;
		s.m.ev(s.me);
		s.m.ev(E(ptev_exstop, true));
		s.mw = false;
	}
	/* MODE.EXEC while disabled completes at TIP.PGE */
	if (!s.m.en && s.b.size() && s.onlyx())
		atoms[(size_t)find("pge")].f(s);
	if (s.b.size() || s.f.size())
		if (!fup(s))
			return;
	if (s.async)
		tip(s);
	if (!s.clean())
		return;
	/* and something that must not be affected by what happened */
	if (s.m.en)
		tip(s);
	compare(s.m, names(p));
}
static void walk(const St &s, std::vector<int> &p, int depth, size_t base = 0)
{
	if (vf::late())
		return;
	nodes++;
	close(s, p);
	if ((int)(p.size() - base) >= depth)
		return;
	for (size_t i = 0; i < atoms.size(); i++) {
		if (p.size() - base == 1 && !vf::mine(unit++))
			continue;
		St c = s;
		if (!atoms[i].f(c))
			continue;
		edges++;
		p.push_back((int)i);
		walk(c, p, depth, base);
		p.pop_back();
	}
}

/* ---- PSB+ headers ---- */
enum { H_TSC, H_TMA, H_CBR, H_MODE, H_TSX, H_PIP, H_VMCS, H_MNT, H_MTC, H_CYC, H_PAD, H_FUP, H_N };
static const char *const HN[] = {"tsc", "tma", "cbr", "mode", "tsx", "pip", "vmcs", "mnt", "mtc", "cyc", "pad",
	"fup"};
/* before: 0 nothing, 1 a PSB+ with tracing enabled, 2 disabled, 3 some flow */
static void header(const std::vector<int> &h, int before, int end, bool iflags)
{
	Machine m;
	Cfg c;
	c.iflags = iflags;
	m.reset(c);
	if (before) {
		m.begin(before != 2);
		if (before == 3) {
			m.ippk(ppt_tip, 0x401234);
			m.ev(E(ptev_tip, false, 0x401234));
		}
	}
	bool was = m.dm_valid;
	m.pk(ppt_psb);
	m.last = 0;
	m.have_last = true;
	bool en = false;
	for (int x : h)
		en |= x == H_FUP;
	u64 ip = 0xffffffff81001234ull;
	std::vector<Ev> e;
	auto push = [&](Ev v) {
		v.su = true;
		e.push_back(v);
	};
	bool mode = false;
	for (int x : h)
		switch (x) {
		case H_TSC: m.pk(ppt_tsc, 0x123456); break;
		case H_TMA: m.pk(ppt_tma, 1, 2); break;
		case H_CBR: m.pk(ppt_cbr, 0xee); push(E(ptev_cbr, false, 0xee)); break;
		case H_MODE:
			m.mode_pk(M64, true);
			push(E(ptev_exec_mode, false, ip, M64));
			if (iflags)
				push(E(ptev_iflags, false, ip, 1));
			mode = true;
			break;
		case H_TSX: m.pk(ppt_mode, 1, 1, 0); push(E(ptev_tsx, false, ip, 1, 0)); break;
		case H_PIP: m.pk(ppt_pip, 0xabcdef0abcde0ull, 1); push(E(ptev_async_paging, false, 0xabcdef0abcde0ull, 1, ip)); break;
		case H_VMCS: m.pk(ppt_vmcs, 0x7770000777000ull); push(E(ptev_async_vmcs, false, 0x7770000777000ull, ip)); break;
		case H_MNT: /* not a status */
			m.pk(ppt_mnt, 0x8899aabbccddeeffull);
			e.push_back(E(ptev_mnt, false, 0x8899aabbccddeeffull));
			break;
		case H_MTC: m.pk(ppt_mtc, 4); break;
		case H_CYC: m.pk(ppt_cyc, 5); break;
		case H_PAD: m.pk(ppt_pad); break;
		case H_FUP: m.ippk(ppt_fup, ip); break;
		}
	/* without a FUP there is no location */
	if (!en)
		for (auto &v : e)
			if (v.type != ptev_cbr && v.type != ptev_mnt)
				return;
	(void)was;
	(void)mode;
	Ev s = en ? E(ptev_enabled, false, ip) : E(ptev_disabled, true);
	s.su = true;
	if (end == 0) {
		m.pk(ppt_psbend);
		m.ev(s);
	} else if (en)
		m.ev(s);
	for (auto &v : e)
		m.ev(v);
	if (end) {
		m.pk(ppt_ovf);
		if (end == 1) {
			u64 a = 0x402000;
			m.full_next = true;
			m.ippk(ppt_fup, a);
			m.ev(E(ptev_overflow, false, a));
			en = true;
		} else {
			m.ev(E(ptev_overflow, true));
			en = false;
		}
	}
	if (en) {
		m.ippk(ppt_tip, 0x402010);
		m.ev(E(ptev_tip, false, 0x402010));
	} else {
		m.ippk(ppt_tip_pge, 0x402020);
		m.ev(E(ptev_enabled, false, 0x402020));
	}
	std::string n = "psb+";
	for (int x : h)
		n += std::string(" ") + HN[x];
	compare(m, n + vf::fmt(" (before %d, end %d)", before, end));
}
static void headers(std::vector<int> &h, unsigned used, int depth)
{
	if (vf::late())
		return;
	nodes++;
	for (int b = 0; b < 4; b++)
		for (int e = 0; e < 3; e++)
			for (int i = 0; i < 2; i++)
				header(h, b, e, i);
	if ((int)h.size() >= depth)
		return;
	for (int x = 0; x < H_N; x++) {
		if (used >> x & 1)
			continue;
		if (x == H_TMA && !(used >> H_TSC & 1))
			continue; /* a TMA follows a TSC */
		if (h.size() == 1 && !vf::mine(unit++))
			continue;
		edges++;
		h.push_back(x);
		headers(h, used | 1u << x, depth);
		h.pop_back();
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	bool th = vf::opt.thorough;
	if (vf::opt.part == "model") {
		Walker w;
		w.visit = visit;
		auto go = [&](const std::vector<int> &alpha, int depth, int ncfg) {
			w.alpha = alpha;
			w.depth = depth;
			auto cs = cfgs();
			for (int i = 0; i < ncfg; i++)
				for (int e = 0; e < 2; e++) {
					w.cfg = cs[i];
					w.start_enabled = e;
					w.run();
				}
		};
		go(all_steps(), 3, 6);
		for (auto &t : THEMES)
			go(*t.steps, th ? 5 : 4, 6);
		if (th)
			go(all_steps(), 4, 3);
		nodes = w.nodes;
		edges = w.edges;
	} else if (vf::opt.part == "packets") {
		build(th);
		auto cs = cfgs();
		std::vector<int> p;
		static const int CF[] = {4, 1, 0, 2, 3, 5};
		for (int i = 0; i < (th ? 6 : 2); i++)
			for (int e = 0; e < 2; e++) {
				St s;
				s.m.reset(cs[CF[i]]);
				s.m.begin(e);
				walk(s, p, th && i < 2 ? 5 : 4);
			}
		/* at every fill and wrap-around of the event queue */
		for (int k = 1; k <= 17; k++) {
			St s;
			s.m.reset(cs[4]);
			s.m.begin(true);
			p.clear();
			static const char *const PF[] = {"ptw4-ip", "exstop-ip", "ptw8-ip"};
			for (int i = 0; i < k; i++) {
				p.push_back(find(PF[i % 3]));
				if (!atoms[(size_t)p.back()].f(s))
					exit(3);
				if (i % 3 == 2 || i + 1 == k) {
					p.push_back(find("fup"));
					if (!fup(s))
						exit(3);
				}
			}
			walk(s, p, th ? 4 : 3, p.size());
		}
	} else {
		std::vector<int> h;
		headers(h, 0, th ? 7 : 5);
	}
	vf::count("states", nodes);
	vf::count("transitions", edges);
	return vf::finish();
}
