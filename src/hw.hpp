// A model of the tracing processor: executes scenario steps on a program that is synthesised on the
// fly, emits the Intel PT packets a processor would, and keeps the ground truth of what happened:
// the event stream, the executed instructions, and where the events happened in between them.
#pragma once
#include "common.hpp"
#include "refpkt.hpp"

namespace hw {
typedef uint64_t u64;

/* A flattened event. */
struct Ev {
	int type = -1;
	bool ips = false, su = false;
	u64 a[7] = {0, 0, 0, 0, 0, 0, 0};
	bool operator==(const Ev &o) const
	{
		return type == o.type && ips == o.ips && su == o.su && !memcmp(a, o.a, sizeof(a));
	}
	std::string str() const
	{
		static const char *n[] = {"enabled", "disabled", "async_disabled", "async_branch",
			"paging", "async_paging", "overflow", "exec_mode", "tsx", "stop", "vmcs",
			"async_vmcs", "exstop", "mwait", "pwre", "pwrx", "ptwrite", "tick", "cbr",
			"mnt", "tip", "tnt", "iflags", "interrupt", "iret", "smi", "rsm", "sipi",
			"init", "vmentry", "vmexit", "shutdown", "uintr", "uiret", "trig"};
		std::string s = type >= 0 && type < (int)(sizeof(n) / sizeof(*n)) ?
			n[type] : vf::fmt("event%d", type);
		if (su)
			s += ".status";
		if (ips)
			s += ".noip";
		int l = 6;
		while (l >= 0 && !a[l])
			l--;
		for (int i = 0; i <= l; i++)
			s += vf::fmt("%s%llx", i ? "," : ":", (unsigned long long)a[i]);
		return s;
	}
};
inline Ev E(int type, bool ips = false, u64 a0 = 0, u64 a1 = 0, u64 a2 = 0, u64 a3 = 0, u64 a4 = 0,
	    u64 a5 = 0, u64 a6 = 0)
{
	Ev e;
	e.type = type;
	e.ips = ips;
	u64 v[7] = {a0, a1, a2, a3, a4, a5, a6};
	memcpy(e.a, v, sizeof(v));
	return e;
}
/* The library's event, flattened; IPs that are not valid are left out. */
inline Ev flat(const struct pt_event &p)
{
	Ev e;
	e.type = p.type;
	e.ips = p.ip_suppressed;
	e.su = p.status_update;
	bool i = !p.ip_suppressed;
	auto &v = p.variant;
	u64 *a = e.a;
	switch (p.type) {
	case ptev_enabled: if (i) a[0] = v.enabled.ip; a[1] = v.enabled.resumed && !p.status_update; break;
	case ptev_disabled: if (i) a[0] = v.disabled.ip; break;
	case ptev_async_disabled: a[0] = v.async_disabled.at; if (i) a[1] = v.async_disabled.ip; break;
	case ptev_async_branch: a[0] = v.async_branch.from; if (i) a[1] = v.async_branch.to; break;
	case ptev_paging: a[0] = v.paging.cr3; a[1] = v.paging.non_root; break;
	case ptev_async_paging:
		a[0] = v.async_paging.cr3; a[1] = v.async_paging.non_root;
		if (i) a[2] = v.async_paging.ip;
		break;
	case ptev_overflow: if (i) a[0] = v.overflow.ip; break;
	case ptev_exec_mode: a[1] = v.exec_mode.mode; if (i) a[0] = v.exec_mode.ip; break;
	case ptev_tsx:
		if (i) a[0] = v.tsx.ip;
		a[1] = v.tsx.speculative; a[2] = v.tsx.aborted;
		break;
	case ptev_stop: break;
	case ptev_vmcs: a[0] = v.vmcs.base; break;
	case ptev_async_vmcs: a[0] = v.async_vmcs.base; if (i) a[1] = v.async_vmcs.ip; break;
	case ptev_exstop: if (i) a[0] = v.exstop.ip; break;
	case ptev_mwait: if (i) a[0] = v.mwait.ip; a[1] = v.mwait.hints; a[2] = v.mwait.ext; break;
	case ptev_pwre: a[0] = v.pwre.state; a[1] = v.pwre.sub_state; a[2] = v.pwre.hw; break;
	case ptev_pwrx:
		a[0] = v.pwrx.last; a[1] = v.pwrx.deepest; a[2] = v.pwrx.interrupt;
		a[3] = v.pwrx.store; a[4] = v.pwrx.autonomous;
		break;
	case ptev_ptwrite: if (i) a[0] = v.ptwrite.ip; a[1] = v.ptwrite.size; a[2] = v.ptwrite.payload; break;
	case ptev_tick: if (i) a[0] = v.tick.ip; break;
	case ptev_cbr: a[0] = v.cbr.ratio; break;
	case ptev_mnt: a[0] = v.mnt.payload; break;
	case ptev_tip: if (i) a[0] = v.tip.ip; break;
	case ptev_tnt: a[0] = v.tnt.bits; a[1] = v.tnt.size; break;
	case ptev_iflags: if (i) a[0] = v.iflags.ip; a[1] = v.iflags.iflag; break;
	case ptev_interrupt:
		if (i) a[0] = v.interrupt.ip;
		a[1] = v.interrupt.vector; a[2] = v.interrupt.has_cr2;
		if (v.interrupt.has_cr2) a[3] = v.interrupt.cr2;
		break;
	case ptev_iret: if (i) a[0] = v.iret.ip; break;
	case ptev_smi: if (i) a[0] = v.smi.ip; break;
	case ptev_rsm: if (i) a[0] = v.rsm.ip; break;
	case ptev_sipi: a[0] = v.sipi.vector; break;
	case ptev_init: if (i) a[0] = v.init.ip; break;
	case ptev_vmentry: if (i) a[0] = v.vmentry.ip; break;
	case ptev_vmexit:
		if (i) a[0] = v.vmexit.ip;
		a[1] = v.vmexit.has_vector; a[2] = v.vmexit.has_vmxr; a[3] = v.vmexit.has_vmxq;
		if (v.vmexit.has_vector) a[4] = v.vmexit.vector;
		if (v.vmexit.has_vmxr) a[5] = v.vmexit.vmxr;
		if (v.vmexit.has_vmxq) a[6] = v.vmexit.vmxq;
		break;
	case ptev_shutdown: if (i) a[0] = v.shutdown.ip; break;
	case ptev_uintr: if (i) a[0] = v.uintr.ip; a[1] = v.uintr.vector; break;
	case ptev_uiret: if (i) a[0] = v.uiret.ip; break;
	case ptev_trig:
		if (i) a[0] = v.trig.ip, a[3] = v.trig.icnt;
		a[1] = v.trig.trbv; a[2] = v.trig.mult;
		break;
	default: break;
	}
	return e;
}

struct Insn {
	u64 ip = 0;
	uint8_t size = 0, cls = 0, mode = 0, spec = 0;
	uint8_t raw[15] = {0};
	uint8_t use = 0;	/* 0: nothing, 1: a TNT bit, 2: a TIP */
	uint8_t taken = 0;
	u64 tip = 0;
	u64 cr3 = 0, vmcs = 0;
};

/* Variations of the hardware that must not matter. */
struct Cfg {
	int tntmax = 6;	      /* TNT bits buffered at most */
	bool tnt64 = false;   /* use long TNT packets only */
	bool defer = false;   /* deferred TIPs */
	bool retc = true;     /* return compression */
	int ipc = 0;	      /* 0: shortest, 1: 48 bit, 2: full, 3: cycling */
	int psbvar = 0;	      /* layout of the PSB+ header */
	bool iflags = false;  /* event tracing enabled and reported */
	bool pad = false;     /* pad between packets */
	int err = 0;	      /* an erratum of the hardware: ERR_* */
	bool txovf = false;   /* a transaction survives an overflow */
	int bog = 0;	      /* what else is in a spurious PSB+ */
	int pfx = 0;	      /* redundant prefixes on near branches */
	u64 vmcs = 0;	      /* the VMCS, from the start */
};
enum { ERR_NONE, ERR_APL11, ERR_APL12, ERR_SKD010, ERR_BDM70, ERR_BDM64, ERR_SKD022, ERR_SKL014 };

enum { M64 = ptem_64bit, M32 = ptem_32bit, M16 = ptem_16bit };

static const int NREG = 8;
static const u64 REG[NREG] = {0x401000, 0x7f1234561000, 0xffffffff81001000ull, 0x8048000, 0xf7001000,
			      0x1000, 0x5000, 0x500000 /* filtered out */};
static const u64 REGSZ = 0x4000;
/* as wide as a PIP; they differ in the upper half only */
static const u64 CR3A = 0xa5a5123456780ull, CR3B = 0x5a5a123456780ull;
static const u64 SLOT = 0x40;

struct Code {
	u64 ip;
	uint8_t len, mode;
	uint8_t b[15];
};
struct FE {
	Ev e;
	int pos;	/* instructions before it */
	int nu;		/* branches in the trace before it */
};

struct Machine {
	Cfg c;
	std::vector<uint8_t> tr;
	std::vector<Ev> evl;   /* what the event decoder must report */
	std::vector<Insn> ins; /* executed instructions */
	std::vector<FE> fev;   /* events and the number of instructions before them */
	std::vector<Code> code;
	std::vector<size_t> psbs; /* offsets of the PSBs */
	/* indices into evl, ins, fev at each PSB */
	struct Mark {
		size_t off, evl, ins, fev;
		bool en, intx;
		bool unk = false;    /* a decoder starting here does not know the mode, yet */
		bool nomode = false; /* and was not told before it needed it */
		bool told = false;   /* and was told later */
	};
	std::vector<Mark> marks;
	/* the packets: their offset, type, and the events at the time they were sent */
	struct Po {
		size_t off;
		int type;
		size_t evl;
		bool ipbit;
	};
	std::vector<Po> pks;
	int novf = 0;
	bool apl12 = false; /* a spurious FUP is not explained, yet */
	bool bad = false;   /* not decodable: a spurious FUP was never explained */
	std::vector<u64> garbage;  /* wrong branch targets that must not lead anywhere */
	std::vector<u64> adis;	   /* where tracing was disabled asynchronously */
	int nbogus = 0;
	std::vector<size_t> bogus; /* indices into marks of spurious PSB+ */

	/* processor state */
	bool en = false;
	u64 ip = 0;
	int mode = M64;
	bool iflag = true, intx = false;
	u64 cr3 = CR3A, vmcs = 0;
	bool nr = false;
	std::vector<u64> pstack, hwrs;
	int slots[NREG] = {0};
	u64 start = 0;
	u64 resume = 0; /* where tracing is expected to resume */
	bool have_resume = false;
	/* tracing state */
	u64 last = 0;
	bool have_last = false, full_next = false;
	unsigned ncyc = 0;
	std::vector<int> tnt;
	std::vector<u64> dtip;
	int lo = 0, lastpos = 0, buffered_hi = 0, nucnt = 0;
	bool anchor_ok = false;
	int anchor = 0;
	/* what the decoder knows about the mode */
	bool dm_valid = false;
	int dm = 0;
	bool dif = false;
	bool just_pgd = false;
	bool dm_ever = false; /* the decoder has been told the mode at least once */

	void reset(const Cfg &cfg)
	{
		c = cfg;
		tr.clear(); evl.clear(); ins.clear(); fev.clear(); code.clear(); psbs.clear();
		marks.clear(); pks.clear(); novf = 0; apl12 = bad = false;
		garbage.clear(); adis.clear(); nbogus = 0; bogus.clear();
		en = false; ip = 0; mode = M64; iflag = true; intx = false; cr3 = CR3A; vmcs = cfg.vmcs;
		nr = false; pstack.clear(); hwrs.clear(); memset(slots, 0, sizeof(slots));
		start = 0; resume = 0; have_resume = false; last = 0; have_last = false;
		full_next = false; ncyc = 0; tnt.clear(); dtip.clear(); lo = lastpos = buffered_hi = nucnt = 0;
		anchor_ok = false; anchor = 0; dm_valid = false; dm = 0; dif = false;
		just_pgd = false; dm_ever = false;
	}

	/* ---- packets ---- */
	void pk(int type, u64 f0 = 0, u64 f1 = 0, u64 f2 = 0, u64 f3 = 0, u64 f4 = 0, u64 f5 = 0)
	{
		ref::Pk k;
		k.type = type;
		u64 f[6] = {f0, f1, f2, f3, f4, f5};
		memcpy(k.f, f, sizeof(f));
		auto b = ref::encode(k);
		if (c.pad && type != ppt_psb)
			tr.push_back(0);
		bool ipbit = (type == ppt_ptw && f2) || (type == ppt_exstop && f0) ||
			(type == ppt_cfe && f2) || type == ppt_mwait || (type == ppt_mode && !f0);
		pks.push_back({tr.size(), type, evl.size(), ipbit});
		if (type == ppt_tip_pge || type == ppt_stop || (type == ppt_psb && !en))
			apl12 = false;
		if (type == ppt_ovf && apl12)
			bad = true;
		tr.insert(tr.end(), b.begin(), b.end());
	}
	static u64 sext48(u64 v) { return (u64)((int64_t)(v << 16) >> 16); }
	void ippk(int type, u64 a)
	{
		int opts[6], n = 0;
		bool rel = have_last && !full_next;
		if (rel && !((last ^ a) >> 16))
			opts[n++] = pt_ipc_update_16;
		if (rel && !((last ^ a) >> 32))
			opts[n++] = pt_ipc_update_32;
		if (sext48(a) == a)
			opts[n++] = pt_ipc_sext_48;
		if (rel && !((last ^ a) >> 48))
			opts[n++] = pt_ipc_update_48;
		opts[n++] = pt_ipc_full;
		int ch = opts[0];
		if (c.ipc == 1)
			ch = sext48(a) == a ? pt_ipc_sext_48 : pt_ipc_full;
		else if (c.ipc == 2)
			ch = pt_ipc_full;
		else if (c.ipc == 3)
			ch = opts[ncyc++ % n];
		u64 v = a;
		switch (ch) {
		case pt_ipc_update_16: v &= 0xffff; break;
		case pt_ipc_update_32: v &= 0xffffffff; break;
		case pt_ipc_sext_48: case pt_ipc_update_48: v &= 0xffffffffffffull; break;
		default: break;
		}
		pk(type, ch, v);
		last = a;
		have_last = true;
		full_next = false;
	}
	void ipsup(int type) { pk(type, pt_ipc_suppressed, 0); }

	/* ---- event log ---- */
	void ev(const Ev &e) { evl.push_back(e); }
	void flow(const Ev &e, int pos)
	{
		if (pos < lastpos)
			pos = lastpos;
		int nu = fev.size() ? fev.back().nu : 0;
		for (int i = fev.size() ? nucnt : 0; i < pos; i++)
			nu += ins[(size_t)i].use != 0;
		if (pos && ins[(size_t)pos - 1].use == 0)
			nucnt = pos - 1; /* may still become a branch */
		else
			nucnt = pos;
		fev.push_back({e, pos, nu});
		lastpos = pos;
	}
	int n() const { return (int)ins.size(); }
	/* An event that happens at the current IP or instruction. */
	void at(const Ev &e) { ev(e); flow(e, n()); }
	/* An event without location: seen as soon as preceding packets are consumed. */
	void fl(const Ev &e) { ev(e); flow(e, en ? lo : n()); }
	/* Is the current location the first one with this IP the decoder will see? */
	bool ipok() const
	{
		for (int j = lo > lastpos ? lo : lastpos; j < n(); j++)
			if (ins[j].ip == ip)
				return false;
		return true;
	}
	void anch() { anchor_ok = true; anchor = n(); }

	/* ---- branch packets ---- */
	void flush()
	{
		if (tnt.size()) {
			u64 bits = 0;
			for (int b : tnt)
				bits = bits << 1 | (u64)b;
			bool l = c.tnt64 || tnt.size() > 6;
			pk(l ? ppt_tnt_64 : ppt_tnt_8, tnt.size(), bits);
			ev(E(ptev_tnt, false, bits, tnt.size()));
			tnt.clear();
		}
		for (u64 t : dtip) {
			ippk(ppt_tip, t);
			ev(E(ptev_tip, false, t));
		}
		dtip.clear();
		if (lo < buffered_hi)
			lo = buffered_hi;
	}
	void bit(int t)
	{
		ins.back().use = 1;
		ins.back().taken = (uint8_t)t;
		tnt.push_back(t);
		buffered_hi = n();
		anch();
		if ((int)tnt.size() >= c.tntmax)
			flush();
	}
	void tip(u64 t)
	{
		ins.back().use = 2;
		ins.back().tip = t;
		buffered_hi = n();
		ip = t;
		anch();
		/* Uncompressed returns are not deferred since they would look compressed. */
		if (c.defer && tnt.size() && ins.back().cls != ptic_return) {
			dtip.push_back(t);
			return;
		}
		flush();
		ippk(ppt_tip, t);
		ev(E(ptev_tip, false, t));
		lo = n();
	}

	/* ---- code ---- */
	bool put(const uint8_t *b, int len, int cls)
	{
		for (auto &k : code) {
			if (k.ip == ip && k.len == len && k.mode == mode && !memcmp(k.b, b, len))
				goto placed;
			if (ip < k.ip + k.len && k.ip < ip + (u64)len)
				return false;
		}
		{
			Code k;
			k.ip = ip;
			k.len = (uint8_t)len;
			k.mode = (uint8_t)mode;
			memcpy(k.b, b, len);
			code.push_back(k);
		}
	placed:
		Insn i;
		i.ip = ip;
		i.size = (uint8_t)len;
		i.cls = (uint8_t)cls;
		i.mode = (uint8_t)mode;
		i.spec = intx;
		i.cr3 = cr3;
		i.vmcs = vmcs;
		memcpy(i.raw, b, len);
		ins.push_back(i);
		just_pgd = false;
		return true;
	}
	bool put(std::initializer_list<int> l, int cls)
	{
		uint8_t b[15];
		int k = 0;
		if (cls == ptic_jump || cls == ptic_call || cls == ptic_return)
			for (; k < c.pfx; k++)
				b[k] = 0x2e;
		for (int v : l)
			b[k++] = (uint8_t)v;
		return put(b, k, cls);
	}
	/* A relative branch with 8 bit (op8 > 0) or full displacement. */
	bool rel(int pre, int op, bool rel8, u64 target, int cls)
	{
		uint8_t b[15];
		int k = 0;
		for (; k < c.pfx; k++)
			b[k] = 0x2e;
		if (pre)
			b[k++] = (uint8_t)pre;
		b[k++] = (uint8_t)op;
		int ds = rel8 ? 1 : mode == M16 ? 2 : 4;
		int64_t d = (int64_t)(target - (ip + k + ds));
		if (rel8 && (d < -128 || d > 127))
			return false;
		if (ds == 2 && (d < -32768 || d > 32767))
			return false;
		if (ds == 4 && d != (int32_t)d)
			return false;
		for (int i = 0; i < ds; i++)
			b[k++] = (uint8_t)((u64)d >> (8 * i));
		return put(b, k, cls);
	}
	int region() const
	{
		for (int r = 0; r < NREG; r++)
			if (ip - REG[r] < REGSZ)
				return r;
		return 0;
	}
	u64 fresh(int r) { return REG[r] + SLOT * (u64)slots[r]++; }
	/* user, far user, kernel area of the current mode */
	int area(int k) const
	{
		switch (mode) {
		case M64: return k;
		case M32: return k ? 4 : 3;
		default: return k ? 6 : 5;
		}
	}

	/* ---- mode packets ---- */
	void mode_pk(int m, bool f)
	{
		pk(ppt_mode, 0, m == M64, m == M32, f);
	}
	/* The events a MODE.EXEC yields at its binding packet. */
	int mode_ev(int m, bool f, Ev *o)
	{
		int k = 0;
		for (auto &k2 : marks)
			if (k2.unk)
				k2.unk = false, k2.told = true;
		if (!dm_valid || dm != m)
			o[k++] = E(ptev_exec_mode, false, 0, (u64)m);
		if (c.iflags && (!dm_valid || dif != f))
			o[k++] = E(ptev_iflags, false, 0, f);
		dm_valid = dm_ever = true;
		dm = m;
		dif = f;
		return k;
	}

	/* ---- PSB+ ---- */
	void psb()
	{
		flush();
		marks.push_back({tr.size(), evl.size(), ins.size(), fev.size(), en, intx});
		marks.back().unk = !en;
		psbs.push_back(tr.size());
		pk(ppt_psb);
		last = 0;
		have_last = true; /* zero */
		full_next = false;
		hwrs.clear();
		Ev h[8];
		int k = 0;
		auto add = [&](Ev e) { e.su = true; h[k++] = e; };
		auto tm = [&]() {
			pk(ppt_tsc, 0x1000 + tr.size());
			if (c.psbvar & 1) {
				pk(ppt_cbr, 7);
				add(E(ptev_cbr, false, 7));
			}
		};
		auto md = [&]() {
			if (!en)
				return;
			mode_pk(mode, iflag);
			add(E(ptev_exec_mode, false, ip, (u64)mode));
			if (c.iflags)
				add(E(ptev_iflags, false, ip, iflag));
			dm_valid = dm_ever = true;
			dm = mode;
			dif = iflag;
			pk(ppt_mode, 1, intx, 0);
			add(E(ptev_tsx, false, ip, intx, 0));
		};
		auto pg = [&]() {
			if (!en)
				return;
			pk(ppt_pip, cr3, nr);
			add(E(ptev_async_paging, false, cr3, nr, ip));
			if (vmcs) {
				pk(ppt_vmcs, vmcs);
				add(E(ptev_async_vmcs, false, vmcs, ip));
			}
		};
		if (c.psbvar & 2) {
			if (en)
				ippk(ppt_fup, ip);
			pg();
			md();
			tm();
		} else {
			tm();
			md();
			if (en)
				ippk(ppt_fup, ip);
			pg();
		}
		pk(ppt_psbend);
		Ev s = en ? E(ptev_enabled, false, ip) : E(ptev_disabled, true);
		s.su = true;
		fl(s);
		for (int i = 0; i < k; i++) {
			bool bound = h[i].type != ptev_cbr && en;
			if (bound)
				at(h[i]);
			else
				fl(h[i]);
		}
		if (en)
			anch();
	}

	/* ---- enable and disable ---- */
	void need_mode()
	{
		for (auto &k : marks)
			k.nomode |= k.unk;
	}
	/* Erratum BDM70: a PSB+ with MODE.Exec and FUP precedes TIP.PGE. */
	void bogus_psb(u64 a)
	{
		bogus.push_back(marks.size());
		marks.push_back({tr.size(), evl.size(), ins.size(), fev.size(), false, intx});
		psbs.push_back(tr.size());
		int v = nbogus++ + c.psbvar;
		pk(ppt_psb);
		last = 0;
		have_last = true;
		full_next = false;
		hwrs.clear();
		u64 f = v & 1 ? a : a ^ 0x40;
		Ev s = E(ptev_disabled, true);
		s.su = true;
		fl(s);
		if (v & 2)
			ippk(ppt_fup, f);
		pk(ppt_tsc, 0x1000 + tr.size());
		mode_pk(mode, iflag);
		Ev h = E(ptev_exec_mode, true, 0, (u64)mode);
		h.su = true;
		fl(h);
		if (c.iflags) {
			h = E(ptev_iflags, true, 0, iflag);
			h.su = true;
			fl(h);
		}
		for (auto &k : marks)
			if (k.unk)
				k.unk = false, k.told = true;
		dm_valid = dm_ever = true;
		dm = mode;
		dif = iflag;
		if (!(v & 2))
			ippk(ppt_fup, f);
		if (v & 1)
			pk(ppt_cbr, 11);
		std::vector<Ev> more;
		switch (c.bog) {
		case 1: pk(ppt_pip, cr3, nr); more.push_back(E(ptev_async_paging, true, cr3, nr)); break;
		case 2: pk(ppt_vmcs, 0x7700000077000); more.push_back(E(ptev_async_vmcs, true, 0x7700000077000)); break;
		case 3: pk(ppt_tma, 0x12, 0x34); break;
		case 4: pk(ppt_mtc, 0x12); break;
		case 5: pk(ppt_cyc, 0x1234); break;
		case 6: pk(ppt_mnt, 0x1122ull); more.push_back(E(ptev_mnt, false, 0x1122ull)); break;
		case 7: pk(ppt_mode, 1, intx, 0); more.push_back(E(ptev_tsx, true, 0, intx, 0)); break;
		}
		pk(ppt_psbend);
		if (v & 1) {
			h = E(ptev_cbr, false, 11);
			h.su = true;
			fl(h);
		}
		for (Ev &e : more) {
			e.su = e.type != ptev_mnt;
			fl(e);
		}
		if (v & 2)
			pk(ppt_tsc, 0x1000 + tr.size());
		if (c.bog == 4 && v & 1)
			pk(ppt_mtc, 0x13);
		if (c.bog == 5 && v & 2)
			pk(ppt_cyc, 0x12);
		if (c.bog == 6) {
			pk(ppt_mnt, 0x2211ull);
			fl(E(ptev_mnt, false, 0x2211ull));
		}
	}
	void pge(u64 a, bool withmode)
	{
		Ev m[2];
		int k = 0;
		if (c.err == ERR_BDM70)
			bogus_psb(a);
		if (!withmode)
			need_mode();
		if (withmode) {
			mode_pk(mode, iflag);
			k = mode_ev(mode, iflag, m);
		}
		ippk(ppt_tip_pge, a);
		en = true;
		ip = a;
		Ev e = E(ptev_enabled, false, a);
		ev(e);
		e.a[1] = have_resume && resume == a;
		flow(e, n());
		for (int i = 0; i < k; i++) {
			m[i].a[0] = a;
			at(m[i]);
		}
		lo = n();
		anch();
		just_pgd = false;
	}
	/* A synchronous disable after the last instruction; to = 0: no IP. */
	void pgd(u64 to, u64 res, bool haveres = true)
	{
		flush();
		if (to) {
			ippk(ppt_tip_pgd, to);
			at(E(ptev_disabled, false, to));
		} else {
			ipsup(ppt_tip_pgd);
			at(E(ptev_disabled, true));
		}
		off();
		resume = haveres ? res : 0;
		have_resume = true;
	}
	void off()
	{
		en = false;
		lo = n();
		hwrs.clear();
		anchor_ok = false;
		just_pgd = true;
	}
	bool interrupt(int target_area, bool withpip, bool withvmcs, bool withmode, bool abort_tx,
		       int ord = 0)
	{
		if (!ipok())
			return false;
		flush();
		u64 from = ip;
		if (abort_tx) {
			pk(ppt_mode, 1, 0, 1);
			ippk(ppt_fup, from);
			at(E(ptev_tsx, false, from, 0, 1));
			intx = false;
		} else
			ippk(ppt_fup, from);
		u64 to;
		int nm = mode;
		bool nf = iflag;
		if (withmode) {
			nm = mode == M64 ? M32 : M64;
			mode = nm;
			nf = !iflag;
			iflag = nf;
		}
		to = fresh(area(target_area));
		Ev m[4];
		int k = 0, mk = 0;
		Ev me[2];
		auto emit = [&](int w) {
			if (w == 0 && withvmcs)
				pk(ppt_vmcs, vmcs);
			if (w == 1 && withpip)
				pk(ppt_pip, cr3, nr);
			if (w == 2 && withmode) {
				mode_pk(nm, nf);
				mk = mode_ev(nm, nf, me);
			}
		};
		if (withvmcs)
			vmcs = vmcs ? 0x5edcba9876000 : 0xa123456789000;
		if (withpip) {
			cr3 = cr3 == CR3A ? CR3B : CR3A;
			nr = withvmcs;
		}
		static const int O[4][3] = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {2, 1, 0}};
		/* the mode event keeps its place relative to the others */
		bool modefirst = ord >= 2;
		for (int i = 0; i < 3; i++)
			emit(O[ord & 3][i]);
		auto modes = [&]() {
			for (int i = 0; i < mk; i++) {
				me[i].a[0] = to;
				m[k++] = me[i];
			}
		};
		if (modefirst)
			modes();
		if (withvmcs)
			m[k++] = E(ptev_async_vmcs, false, vmcs, to);
		if (withpip)
			m[k++] = E(ptev_async_paging, false, cr3, nr, to);
		if (!modefirst)
			modes();
		ippk(ppt_tip, to);
		at(E(ptev_async_branch, false, from, to));
		ip = to;
		for (int i = 0; i < k; i++)
			at(m[i]);
		lo = n();
		anch();
		return true;
	}
	void overflow(bool keep, bool enabled_after, u64 where)
	{
		if (en) {
			if (keep)
				flush();
			tnt.clear();
			dtip.clear();
			int pos = lo > lastpos ? lo : lastpos;
			ins.resize((size_t)pos);
			if (buffered_hi > n())
				buffered_hi = n();
		}
		pk(ppt_ovf);
		hwrs.clear();
		if (!c.txovf)
			intx = false;
		dm_valid = false;
		full_next = true;
		novf++;
		if (!enabled_after && c.err == ERR_APL11) {
			/* a spurious TIP.PGD, possibly with an IP */
			if (novf & 1)
				ippk(ppt_tip_pgd, REG[0] + 0x20);
			else
				ipsup(ppt_tip_pgd);
		}
		if (!enabled_after && c.err == ERR_APL12) {
			/* a spurious FUP */
			if (novf & 1)
				pk(ppt_tsc, 0x4000);
			ippk(ppt_fup, REG[0] + 0x30);
			apl12 = true;
		}
		if (enabled_after) {
			need_mode();
			if (c.err == ERR_SKD010)
				; /* the FUP is lost */
			else
				ippk(ppt_fup, where);
			ip = where;
			en = true;
			at(E(ptev_overflow, false, where));
			anch();
		} else {
			at(E(ptev_overflow, true));
			en = false;
			anchor_ok = false;
			resume = 0;
			have_resume = true;
		}
		lo = n();
		just_pgd = false;
	}

	/* Start tracing. */
	void begin(bool enabled)
	{
		mode = M64;
		start = fresh(0);
		ip = start;
		en = enabled;
		psb();
		if (!en)
			resume = 0, have_resume = true;
	}
	/* Stop tracing, so that everything that was executed is in the trace. */
	bool end()
	{
		if (bad || apl12)
			return false;
		for (u64 g : garbage)
			for (auto &k : code)
				if (g - k.ip < k.len)
					return false;
		if (!en)
			return true;
		if (!ipok())
			return false;
		flush();
		ippk(ppt_fup, ip);
		ipsup(ppt_tip_pgd);
		at(E(ptev_async_disabled, true, ip));
		adis.push_back(ip);
		off();
		return true;
	}
	std::string trace() const { return vf::hex(tr); }
};

/* The scenario steps. */
enum Step {
	S_NOP, S_NOP3, S_JT, S_JN, S_JB, S_JS, S_DJ, S_DJB, S_IJ, S_IJF, S_IJB, S_CD, S_CZ, S_CI, S_RM,
	S_RX, S_SC, S_SCP, S_SR, S_INT, S_IRET, S_FJM, S_FC, S_MC, S_PW, S_PWI, S_XB, S_XE, S_VMP, S_VML,
	S_MW, S_MWI, S_STI, S_A, S_AP, S_AV, S_AM, S_AVM, S_TA, S_AD, S_ADT, S_SCD, S_MCD, S_JTD, S_DJD,
	S_IJD, S_CDD, S_CID, S_RD, S_OF, S_OFF, S_OD, S_PS, S_CB, S_CBF, S_MN, S_EI, S_EIR, S_EPF, S_EIRT,
	S_EVX, S_TRI, S_TRF, S_TRN, S_UI, S_ADM, S_LT, S_LN, S_EVE,
	/* while tracing is disabled */
	S_PGE, S_PGM, S_PGR, S_PGX, S_DPI, S_DVM, S_STOP, S_DPW, S_DTX, S_DEX, S_DEI, S_DVX,
	/* on hardware with an erratum, only */
	S_BJT, S_BJN, S_BIJ, S_BIC, S_BCI, S_BRT, S_VLD, S_VRD, S_VLE, S_VLI, S_DJX, S_CDX, S_DJI,
	NSTEP
};
static const char *const SNAME[NSTEP] = {
	"nop", "nop3", "jcc+", "jcc-", "jcc-back", "jcc-short", "jmp", "jmp-back", "ijmp", "ijmp-far",
	"ijmp-back", "call", "call-next", "icall", "ret", "ret-else", "syscall", "syscall-pip", "sysret",
	"int", "iret", "farjmp-mode", "farcall", "movcr3", "ptw", "ptw-ip", "xbegin", "xend", "vmptrld",
	"vmlaunch", "mwait", "mwait-ip", "sti", "irq", "irq-pip", "irq-pip-vmcs", "irq-mode",
	"irq-all", "tx-abort", "adis", "adis-ip", "syscall-dis", "movcr3-dis", "jcc-dis", "jmp-dis",
	"ijmp-dis", "call-dis", "icall-dis", "ret-dis", "ovf-here", "ovf-else", "ovf-dis", "psb", "cbr",
	"flush-cbr", "mnt", "cfe-intr", "cfe-intr-fup", "evd-pf", "cfe-iret", "evd-vmexit", "trig",
	"trig-ip", "trig-noip", "uiret", "adis-mode", "loop+", "loop-", "vmlaunch-event", "pge", "pge-mode", "pge-resume", "pge-samemode", "pip", "vmcs", "stop", "ptw-off",
	"tsx-off", "exstop-off", "cfe-off", "vmexit-off",
	"jcc+abort", "jcc-abort", "ijmp-abort", "ijmp-cbr-abort", "icall-abort", "ret-abort", "vmlaunch-dis-fup", "vmresume-dis-fup",
	"vmlaunch-dis", "vmlaunch-dis-fup-ip", "jmp-dis-noip", "call-dis-noip", "jmp-dis-ok"};

/* Apply one step.  False if it is not applicable here. */
inline bool step(Machine &m, int s)
{
	typedef Machine M;
	const int op16 = 0;
	(void)op16;
	if (s == S_PS) {
		if (m.en && !m.ipok())
			return false;
		m.psb();
		return true;
	}
	if (s == S_CB || s == S_CBF) {
		if (s == S_CBF) {
			if (m.tnt.empty() && m.dtip.empty())
				return false;
			m.flush();
		}
		m.pk(ppt_cbr, 9);
		m.fl(E(ptev_cbr, false, 9));
		return true;
	}
	if (s == S_MN) {
		m.pk(ppt_mnt, 0x1122334455667788ull);
		m.fl(E(ptev_mnt, false, 0x1122334455667788ull));
		return true;
	}
	if (s == S_OD) {
		m.overflow(false, false, 0);
		return true;
	}
	if (s == S_OFF) {
		if (!m.dm_ever)
			return false;
		m.overflow(false, true, m.fresh(m.area(0)));
		return true;
	}
	if (s == S_TRN) {
		m.flush();
		m.pk(ppt_trig, 0, 0, 1, 0x5, 0);
		m.fl(E(ptev_trig, true, 0, 0x5, 1));
		return true;
	}
	if (!m.en) {
		switch (s) {
		case S_PGE:
			m.pge(m.fresh(m.area(0)), !m.dm_valid || m.dm != m.mode);
			return true;
		case S_PGX: /* redundant mode packet */
			m.pge(m.fresh(m.area(0)), true);
			return true;
		case S_PGM:
			m.mode = m.mode == M64 ? M32 : m.mode == M32 ? M16 : M64;
			m.pstack.clear();
			m.pge(m.fresh(m.area(0)), true);
			return true;
		case S_PGR:
			if (!m.have_resume || !m.resume || m.resume - REG[7] < REGSZ)
				return false;
			m.pge(m.resume, !m.dm_valid || m.dm != m.mode);
			return true;
		case S_DPI:
			m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
			m.pk(ppt_pip, m.cr3, 0);
			m.nr = false;
			m.at(E(ptev_paging, false, m.cr3, 0));
			return true;
		case S_DVM:
			m.vmcs = 0xfabcd00000000;
			m.pk(ppt_vmcs, m.vmcs);
			m.at(E(ptev_vmcs, false, m.vmcs));
			return true;
		case S_STOP:
			if (!m.just_pgd)
				return false;
			m.pk(ppt_stop);
			m.at(E(ptev_stop));
			return true;
		case S_DPW:
			m.pk(ppt_ptw, 0x55667788, 0, 0);
			m.at(E(ptev_ptwrite, true, 0, 4, 0x55667788));
			return true;
		case S_DTX:
			m.intx = !m.intx;
			m.pk(ppt_mode, 1, m.intx, 0);
			m.at(E(ptev_tsx, true, 0, m.intx, 0));
			return true;
		case S_DEX:
			m.pk(ppt_mwait, 0x21, 1);
			m.pk(ppt_pwre, 2, 1, 1);
			m.at(E(ptev_pwre, false, 2, 1, 1));
			m.pk(ppt_exstop, 0);
			m.at(E(ptev_mwait, true, 0, 0x21, 1));
			m.at(E(ptev_exstop, true));
			m.pk(ppt_pwrx, 3, 6, 1, 0, 1);
			m.at(E(ptev_pwrx, false, 3, 6, 1, 0, 1));
			return true;
		case S_DEI:
			m.pk(ppt_cfe, pt_cfe_intr, 14, 0);
			m.at(E(ptev_interrupt, true, 0, 14));
			m.pk(ppt_cfe, pt_cfe_iret, 0, 0);
			m.at(E(ptev_iret, true));
			return true;
		case S_DVX:
			m.pk(ppt_evd, pt_evd_vmxq, 0x1234);
			m.pk(ppt_evd, pt_evd_vmxr, 0x30);
			m.pk(ppt_cfe, pt_cfe_vmexit_intr, 33, 0);
			m.at(E(ptev_vmexit, true, 0, 1, 1, 1, 33, 0x30, 0x1234));
			m.pk(ppt_cfe, pt_cfe_vmentry, 0, 0);
			m.at(E(ptev_vmentry, true));
			return true;
		default:
			return false;
		}
	}
	/* tracing is enabled */
	int r = m.region();
	/* Ambiguous after MOV CR3, which may disable tracing as well. */
	auto mc_open = [&]() {
		for (int j = m.lo > m.buffered_hi ? m.lo : m.buffered_hi; j < m.n(); j++)
			if (m.ins[j].raw[0] == 0x0f && m.ins[j].raw[1] == 0x22)
				return true;
		return false;
	};
	/* a branch target that does not lead anywhere */
	auto wrong = [&]() {
		u64 g = m.garbage.size() & 1 ? REG[r] + REGSZ - 0x40 : 0x7eee0000beefull;
		m.garbage.push_back(g);
		return g;
	};
	switch (s) {
	/* BDM64: the target of a branch right before an abort is wrong */
	case S_BJT:
	case S_BJN: {
		if (m.c.err != ERR_BDM64 || !m.intx)
			return false;
		u64 t = m.fresh(r);
		if (!m.rel(0x0f, 0x85, false, t, ptic_cond_jump))
			return false;
		u64 nx = m.ip + m.ins.back().size;
		m.garbage.push_back(s == S_BJT ? nx : t);
		m.ip = s == S_BJT ? t : nx;
		m.bit(s != S_BJT);
		return m.interrupt(0, false, false, false, true);
	}
	case S_BIJ:
	case S_BIC:
	case S_BCI:
	case S_BRT: {
		if (m.c.err != ERR_BDM64 || !m.intx)
			return false;
		u64 nx = m.ip + m.c.pfx + 2;
		bool ok = s == S_BIJ || s == S_BIC ? m.put({0xff, 0xe0}, ptic_jump) :
			  s == S_BCI ? m.put({0xff, 0xd0}, ptic_call) : m.put({0xc2, 0x08, 0x00}, ptic_return);
		if (!ok)
			return false;
		if (s == S_BCI) {
			m.pstack.push_back(nx);
			m.hwrs.push_back(nx);
			if (m.hwrs.size() > 64)
				m.hwrs.erase(m.hwrs.begin());
		}
		if (s == S_BRT) {
			if (m.pstack.size())
				m.pstack.pop_back();
			m.hwrs.clear();
		}
		u64 t = m.fresh(m.area(0));
		m.tip(wrong());
		m.ip = t;
		if (s == S_BIC) {
			m.pk(ppt_cbr, 13);
			m.fl(E(ptev_cbr, false, 13));
		}
		return m.interrupt(0, false, false, false, true);
	}
	/* SKD022: a FUP before the TIP.PGD of a VM entry that disables tracing */
	case S_VLD:
	case S_VRD:
	case S_VLE:
	case S_VLI: {
		if (m.c.err != ERR_SKD022 || mc_open())
			return false;
		if (s != S_VLE && !m.ipok())
			return false;
		u64 at = m.ip;
		if (!m.put({0x0f, 0x01, s == S_VRD ? 0xc3 : 0xc2}, ptic_far_return))
			return false;
		if (s == S_VLE) {
			m.pgd(0, 0, false);
			return true;
		}
		m.flush();
		m.ippk(ppt_fup, at);
		if (s == S_VLI) {
			u64 to = m.fresh(m.area(0));
			m.ippk(ppt_tip_pgd, to);
			m.ev(E(ptev_async_disabled, false, at, to));
			m.flow(E(ptev_disabled, false, to), m.n());
		} else {
			m.ipsup(ppt_tip_pgd);
			m.ev(E(ptev_async_disabled, true, at));
			m.flow(E(ptev_disabled, true), m.n());
		}
		m.off();
		m.resume = 0;
		m.have_resume = true;
		return true;
	}
	/* SKL014: TIP.PGD without the target of a direct branch out of the filter */
	case S_DJX:
	case S_CDX:
	case S_DJI: {
		if (m.c.err != ERR_SKL014 || m.mode == M16 || r == 2 || r == 1 || mc_open())
			return false;
		u64 t = REG[7] + (s == S_DJX ? 0 : s == S_CDX ? 0x50 : REGSZ - 1);
		if (!m.rel(0, s == S_CDX ? 0xe8 : 0xe9, false, t, s == S_CDX ? ptic_call : ptic_jump))
			return false;
		m.pgd(s == S_DJI ? t : 0, t);
		return true;
	}
	default:
		break;
	}
	switch (s) {
	case S_NOP:
		if (!m.put({0x90}, ptic_other))
			return false;
		m.ip += 1;
		return true;
	case S_NOP3:
		if (!m.put({0x0f, 0x1f, 0x00}, ptic_other))
			return false;
		m.ip += 3;
		return true;
	case S_JT:
	case S_JN: {
		u64 t = m.fresh(r);
		if (!m.rel(0x0f, 0x85, false, t, ptic_cond_jump))
			return false;
		int sz = m.ins.back().size;
		m.ip = s == S_JT ? t : m.ip + sz;
		m.bit(s == S_JT);
		return true;
	}
	case S_LT: /* the same branch back to the start of this region's code, taken or not */
	case S_LN: {
		if (!m.rel(0x0f, 0x82, false, REG[r], ptic_cond_jump))
			return false;
		m.ip = s == S_LT ? REG[r] : m.ip + m.ins.back().size;
		m.bit(s == S_LT);
		return true;
	}
	case S_JB: /* taken to the start of this region's code */
	case S_JS: {
		u64 t = REG[r];
		if (s == S_JS) /* a short jump over a hole */
			t = m.ip + m.c.pfx + 2 + 5;
		if (s == S_JB && !m.rel(0, 0x75, true, t, ptic_cond_jump))
			return false;
		if (s == S_JS && !m.rel(0, 0x72, true, t, ptic_cond_jump))
			return false;
		m.ip = t;
		m.bit(1);
		return true;
	}
	case S_DJ:
	case S_DJB: {
		u64 t = s == S_DJ ? m.fresh(r) : REG[r];
		if (!m.rel(0, 0xe9, false, t, ptic_jump))
			return false;
		m.ip = t;
		return true;
	}
	case S_IJ:
	case S_IJF:
	case S_IJB: {
		if (!m.put({0xff, 0xe0}, ptic_jump))
			return false;
		u64 t = s == S_IJB ? REG[r] : m.fresh(s == S_IJ ? m.area(0) : m.area(1));
		m.tip(t);
		return true;
	}
	case S_CD:
	case S_CZ: {
		u64 nx = m.ip + m.c.pfx + (m.mode == M16 ? 3 : 5);
		u64 t = s == S_CD ? m.fresh(r) : nx;
		if (!m.rel(0, 0xe8, false, t, ptic_call))
			return false;
		m.pstack.push_back(nx);
		if (s == S_CD) {
			m.hwrs.push_back(nx);
			if (m.hwrs.size() > 64)
				m.hwrs.erase(m.hwrs.begin());
		}
		m.ip = t;
		return true;
	}
	case S_CI: {
		u64 nx = m.ip + m.c.pfx + 2;
		if (!m.put({0xff, 0xd0}, ptic_call))
			return false;
		m.pstack.push_back(nx);
		m.hwrs.push_back(nx);
		if (m.hwrs.size() > 64)
			m.hwrs.erase(m.hwrs.begin());
		m.tip(m.fresh(m.area(1)));
		return true;
	}
	case S_RM: {
		if (m.pstack.empty())
			return false;
		u64 t = m.pstack.back();
		if (!m.put({0xc3}, ptic_return))
			return false;
		m.pstack.pop_back();
		if (m.c.retc && m.hwrs.size() && m.hwrs.back() == t) {
			m.hwrs.pop_back();
			m.ip = t;
			m.bit(1);
		} else {
			m.hwrs.clear();
			m.tip(t);
		}
		return true;
	}
	case S_RX: {
		if (!m.put({0xc2, 0x08, 0x00}, ptic_return))
			return false;
		if (m.pstack.size())
			m.pstack.pop_back();
		m.hwrs.clear();
		m.tip(m.fresh(m.area(0)));
		return true;
	}
	case S_SC:
	case S_SCP: {
		if (m.mode != M64)
			return false;
		if (!m.put({0x0f, 0x05}, ptic_far_call))
			return false;
		if (s == S_SCP) {
			m.flush();
			m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
			m.pk(ppt_pip, m.cr3, m.nr);
			m.at(E(ptev_paging, false, m.cr3, m.nr));
		}
		m.tip(m.fresh(2));
		return true;
	}
	case S_SR: {
		if (m.mode != M64 || !m.put({0x0f, 0x07}, ptic_far_return))
			return false;
		m.tip(m.fresh(0));
		return true;
	}
	case S_INT: {
		if (!m.put({0xcd, 0x80}, ptic_far_call))
			return false;
		m.tip(m.fresh(m.area(1)));
		return true;
	}
	case S_IRET: {
		if (m.mode == M64 ? !m.put({0x48, 0xcf}, ptic_far_return) :
				    !m.put({0xcf}, ptic_far_return))
			return false;
		m.tip(m.fresh(m.area(0)));
		return true;
	}
	case S_FJM: { /* far jump with a mode change */
		if (!m.put({0xff, 0x28}, ptic_far_jump))
			return false;
		int nm = m.mode == M64 ? M32 : m.mode == M32 ? M16 : M64;
		m.flush();
		m.mode = nm;
		m.pstack.clear();
		m.hwrs.clear();
		m.mode_pk(nm, m.iflag);
		Ev e[2];
		int k = m.mode_ev(nm, m.iflag, e);
		bool d = m.c.defer;
		m.c.defer = false;
		m.tip(m.fresh(m.area(0)));
		m.c.defer = d;
		for (int i = 0; i < k; i++) {
			e[i].a[0] = m.ip;
			m.at(e[i]);
		}
		return true;
	}
	case S_FC: {
		if (!m.put({0xff, 0x18}, ptic_far_call))
			return false;
		m.tip(m.fresh(m.area(1)));
		return true;
	}
	case S_MC: {
		if (!m.put({0x0f, 0x22, 0xd8}, ptic_other))
			return false;
		m.flush();
		m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
		m.pk(ppt_pip, m.cr3, m.nr);
		m.ip += 3;
		m.at(E(ptev_paging, false, m.cr3, m.nr));
		return true;
	}
	case S_PW: {
		if (!m.put({0xf3, 0x0f, 0xae, 0xe0}, ptic_ptwrite))
			return false;
		m.flush();
		m.pk(ppt_ptw, 0x99aabbccddeeff00ull, 1, 0);
		m.ip += 4;
		m.at(E(ptev_ptwrite, true, 0, 8, 0x99aabbccddeeff00ull));
		return true;
	}
	case S_PWI: {
		if (!m.ipok())
			return false;
		u64 cl = m.ip;
		if (!m.put({0xf3, 0x0f, 0xae, 0xe0}, ptic_ptwrite))
			return false;
		m.flush();
		m.pk(ppt_ptw, 0x12345678, 0, 1);
		m.ippk(ppt_fup, cl);
		m.ip += 4;
		m.at(E(ptev_ptwrite, false, cl, 4, 0x12345678));
		m.anchor_ok = false; /* counted from the FUP, not used here */
		return true;
	}
	case S_XB: {
		if (m.intx || m.mode == M16)
			return false;
		u64 save = m.ip;
		if (!m.rel(0xc7, 0xf8, false, REG[r] + 0x800, ptic_other))
			return false;
		m.ip = save + m.ins.back().size;
		if (!m.ipok())
			return false;
		m.flush();
		m.intx = true;
		m.pk(ppt_mode, 1, 1, 0);
		m.ippk(ppt_fup, m.ip);
		m.at(E(ptev_tsx, false, m.ip, 1, 0));
		m.anch();
		return true;
	}
	case S_XE: {
		if (!m.intx || !m.put({0x0f, 0x01, 0xd5}, ptic_other))
			return false;
		m.ip += 3;
		if (!m.ipok())
			return false;
		m.flush();
		m.intx = false;
		m.pk(ppt_mode, 1, 0, 0);
		m.ippk(ppt_fup, m.ip);
		m.at(E(ptev_tsx, false, m.ip, 0, 0));
		m.anch();
		return true;
	}
	case S_VMP: {
		if (!m.put({0x0f, 0xc7, 0x30}, ptic_other))
			return false;
		m.flush();
		m.vmcs = m.vmcs == 0xa123456789000 ? 0x5fffedcba9000 : 0xa123456789000;
		m.pk(ppt_vmcs, m.vmcs);
		m.ip += 3;
		m.at(E(ptev_vmcs, false, m.vmcs));
		return true;
	}
	case S_VML: {
		if (!m.put({0x0f, 0x01, 0xc2}, ptic_far_return))
			return false;
		m.flush();
		/* both orders of the packets, in turns */
		const bool turn = m.vmcs == 0x8456000;
		m.vmcs = turn ? 0x7ba9000789000 : 0x8456000;
		m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
		m.nr = true;
		for (int w = 0; w < 2; w++)
			if ((w == 0) ^ turn) {
				m.pk(ppt_vmcs, m.vmcs);
				m.at(E(ptev_vmcs, false, m.vmcs));
			} else {
				m.pk(ppt_pip, m.cr3, 1);
				m.at(E(ptev_paging, false, m.cr3, 1));
			}
		m.tip(m.fresh(m.area(1)));
		return true;
	}
	case S_MW: {
		m.flush();
		m.pk(ppt_mwait, 0x60, 1);
		m.pk(ppt_pwre, 6, 0, 0);
		m.fl(E(ptev_pwre, false, 6, 0, 0));
		m.pk(ppt_exstop, 0);
		m.fl(E(ptev_mwait, true, 0, 0x60, 1));
		m.fl(E(ptev_exstop, true));
		m.pk(ppt_pwrx, 3, 3, 0, 1, 0);
		m.fl(E(ptev_pwrx, false, 3, 3, 0, 1, 0));
		if (!m.put({0x0f, 0x01, 0xc9}, ptic_other))
			return false;
		m.ip += 3;
		return true;
	}
	case S_MWI: {
		if (!m.ipok())
			return false;
		m.flush();
		m.pk(ppt_mwait, 0x20, 0);
		m.pk(ppt_pwre, 2, 0, 0);
		m.fl(E(ptev_pwre, false, 2, 0, 0));
		m.pk(ppt_exstop, 1);
		m.ippk(ppt_fup, m.ip);
		m.at(E(ptev_mwait, false, m.ip, 0x20, 0));
		m.at(E(ptev_exstop, false, m.ip));
		m.anch();
		m.pk(ppt_pwrx, 2, 2, 1, 0, 0);
		m.at(E(ptev_pwrx, false, 2, 2, 1, 0, 0));
		if (!m.put({0x0f, 0x01, 0xc9}, ptic_other))
			return false;
		m.ip += 3;
		return true;
	}
	case S_STI: { /* sti: the interrupt flag changes */
		if (!m.c.iflags || !m.put({0xfb}, ptic_other))
			return false;
		m.ip += 1;
		if (!m.ipok())
			return false;
		m.flush();
		m.iflag = !m.iflag;
		m.mode_pk(m.mode, m.iflag);
		m.ippk(ppt_fup, m.ip);
		Ev e[2];
		int k = m.mode_ev(m.mode, m.iflag, e);
		for (int i = 0; i < k; i++) {
			e[i].a[0] = m.ip;
			m.at(e[i]);
		}
		m.anch();
		return true;
	}
	case S_A:
		return m.interrupt(1, false, false, false, false);
	case S_AP:
		return m.interrupt(1, true, false, false, false);
	case S_AV:
		return m.interrupt(1, true, true, false, false, 1);
	case S_AM:
		return m.interrupt(0, false, false, true, false);
	case S_AVM:
		return m.interrupt(0, true, true, true, false, 3);
	case S_TA:
		if (!m.intx)
			return false;
		return m.interrupt(0, false, false, false, true);
	case S_AD:
	case S_ADT:
	case S_ADM: {
		if (!m.ipok())
			return false;
		m.flush();
		m.ippk(ppt_fup, m.ip);
		u64 from = m.ip;
		Ev e[2];
		int k = 0;
		if (s == S_ADM) {
			m.iflag = !m.iflag;
			m.mode_pk(m.mode, m.iflag);
			k = m.mode_ev(m.mode, m.iflag, e);
		}
		if (s == S_AD) {
			m.ipsup(ppt_tip_pgd);
			m.at(E(ptev_async_disabled, true, from));
		} else {
			u64 t = REG[7] + 0x10;
			m.ippk(ppt_tip_pgd, t);
			m.at(E(ptev_async_disabled, false, from, t));
		}
		m.adis.push_back(from);
		m.off();
		for (int i = 0; i < k; i++) {
			e[i].ips = true;
			m.at(e[i]);
		}
		m.resume = from;
		m.have_resume = true;
		return true;
	}
	case S_SCD: {
		if (m.mode != M64)
			return false;
		/* Ambiguous after MOV CR3, which may disable tracing as well. */
		for (int j = m.lo > m.buffered_hi ? m.lo : m.buffered_hi; j < m.n(); j++)
			if (m.ins[j].raw[0] == 0x0f && m.ins[j].raw[1] == 0x22)
				return false;
		if (!m.put({0x0f, 0x05}, ptic_far_call))
			return false;
		m.pgd(0, m.ip + 2);
		return true;
	}
	case S_MCD: {
		if (!m.put({0x0f, 0x22, 0xd8}, ptic_other))
			return false;
		m.flush();
		m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
		m.pk(ppt_pip, m.cr3, m.nr);
		m.at(E(ptev_paging, false, m.cr3, m.nr));
		m.pgd(0, m.ip + 3);
		return true;
	}
	case S_JTD: {
		if (m.mode == M16 || m.region() == 2 || m.region() == 1)
			return false;
		if (!m.rel(0x0f, 0x84, false, REG[7] + 0x20, ptic_cond_jump))
			return false;
		m.pgd(REG[7] + 0x20, 0, false);
		return true;
	}
	case S_DJD: {
		if (m.mode == M16 || m.region() == 2 || m.region() == 1)
			return false;
		u64 t = REG[7] + 0x30;
		if (!m.rel(0, 0xe9, false, t, ptic_jump))
			return false;
		m.pgd(t, t);
		return true;
	}
	case S_IJD: {
		if (!m.put({0xff, 0xe0}, ptic_jump))
			return false;
		m.pgd(REG[7] + 0x40, 0, false);
		return true;
	}
	case S_CDD: {
		if (m.mode == M16 || m.region() == 2 || m.region() == 1)
			return false;
		u64 t = REG[7] + 0x50;
		if (!m.rel(0, 0xe8, false, t, ptic_call))
			return false;
		m.pgd(t, t);
		return true;
	}
	case S_CID: {
		if (!m.put({0xff, 0xd0}, ptic_call))
			return false;
		m.pgd(REG[7] + 0x60, m.ip + m.c.pfx + 2);
		return true;
	}
	case S_RD: {
		if (!m.put({0xc3}, ptic_return))
			return false;
		if (m.pstack.size())
			m.pstack.pop_back();
		m.pgd(REG[7] + 0x70, 0, false);
		return true;
	}
	case S_OF:
		m.overflow(true, true, m.ip);
		return true;
	case S_EI:
	case S_EIR:
	case S_EPF: {
		/* an interrupt with event tracing */
		if (!m.ipok())
			return false;
		m.flush();
		if (s == S_EPF)
			m.pk(ppt_evd, pt_evd_cr2, 0xdead0000beefull);
		m.pk(ppt_cfe, pt_cfe_intr, s == S_EPF ? 14 : 0x20, s == S_EIR);
		u64 from = m.ip;
		m.ippk(ppt_fup, from);
		m.at(E(ptev_interrupt, false, from, s == S_EPF ? 14 : 0x20, s == S_EPF,
		       s == S_EPF ? 0xdead0000beefull : 0));
		m.anch();
		if (s == S_EIR)
			return true; /* no branch: handled elsewhere */
		u64 to = m.fresh(m.area(1));
		m.ippk(ppt_tip, to);
		m.at(E(ptev_async_branch, false, from, to));
		m.ip = to;
		m.lo = m.n();
		m.anch();
		return true;
	}
	case S_EIRT: {
		/* iret with event tracing */
		if (!m.ipok())
			return false;
		u64 cl = m.ip;
		if (m.mode == M64 ? !m.put({0x48, 0xcf}, ptic_far_return) :
				    !m.put({0xcf}, ptic_far_return))
			return false;
		m.flush();
		m.pk(ppt_cfe, pt_cfe_iret, 0, 1);
		m.ippk(ppt_fup, cl);
		m.at(E(ptev_iret, false, cl));
		m.tip(m.fresh(m.area(0)));
		return true;
	}
	case S_EVE: {
		/* vmlaunch with event tracing */
		if (!m.ipok())
			return false;
		u64 cl = m.ip;
		if (!m.put({0x0f, 0x01, 0xc2}, ptic_far_return))
			return false;
		m.flush();
		m.pk(ppt_cfe, pt_cfe_vmentry, 0, 1);
		m.ippk(ppt_fup, cl);
		m.at(E(ptev_vmentry, false, cl));
		m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
		m.nr = true;
		m.pk(ppt_pip, m.cr3, 1);
		m.at(E(ptev_paging, false, m.cr3, 1));
		m.tip(m.fresh(m.area(1)));
		return true;
	}
	case S_EVX: {
		/* vmexit with event tracing, with reason and qualification */
		if (!m.ipok())
			return false;
		m.flush();
		m.pk(ppt_evd, pt_evd_vmxr, 0x12);
		m.pk(ppt_evd, pt_evd_vmxq, 0x3456);
		m.pk(ppt_cfe, pt_cfe_vmexit, 0, 0);
		u64 from = m.ip;
		m.ippk(ppt_fup, from);
		m.at(E(ptev_vmexit, false, from, 0, 1, 1, 0, 0x12, 0x3456));
		m.nr = false;
		m.cr3 = m.cr3 == CR3A ? CR3B : CR3A;
		m.pk(ppt_pip, m.cr3, 0);
		u64 to = m.fresh(m.area(1));
		m.ippk(ppt_tip, to);
		m.at(E(ptev_async_branch, false, from, to));
		m.ip = to;
		m.at(E(ptev_async_paging, false, m.cr3, 0, to));
		m.lo = m.n();
		m.anch();
		return true;
	}
	case S_UI: {
		/* user interrupt delivery and return */
		if (!m.ipok() || m.mode != M64)
			return false;
		m.flush();
		m.pk(ppt_cfe, pt_cfe_uintr, 5, 0);
		u64 from = m.ip;
		m.ippk(ppt_fup, from);
		m.at(E(ptev_uintr, false, from, 5));
		u64 to = m.fresh(0);
		m.ippk(ppt_tip, to);
		m.at(E(ptev_async_branch, false, from, to));
		m.ip = to;
		m.lo = m.n();
		m.anch();
		if (!m.put({0xf3, 0x0f, 0x01, 0xec}, ptic_far_return))
			return false;
		m.pk(ppt_cfe, pt_cfe_uiret, 0, 0);
		m.at(E(ptev_uiret, true));
		m.tip(from);
		return true;
	}
	case S_TRI: {
		/* a trigger, located by an instruction count */
		if (!m.anchor_ok || !m.ipok())
			return false;
		m.flush();
		u64 cnt = (u64)(m.n() - m.anchor);
		m.pk(ppt_trig, 0, 1, 0, 0x9, cnt);
		m.ev(E(ptev_trig, false, 0, 0x9, 0, cnt));
		m.flow(E(ptev_trig, false, m.ip, 0x9, 0, 0), m.n());
		m.anch();
		m.anchor_ok = false; /* not an IP packet */
		return true;
	}
	case S_TRF: {
		if (!m.ipok())
			return false;
		m.flush();
		m.pk(ppt_trig, 1, 1, 1, 0x3, 0);
		m.ippk(ppt_fup, m.ip);
		m.at(E(ptev_trig, false, m.ip, 0x3, 1, 0));
		m.anch();
		return true;
	}
	default:
		return false;
	}
}

inline std::string steps_str(const std::vector<int> &s)
{
	std::string r;
	for (size_t i = 0, n; i < s.size(); i += n) {
		for (n = 1; i + n < s.size() && s[i + n] == s[i]; n++)
			;
		r += std::string(r.empty() ? "" : " ") + SNAME[s[i]];
		if (n > 1)
			r += vf::fmt(" (x%zu)", n);
	}
	return r;
}
} // namespace hw
