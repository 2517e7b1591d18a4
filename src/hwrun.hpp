// Runs the decoders on traces from the processor model and compares with the ground truth.
#pragma once
#include "hw.hpp"

namespace hw {

struct Env {
	uint8_t *mem = 0; /* the code, shared with the sections' file */
	std::string file;
	struct pt_image *image = 0;
	struct pt_image_section_cache *isc = 0;
	int isid[NREG] = {};
	std::vector<std::pair<size_t, size_t>> dirty;

	/* cached: the sections come from a section cache, i.e. have an identifier; a limit of zero
	 * drops the mapping and the block cache when a decoder is freed
	 */
	explicit Env(bool cached = false)
	{
		int fd = memfd_create("code", 0);
		size_t sz = (NREG - 1) * REGSZ;
		if (fd < 0 || ftruncate(fd, (off_t)sz))
			exit(3);
		mem = (uint8_t *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (mem == MAP_FAILED)
			exit(3);
		memset(mem, 0xcc, sz);
		file = vf::fmt("/proc/self/fd/%d", fd);
		image = pt_image_alloc(0);
		if (cached)
			pt_iscache_set_limit(isc = pt_iscache_alloc(0), 0);
		for (int r = 0; cached && r < NREG - 1; r++) {
			isid[r] = pt_iscache_add_file(isc, file.c_str(), (u64)r * REGSZ, REGSZ, REG[r]);
			if (isid[r] <= 0 || pt_image_add_cached(image, isc, isid[r], 0) < 0)
				exit(3);
		}
		for (int r = 0; !cached && r < NREG - 1; r++)
			if (pt_image_add_file(image, file.c_str(), (u64)r * REGSZ, REGSZ, 0, REG[r]) < 0)
				exit(3);
	}
	void load(const Machine &m)
	{
		for (auto &d : dirty)
			memset(mem + d.first, 0xcc, d.second);
		dirty.clear();
		for (auto &k : m.code) {
			for (int r = 0; r < NREG - 1; r++)
				if (k.ip - REG[r] < REGSZ) {
					size_t o = (size_t)r * REGSZ + (k.ip - REG[r]);
					memcpy(mem + o, k.b, k.len);
					dirty.push_back({o, k.len});
				}
		}
	}
};

inline void config(struct pt_config *c, const std::vector<uint8_t> &tr)
{
	pt_config_init(c);
	c->begin = const_cast<uint8_t *>(tr.data());
	c->end = c->begin + tr.size();
}

/* One element of an instruction flow. */
struct Tok {
	bool isev = false;
	Ev e;
	Insn i;
	int isid = 0;
	std::string str() const
	{
		if (isev)
			return "{" + e.str() + "}";
		return vf::fmt("%llx/%d", (unsigned long long)i.ip, i.size) +
		       (i.spec ? "*" : "") + (i.mode != M64 ? vf::fmt("m%d", i.mode) : "") +
		       vf::fmt("c%d", i.cls);
	}
	bool operator==(const Tok &o) const
	{
		if (isev != o.isev)
			return false;
		if (isev)
			return e == o.e;
		return i.ip == o.i.ip && i.size == o.i.size && i.cls == o.i.cls && i.mode == o.i.mode &&
		       i.spec == o.i.spec && !memcmp(i.raw, o.i.raw, i.size);
	}
};
struct Flow {
	std::vector<Tok> t;
	int err = 0;
	std::string str() const
	{
		std::string s;
		for (auto &k : t)
			s += k.str() + " ";
		return s + "=> " + vf::ename(err);
	}
	bool operator==(const Flow &o) const { return err == o.err && t == o.t; }
};
inline std::string diff(const Flow &got, const Flow &exp)
{
	size_t k = 0;
	while (k < got.t.size() && k < exp.t.size() && got.t[k] == exp.t[k])
		k++;
	return vf::fmt("differs at #%zu: got %s expected %s\n  got: ", k,
		       k < got.t.size() ? got.t[k].str().c_str() : vf::ename(got.err),
		       k < exp.t.size() ? exp.t[k].str().c_str() : vf::ename(exp.err)) +
	       got.str() + "\n  exp: " + exp.str();
}
/* The flow the machine went through. */
inline Flow truth(const Machine &m)
{
	Flow f;
	size_t e = 0;
	for (size_t i = 0; i <= m.ins.size(); i++) {
		while (e < m.fev.size() && m.fev[e].pos <= (int)i) {
			Tok t;
			t.isev = true;
			t.e = m.fev[e++].e;
			f.t.push_back(t);
		}
		if (i < m.ins.size()) {
			Tok t;
			t.i = m.ins[i];
			f.t.push_back(t);
		}
	}
	f.err = -pte_eos;
	return f;
}
inline int MAXTOK = 400;

inline Tok tok(const struct pt_event &e)
{
	Tok t;
	t.isev = true;
	t.e = flat(e);
	return t;
}
inline Tok tok(const struct pt_insn &n)
{
	Tok t;
	t.i.ip = n.ip;
	t.i.size = n.size;
	t.i.cls = (uint8_t)n.iclass;
	t.i.mode = (uint8_t)n.mode;
	t.i.spec = n.speculative;
	memcpy(t.i.raw, n.raw, sizeof(t.i.raw));
	t.isid = n.isid;
	return t;
}

/* Decode the instruction flow from the current position on; st: status of the sync. */
inline Flow insn_flow(struct pt_insn_decoder *d, int st, std::string *why = 0)
{
	Flow f;
	for (;;) {
		if (st < 0)
			break;
		while (st >= 0 && (st & pts_event_pending) && f.t.size() <= (size_t)MAXTOK) {
			struct pt_event e;
			memset(&e, 0, sizeof(e));
			st = pt_insn_event(d, &e, sizeof(e));
			if (st < 0)
				break;
			f.t.push_back(tok(e));
			if (f.t.size() > (size_t)MAXTOK)
				break;
		}
		if (st < 0 || f.t.size() > (size_t)MAXTOK)
			break;
		struct pt_insn n;
		memset(&n, 0, sizeof(n));
		int old = st;
		st = pt_insn_next(d, &n, sizeof(n));
		if (n.iclass != ptic_unknown)
			f.t.push_back(tok(n));
		if (why && (old & pts_ip_suppressed) && (st >= 0 || n.iclass != ptic_unknown))
			*why = "an instruction is returned although the status says that tracing is disabled";
		if (why && (old & pts_eos) && st >= 0 && (old & pts_ip_suppressed))
			*why = "more trace after the end of the trace was indicated";
	}
	f.err = f.t.size() > (size_t)MAXTOK ? -pte_overflow : st;
	return f;
}

inline bool in_region(u64 ip)
{
	for (int r = 0; r < NREG - 1; r++)
		if (ip - REG[r] < REGSZ)
			return true;
	return false;
}

/* Expand a block into instructions, using the machine's code. */
inline bool expand(const struct pt_block &b, const Machine &m, Flow &f, std::string *why,
		   struct pt_image *img)
{
	(void)img;
	u64 ip = b.ip;
	for (int i = 0; i < b.ninsn; i++) {
		if (f.t.size() > (size_t)MAXTOK)
			return true;
		const Code *k = 0;
		for (auto &c : m.code)
			if (c.ip == ip && c.mode == (uint8_t)b.mode)
				k = &c;
		Tok t;
		t.i.ip = ip;
		t.i.mode = (uint8_t)b.mode;
		t.i.spec = b.speculative;
		t.isid = b.isid;
		static const Code fill = {0, 1, 0, {0xcc}};
		if (!k && in_region(ip))
			k = &fill; /* the memory around the code is filled with INT3 */
		if (!k) {
			*why = vf::fmt("block at %llx: no instruction at %llx in mode %d",
				       (unsigned long long)b.ip, (unsigned long long)ip, b.mode);
			f.t.push_back(t);
			return false;
		}
		t.i.size = k->len;
		memcpy(t.i.raw, k->b, k->len);
		/* the class and the successor */
		u64 nx = ip + k->len;
		int cls = ptic_other;
		auto disp = [&](int at, int n) {
			u64 v = 0;
			for (int j = n - 1; j >= 0; j--)
				v = v << 8 | k->b[at + j];
			int sh = 64 - 8 * n;
			return (u64)((int64_t)(v << sh) >> sh);
		};
		const uint8_t *q = k->b;
		while (*q == 0x2e)
			q++;
		int np = (int)(q - k->b);
		if (q[0] == 0xe9 || q[0] == 0xe8) {
			cls = q[0] == 0xe9 ? ptic_jump : ptic_call;
			nx += disp(np + 1, k->len - np - 1);
		} else if (q[0] == 0x75 || q[0] == 0x72)
			cls = ptic_cond_jump, nx = ~0ull;
		else if (q[0] == 0x0f && (q[1] & 0xf0) == 0x80)
			cls = ptic_cond_jump, nx = ~0ull;
		else if (q[0] == 0xff) {
			cls = q[1] == 0xe0 ? ptic_jump : q[1] == 0xd0 ? ptic_call :
			      q[1] == 0x28 ? ptic_far_jump : ptic_far_call;
			nx = ~0ull;
		} else if (q[0] == 0xc3 || q[0] == 0xc2)
			cls = ptic_return, nx = ~0ull;
		else if ((q[0] == 0x0f && q[1] == 0x05) || q[0] == 0xcd || q[0] == 0xcc)
			cls = ptic_far_call, nx = ~0ull;
		else if ((q[0] == 0x0f && q[1] == 0x07) || q[0] == 0xcf || (q[0] == 0x48 && q[1] == 0xcf) ||
			 (q[0] == 0x0f && q[1] == 1 && (q[2] == 0xc2 || q[2] == 0xc3)) ||
			 (q[0] == 0xf3 && q[1] == 0x0f && q[2] == 1 && q[3] == 0xec))
			cls = ptic_far_return, nx = ~0ull;
		else if (q[0] == 0xf3 && q[1] == 0x0f && q[2] == 0xae)
			cls = ptic_ptwrite;
		t.i.cls = (uint8_t)cls;
		f.t.push_back(t);
		if (i + 1 == b.ninsn) {
			if (b.end_ip != ip)
				*why = vf::fmt("block at %llx with %d instructions ends at %llx, not %llx",
					       (unsigned long long)b.ip, b.ninsn, (unsigned long long)ip,
					       (unsigned long long)b.end_ip);
			/* the block decoder may provide a coarser class, or none */
			bool ind = cls >= ptic_far_call && cls <= ptic_far_jump;
			ind = ind || (cls == ptic_jump && q[0] == 0xff);
			if (b.iclass != (enum pt_insn_class)cls && b.iclass != ptic_unknown &&
			    !(b.iclass == ptic_indirect && ind))
				*why = vf::fmt("block ending at %llx has class %d, not %d",
					       (unsigned long long)ip, b.iclass, cls);
			if (b.truncated &&
			    (b.size != k->len || memcmp(b.raw, k->b, k->len)))
				*why = "raw bytes of the truncated last instruction are wrong";
		} else if (nx == ~0ull) {
			*why = vf::fmt("block at %llx continues after the branch at %llx",
				       (unsigned long long)b.ip, (unsigned long long)ip);
			return false;
		}
		ip = nx;
	}
	return true;
}

inline Flow blk_flow(struct pt_block_decoder *d, int st, const Machine &m, std::string *why,
		     std::vector<struct pt_block> *blocks = 0)
{
	Flow f;
	for (;;) {
		if (st < 0)
			break;
		while (st >= 0 && (st & pts_event_pending) && f.t.size() <= (size_t)MAXTOK) {
			struct pt_event e;
			memset(&e, 0, sizeof(e));
			st = pt_blk_event(d, &e, sizeof(e));
			if (st < 0)
				break;
			f.t.push_back(tok(e));
			if (f.t.size() > (size_t)MAXTOK)
				break;
		}
		if (st < 0 || f.t.size() > (size_t)MAXTOK)
			break;
		struct pt_block b;
		memset(&b, 0, sizeof(b));
		int old = st;
		st = pt_blk_next(d, &b, sizeof(b));
		if (b.ninsn) {
			if (blocks)
				blocks->push_back(b);
			if (!expand(b, m, f, why, 0)) {
				st = -pte_internal;
				break;
			}
		}
		if ((old & pts_ip_suppressed) && b.ninsn)
			*why = "a block is returned although the status says that tracing is disabled";
	}
	f.err = f.t.size() > (size_t)MAXTOK ? -pte_overflow : st;
	return f;
}

/* Every instruction names the section it was read from. */
inline std::string isids(const Flow &f, const Env *env)
{
	for (auto &t : f.t)
		for (int r = 0; !t.isev && r < NREG - 1; r++)
			if (t.i.ip - REG[r] < REGSZ && t.isid != env->isid[r])
				return vf::fmt("instruction at %llx: section identifier %d, not %d  ",
					       (unsigned long long)t.i.ip, t.isid, env->isid[r]);
	return "";
}

/* Enumerate all step sequences up to a depth from an alphabet, sharing prefixes. */
struct Walker {
	std::vector<int> alpha;
	int depth = 0;
	Cfg cfg;
	bool start_enabled = true;
	std::vector<int> prefix;
	std::function<void(const Machine &, const std::vector<int> &)> visit;
	uint64_t nodes = 0, edges = 0;
	uint64_t unit = 0;
	std::vector<int> path;

	void rec(const Machine &m, int d)
	{
		if (vf::late())
			return;
		nodes++;
		visit(m, path);
		if (d == depth)
			return;
		for (int s : alpha) {
			if (d == 1 || (depth == 1 && d == 0)) {
				if (!vf::mine(unit++))
					continue;
			}
			Machine c = m;
			if (!step(c, s))
				continue;
			edges++;
			path.push_back(s);
			rec(c, d + 1);
			path.pop_back();
		}
	}
	void run()
	{
		Machine m;
		m.reset(cfg);
		m.begin(start_enabled);
		path.clear();
		for (int s : prefix) {
			if (!step(m, s)) {
				vf::errors.push_back("bad prefix: " + steps_str(prefix));
				return;
			}
			path.push_back(s);
		}
		if (prefix.size())
			m.slots[m.region()] = (int)((m.ip - REG[m.region()]) / SLOT) + 2;
		rec(m, 0);
	}
};

/* Alphabets, by theme. */
inline std::vector<int> all_steps()
{
	std::vector<int> v;
	for (int i = 0; i < NSTEP; i++)
		v.push_back(i);
	return v;
}
static const std::vector<int> T_BRANCH = {S_NOP, S_JT, S_JN, S_JS, S_DJ, S_IJ, S_IJF, S_CD, S_CZ, S_CI, S_RM,
	S_RX, S_CB, S_PS, S_LT, S_LN};
static const std::vector<int> T_ENABLE = {S_NOP, S_JT, S_IJ, S_CI, S_AD, S_ADT, S_SCD, S_JTD, S_DJD, S_IJD,
	S_CID, S_RD, S_PGE, S_PGR, S_STOP, S_PS, S_CD, S_RM};
static const std::vector<int> T_SYSTEM = {S_NOP, S_JN, S_SC, S_SCP, S_MC, S_MCD, S_VMP, S_VML, S_AP, S_AV,
	S_PGE, S_PGR, S_DPI, S_DVM, S_PS, S_IRET};
static const std::vector<int> T_MODE = {S_NOP, S_JN, S_FJM, S_AM, S_AVM, S_STI, S_XB, S_XE, S_TA, S_AD, S_PGE,
	S_PGM, S_PGX, S_ADM, S_PS, S_OF};
static const std::vector<int> T_OVF = {S_NOP, S_JT, S_IJ, S_CD, S_RM, S_A, S_XB, S_OF, S_OFF, S_OD, S_PGE,
	S_PGM, S_PS, S_CB, S_AD, S_DTX};
static const std::vector<int> T_POWER = {S_NOP, S_JT, S_IJ, S_PW, S_PWI, S_MW, S_MWI, S_CB, S_CBF, S_MN, S_AD,
	S_PGE, S_DPW, S_DEX, S_PS};
static const std::vector<int> T_EVENT = {S_NOP, S_JT, S_IJ, S_EI, S_EPF, S_EIRT, S_EVX, S_EVE, S_UI, S_TRI, S_TRF,
	S_TRN, S_AD, S_PGE, S_DEI, S_DVX, S_STI, S_A, S_OF};
struct Theme {
	const char *name;
	const std::vector<int> *steps;
};
static const Theme THEMES[] = {{"branches", &T_BRANCH}, {"enable", &T_ENABLE}, {"system", &T_SYSTEM},
	{"mode", &T_MODE}, {"overflow", &T_OVF}, {"power", &T_POWER}, {"event", &T_EVENT}};

/* Long prefixes: call chains around the depth of the return stack, and straight-line code, once or twice,
 * around the limits of the block cache.
 */
struct Deep {
	int step, n, rounds;
};
static const std::vector<Deep> DEEP = {{S_CD, 62, 1}, {S_CD, 63, 1}, {S_CD, 64, 1}, {S_CD, 65, 1}, {S_CD, 66, 1},
	{S_CI, 64, 1}, {S_CI, 65, 1}, {S_CD, 129, 1}, {S_NOP, 254, 1}, {S_NOP, 255, 1}, {S_NOP, 256, 1},
	{S_NOP, 257, 1}, {S_NOP, 254, 2}, {S_NOP, 255, 2}, {S_NOP, 256, 2}, {S_NOP, 257, 2}, {S_NOP, 1023, 2},
	{S_NOP, 1024, 2}, {S_NOP, 1025, 2}, {S_NOP, 1026, 2}, {S_NOP, 2049, 3}};
static const std::vector<int> T_DEEP = {S_NOP, S_JT, S_JN, S_DJ, S_IJ, S_CD, S_CI, S_RM, S_A, S_AD, S_CB, S_OF,
	S_PS, S_PW, S_PWI, S_TRI};
template <class W> void deep(W &w, int depth, int ncfg);

inline std::vector<Cfg> cfgs()
{
	std::vector<Cfg> v;
	auto add = [&](int tnt, bool t64, bool def, bool rc, int ipc, int psb, bool ifl, bool pad) {
		Cfg c;
		c.tntmax = tnt; c.tnt64 = t64; c.defer = def; c.retc = rc; c.ipc = ipc;
		c.psbvar = psb; c.iflags = ifl; c.pad = pad;
		v.push_back(c);
	};
	add(6, false, false, true, 0, 0, false, false);
	add(1, false, false, true, 3, 1, true, false);
	add(47, true, true, true, 1, 2, false, false);
	add(3, false, true, false, 2, 3, true, true);
	add(2, true, false, true, 3, 3, false, true);
	add(47, false, true, true, 3, 1, true, false);
	/* long branches; not part of the regular configurations */
	add(6, false, false, true, 0, 0, false, false);
	v.back().pfx = 7;
	add(6, false, false, true, 0, 0, false, false);
	v.back().pfx = 5;
	return v;
}

template <class W> void deep(W &w, int depth, int ncfg)
{
	auto visit = w.visit;
	MAXTOK = 20000;
	w.alpha = T_DEEP;
	w.depth = depth;
	w.start_enabled = true;
	auto cs = cfgs();
	for (int i = 0; i < ncfg; i++)
		for (auto &d : DEEP) {
			w.cfg = cs[i];
			w.prefix.clear();
			for (int r = 0; r < d.rounds; r++) {
				for (int k = 0; k < d.n; k++)
					w.prefix.push_back(d.step);
				if (d.rounds > 1)
					w.prefix.push_back(r + 1 < d.rounds ? S_LT : S_LN);
			}
			w.visit = [&](const Machine &m, const std::vector<int> &path) {
				visit(m, path);
				Machine c = m;
				std::vector<int> p = path;
				while (c.pstack.size() && step(c, S_RM))
					p.push_back(S_RM);
				if (p.size() > path.size())
					visit(c, p);
			};
			w.run();
		}
	w.visit = visit;
	w.prefix.clear();
}
} // namespace hw

namespace hw {
/* The event decoder's events from the current position on. */
inline std::vector<Ev> evt_events(struct pt_event_decoder *d, int st, int *end)
{
	std::vector<Ev> v;
	while (st >= 0 && v.size() <= (size_t)MAXTOK) {
		struct pt_event e;
		st = pt_evt_next(d, &e, sizeof(e));
		if (st >= 0)
			v.push_back(flat(e));
	}
	*end = st;
	return v;
}
inline std::string evs(const std::vector<Ev> &v)
{
	std::string s;
	for (auto &e : v)
		s += e.str() + " ";
	return s;
}
inline std::string evdiff(const std::vector<Ev> &got, const std::vector<Ev> &exp)
{
	size_t k = 0;
	while (k < got.size() && k < exp.size() && got[k] == exp[k])
		k++;
	return vf::fmt(" differs at #%zu\n  got: ", k) + evs(got) + "\n  exp: " + evs(exp);
}

/* Replay the execution (from the instruction, event, and flow event given) through the query decoder.
 * With wrong queries before each right one, if asked for.
 */
struct QReplay {
	struct pt_query_decoder *d;
	const Machine &m;
	bool wrong;
	bool enmask = false;
	uint64_t queries = 0, refused = 0;
	std::string log;
	std::string bad(const std::string &s) { return s + "\n  queries: " + log; }

	/* what was refused must not change the time */
	struct T {
		int rc;
		uint64_t t;
		uint32_t m, c;
	};
	T now()
	{
		T t = {0, 0, 0, 0};
		t.rc = pt_qry_time(d, &t.t, &t.m, &t.c);
		return t;
	}
	/* k: 0 cond, 1 indirect, 2 event: none may be answered */
	std::string refuse(int k)
	{
		int rc, taken = 77;
		uint64_t ip = 0x7777;
		struct pt_event e;
		memset(&e, 0x77, sizeof(e));
		struct pt_event e0 = e;
		T a = now();
		refused++;
		if (k == 0)
			rc = pt_qry_cond_branch(d, &taken);
		else if (k == 1)
			rc = pt_qry_indirect_branch(d, &ip);
		else
			rc = pt_qry_event(d, &e, sizeof(e));
		static const char *const N[] = {"cond", "indirect", "event"};
		if (rc >= 0)
			return vf::fmt("the wrong %s query is answered with %d", N[k], rc);
		if (rc != -pte_bad_query && rc != -pte_eos)
			return vf::fmt("the wrong %s query is refused with %s", N[k], vf::ename(rc));
		if (taken != 77 || ip != 0x7777 || memcmp(&e, &e0, sizeof(e)))
			return vf::fmt("the refused %s query writes a result", N[k]);
		T b = now();
		if (a.rc != b.rc || a.t != b.t || a.m != b.m || a.c != b.c)
			return vf::fmt("the refused %s query changes the time", N[k]);
		return "";
	}
	std::string run(int st, size_t i0, size_t e0, size_t f0, bool strict_start = true)
	{
		/* all events but tip and tnt */
		std::vector<Ev> ev;
		for (size_t i = e0; i < m.evl.size(); i++)
			if (m.evl[i].type != ptev_tip && m.evl[i].type != ptev_tnt)
				ev.push_back(m.evl[i]);
		if (m.fev.size() - f0 != ev.size())
			return "model: events do not match";
		size_t e = 0;
		(void)strict_start;
		int u = 0;
		for (size_t i = 0; i < i0; i++)
			u += m.ins[i].use != 0;
		for (size_t i = i0; i <= m.ins.size(); i++) {
			if (i < m.ins.size() && !m.ins[i].use)
				continue;
			while (e < ev.size() && m.fev[f0 + e].nu <= u) {
				/* not before all branches up to here were asked for */
				if (st < 0)
					return bad(vf::fmt("%s instead of event ", vf::ename(st)) + ev[e].str());
				if (!(st & pts_event_pending))
					return bad(vf::fmt("status %x before event ", st) + ev[e].str());
				if (st & pts_eos)
					return bad("end of trace indicated before event " + ev[e].str());
				if (wrong) {
					for (int r = 0; r < 2; r++) {
						auto s = refuse(0);
						if (s.size())
							return bad(s + " before event " + ev[e].str());
						s = refuse(1);
						if (s.size())
							return bad(s + " before event " + ev[e].str());
					}
				}
				struct pt_event x;
				memset(&x, 0, sizeof(x));
				st = pt_qry_event(d, &x, sizeof(x));
				queries++;
				log += "event ";
				if (st < 0)
					return bad(vf::fmt("%s instead of event ", vf::ename(st)) + ev[e].str());
				Ev g = flat(x), w = ev[e];
				if (!(g == w))
					return bad("got event " + g.str() + " instead of " + w.str());
				e++;
			}
			if (i == m.ins.size())
				break;
			const Insn &n = m.ins[i];
			u++;
			if (st < 0)
				return bad(vf::fmt("%s instead of the branch at %llx", vf::ename(st),
						   (unsigned long long)n.ip));
			if (st & pts_event_pending)
				return bad(vf::fmt("an event is indicated before the branch at %llx",
						   (unsigned long long)n.ip));
			if (st & pts_eos)
				return bad(vf::fmt("the end of the trace is indicated before the branch at %llx",
						   (unsigned long long)n.ip));
			if (wrong) {
				auto s = refuse(2);
				int left = e < ev.size() ? m.fev[f0 + e].nu - u : 1 << 30;
				if (s.empty() && n.use == 2 && !near(i, 1, left))
					s = refuse(0);
				if (s.empty() && n.use == 1 && !near(i, 2, left))
					s = refuse(1);
				if (s.size())
					return bad(s + vf::fmt(" before the branch at %llx",
							       (unsigned long long)n.ip));
			}
			queries++;
			if (n.use == 1) {
				int taken = -1;
				st = pt_qry_cond_branch(d, &taken);
				log += vf::fmt("cond=%d ", taken);
				if (st < 0)
					return bad(vf::fmt("%s instead of outcome %d at %llx", vf::ename(st), n.taken,
							   (unsigned long long)n.ip));
				if (taken != n.taken)
					return bad(vf::fmt("outcome %d instead of %d at %llx", taken, n.taken,
							   (unsigned long long)n.ip));
			} else {
				uint64_t ip = 0;
				st = pt_qry_indirect_branch(d, &ip);
				log += vf::fmt("ind=%llx ", (unsigned long long)ip);
				if (st < 0)
					return bad(vf::fmt("%s instead of target %llx", vf::ename(st),
							   (unsigned long long)n.tip));
				if (ip != n.tip || (st & pts_ip_suppressed))
					return bad(vf::fmt("target %llx instead of %llx", (unsigned long long)ip,
							   (unsigned long long)n.tip));
			}
		}
		if (e < ev.size())
			return bad("no more branches, but event " + ev[e].str() + " is missing");
		/* the end */
		if (st < 0)
			return bad(vf::fmt("%s at the end", vf::ename(st)));
		if (!(st & pts_eos) || (st & pts_event_pending))
			return bad(vf::fmt("status %x at the end", st));
		for (int r = 0; r < 2; r++)
			for (int k = 0; k < 3; k++) {
				auto s = refuse(k);
				if (s.size())
					return bad(s + " at the end");
			}
		return "";
	}
	/* Is there a branch of that kind among the next ones before the next event?  It may be deferred, so that
	 * both queries are legitimate.
	 */
	bool near(size_t i, int use, int left) const
	{
		for (size_t j = i + 1; j < m.ins.size() && left > 0; j++) {
			if (m.ins[j].use == use)
				return true;
			left -= m.ins[j].use != 0;
		}
		return false;
	}
};
} // namespace hw
