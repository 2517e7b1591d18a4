// C21: sideband attributes code to the process that ran it.
#include "common.hpp"
#ifdef LEAKS
#include "env.hpp"
#endif
#include <memory>
extern "C" {
#include "libipt-sb.h"
int pt_image_read(struct pt_image *image, int *isid, uint8_t *buffer, uint16_t size, const struct pt_asid *asid, uint64_t addr);
}
using namespace vf;
typedef std::vector<uint8_t> Bytes;

/* ---- Files. ---- */
static const uint64_t KERN = 0xffffffff80000000ull, G = 0x100;
static const size_t FSZ = 0x500;
enum { FA, FB, FC, FK, FV64, FVX32, FV32, FI64, FIX32, FI32, FBADV, FHUGEPH, NFILE };
static const char *fname[NFILE] = {"fa", "fb", "fc", "fk", "v64", "vx32", "v32", "i64", "ix32", "i32", "badv", "trunc"};
static uint8_t fbyte(int f, size_t o) { return (uint8_t)(f * 37 + (o >> 8) * 5 + (o & 0xff) * 3 + 1); }
static std::string fpath(int f) { return opt.scratch + "/" + fname[f]; }
static void putf(const std::string &p, const Bytes &b)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) {
		fprintf(stderr, "cannot write %s\n", p.c_str());
		exit(3);
	}
	close(fd);
}
enum Abi { aunk, a64, ax32, a32 };
static Abi fabi(int f) { return f == FI64 ? a64 : f == FIX32 ? ax32 : f == FI32 ? a32 : aunk; }
static void mkfiles()
{
	for (int f = 0; f < NFILE; f++) {
		Bytes b(FSZ);
		for (size_t i = 0; i < FSZ; i++)
			b[i] = fbyte(f, i);
		if (f >= FI64 && f <= FBADV) {
			static const uint8_t id[7] = {0x7f, 'E', 'L', 'F', 2, 1, 1};
			memcpy(b.data(), id, 7);
			b[4] = f == FI64 || f == FBADV ? 2 : 1;
			if (f == FBADV)
				b[6] = 0;
			b[18] = f == FI32 ? 3 : 62;
			b[19] = 0;
		}
		if (f == FHUGEPH) {
			/* An ELF file that ends in its identification. */
			static const uint8_t id[6] = {0x7f, 'E', 'L', 'F', 1, 1};
			b.assign(id, id + 6);
		}
		putf(fpath(f), b);
	}
	mkdir((opt.scratch + "/root").c_str(), 0700);
	Bytes b(FSZ);
	for (size_t i = 0; i < FSZ; i++)
		b[i] = fbyte(FC + 20, i);
	putf(opt.scratch + "/root/x", b);
}

/* ---- Records. ---- */
static void put(Bytes &b, uint64_t v, int n)
{
	for (int i = 0; i < n; i++)
		b.push_back((uint8_t)(v >> (8 * i)));
}
enum Kind { Start, Fork, Comm, Switch, Cpu, Mmap, Mmap2, Lost, Aux, Exit, Unknown, Throttle, LostSamples };
struct Rec {
	Kind k = Unknown;
	uint32_t pid = 0, tid = 0, ppid = 0, ptid = 0;
	uint16_t misc = 2;
	uint32_t spid = 0; /* the sample */
	uint64_t addr = 0, len = 0, off = 0, flags = 0;
	std::string name;
	int file = -1;      /* what is expected to be mapped */
	std::string text;
};
struct Conf {
	bool tid = true, time = true, ident = false;
};
static Bytes enc(const Rec &r, const Conf &c, uint64_t time)
{
	static const uint32_t type[] = {12, 7, 3, 14, 15, 1, 10, 2, 11, 4, 77, 5, 13};
	Bytes b;
	put(b, type[r.k], 4);
	put(b, r.misc, 2);
	put(b, 0, 2);
	auto str = [&] {
		Bytes s(r.name.begin(), r.name.end());
		s.push_back(0);
		while (s.size() % 8)
			s.push_back(0);
		b.insert(b.end(), s.begin(), s.end());
	};
	switch (r.k) {
	case Start:
		put(b, r.pid, 4), put(b, r.tid, 4);
		break;
	case Fork:
	case Exit:
		put(b, r.pid, 4), put(b, r.ppid, 4), put(b, r.tid, 4), put(b, r.ptid, 4), put(b, time, 8);
		break;
	case Comm:
		put(b, r.pid, 4), put(b, r.tid, 4);
		str();
		break;
	case Switch:
		break;
	case Cpu:
		put(b, r.pid, 4), put(b, r.tid, 4);
		break;
	case Mmap:
		put(b, r.pid, 4), put(b, r.tid, 4), put(b, r.addr, 8), put(b, r.len, 8), put(b, r.off, 8);
		str();
		break;
	case Mmap2:
		put(b, r.pid, 4), put(b, r.tid, 4), put(b, r.addr, 8), put(b, r.len, 8), put(b, r.off, 8);
		put(b, 8, 4), put(b, 1, 4), put(b, 99, 8), put(b, 3, 8), put(b, 5, 4), put(b, 2, 4);
		str();
		break;
	case Lost:
		put(b, 4, 8), put(b, 5, 8);
		break;
	case Aux:
		put(b, 0x1000, 8), put(b, 0x200, 8), put(b, r.flags, 8);
		break;
	case Throttle:
		put(b, time, 8), put(b, 1, 8), put(b, 2, 8);
		break;
	case LostSamples:
		put(b, 3, 8);
		break;
	case Unknown:
		put(b, 0x1234567812345678ull, 8);
		break;
	}
	if (c.tid)
		put(b, r.spid, 4), put(b, r.spid, 4);
	if (c.time)
		put(b, time, 8);
	if (c.ident)
		put(b, 0x77, 8);
	b[6] = (uint8_t)b.size();
	b[7] = (uint8_t)(b.size() >> 8);
	return b;
}

/* ---- The model. ---- */
struct Ctx {
	std::map<uint64_t, std::pair<int, uint64_t>> mem; /* granule -> file, offset */
	Abi abi = aunk;
};
typedef std::shared_ptr<Ctx> CtxP;
enum Loc { LU, LK, LLU, LLK, LX };
struct Chan {
	bool primary;
	std::vector<Rec> r;
	std::vector<uint64_t> tsc, raw; /* when it is due; its time stamp */
	Conf c;
	size_t next = 0;
	bool dead = false, init = false;
	int bad_at = -1; /* the record that cannot be read */
	uint64_t bad_off = 0;
	int bad_err = 0;
	Loc loc = LX;
	CtxP cur, pend;
	uint64_t kstart = KERN;
	std::string file;
	uint64_t base = 0; /* file offset of the first record */
	std::vector<uint64_t> off;
	int vdso[4] = {-1, FV64, FVX32, FV32};
	std::string sysroot;
};
struct Err {
	int code;
	std::string file;
	uint64_t off;
	/* 1000: any error. */
	bool operator==(const Err &o) const
	{
		return (code == o.code || (code < 0 && o.code == 1000)) && file == o.file && off == o.off;
	}
};
struct Model {
	std::map<uint32_t, CtxP> ctx;
	std::vector<Chan> ch;
	CtxP image; /* NULL: the one the user provided */
	CtxP kern = std::make_shared<Ctx>();
	int switches = 0;
	std::vector<Err> errs;
	std::vector<std::pair<std::string, uint64_t>> shown;
	CtxP get(uint32_t pid)
	{
		auto &c = ctx[pid];
		if (!c) {
			c = std::make_shared<Ctx>();
			c->mem = kern->mem;
		}
		return c;
	}
	void pend(Chan &c, CtxP to)
	{
		/* The last switch wins. */
		c.pend = to == c.cur ? nullptr : to;
	}
	void doswitch(Chan &c)
	{
		if (!c.pend)
			return;
		image = c.cur = c.pend;
		c.pend = nullptr;
		switches++;
	}
	void err(Chan &c, int code, size_t i) { errs.push_back({code, c.file, c.base + c.off[i]}); }
	void map(Chan &c, size_t i)
	{
		const Rec &r = c.r[i];
		CtxP x = get(r.pid);
		int f = r.file;
		if (r.name == "[vdso]") {
			f = c.vdso[x->abi];
			if (x->abi == aunk || f < 0)
				return err(c, -pte_bad_config, i);
		} else if (r.name[0] == '[' || r.name == "//anon" || r.name.find(" (deleted)") != std::string::npos)
			return err(c, ptse_section_lost, i);
		if (f < 0) {
			return err(c, -pte_bad_file, i);
		}
		if (x->abi == aunk)
			x->abi = fabi(f);
		for (uint64_t a = 0; a < r.len; a += G)
			x->mem[r.addr + a] = {f, r.off + a};
	}
	void apply(Chan &c, size_t i)
	{
		const Rec &r = c.r[i];
		switch (r.k) {
		case Start:
			if (c.primary) {
				pend(c, get(r.pid));
				doswitch(c);
			}
			break;
		case Fork:
			if (r.pid == r.ppid)
				break;
			if (r.pid != r.tid)
				return err(c, -pte_internal, i);
			ctx.erase(r.pid);
			{
				CtxP x = get(r.pid);
				auto p = ctx.find(r.ppid);
				if (p != ctx.end())
					x->mem = p->second->mem;
			}
			break;
		case Comm:
			if (!(r.misc & 0x2000))
				break;
			ctx.erase(r.pid);
			{
				CtxP x = get(r.pid);
				if (c.primary)
					pend(c, x);
			}
			break;
		case Switch:
			if (!c.primary || (r.misc & 0x2000))
				break;
			if (!c.c.tid)
				return err(c, -pte_bad_config, i);
			pend(c, get(r.spid));
			break;
		case Cpu:
			if (!c.primary)
				break;
			if (r.misc & 0x2000)
				pend(c, get(r.pid));
			else if (c.c.tid)
				pend(c, get(r.spid));
			break;
		case Mmap:
		case Mmap2:
			if ((r.misc & 7) != 1)
				map(c, i);
			break;
		case Lost:
			err(c, ptse_lost, i);
			break;
		case Aux:
			if (c.primary && (r.flags & 1))
				err(c, ptse_trace_lost, i);
			break;
		default:
			break;
		}
	}
	/* Read the next record. */
	bool fetch(Chan &c)
	{
		if ((int)c.next == c.bad_at) {
			errs.push_back({c.bad_err, c.file, c.base + c.bad_off});
			c.dead = true;
			return false;
		}
		return true;
	}
	void start()
	{
		for (auto &c : ch)
			if (!c.init) {
				c.init = true;
				/* Nothing to read: never added. */
				if (fetch(c) && c.r.empty())
					c.dead = true;
			}
	}
	void event(uint64_t tsc, const std::function<Loc(Loc, uint64_t)> &where, bool print)
	{
		for (;;) {
			Chan *b = nullptr;
			for (auto &c : ch)
				if (!c.dead && c.init && c.next < c.r.size() && c.tsc[c.next] <= tsc && (!b || c.tsc[c.next] < b->tsc[b->next]))
					b = &c;
			if (!b)
				break;
			size_t i = b->next++;
			if (print)
				shown.push_back({b->file, b->base + b->off[i]});
			apply(*b, i);
			fetch(*b);
		}
		for (auto &c : ch) {
			if (c.dead || !c.init)
				continue;
			Loc old = c.loc;
			c.loc = where(old, c.kstart);
			if (c.primary && c.pend && !((old == LU || old == LLU) && (c.loc == LU || c.loc == LLU)))
				doswitch(c);
		}
	}
};

/* ---- Events. ---- */
struct Ev {
	enum pt_event_type type;
	bool sup;
	uint64_t ip, at;
	std::string text;
};
static struct pt_event mkev(const Ev &e, uint64_t tsc)
{
	struct pt_event v;
	memset(&v, 0, sizeof(v));
	v.type = e.type;
	v.ip_suppressed = e.sup;
	v.has_tsc = 1;
	v.tsc = tsc;
	switch (e.type) {
#define I(x) case ptev_##x: v.variant.x.ip = e.ip; break;
	I(enabled) I(disabled) I(overflow) I(exec_mode) I(tsx) I(async_paging) I(async_vmcs) I(exstop) I(mwait) I(ptwrite)
	I(tick) I(tip) I(iflags) I(interrupt) I(iret) I(smi) I(rsm) I(init) I(vmentry) I(vmexit) I(shutdown) I(uintr) I(uiret)
	case ptev_async_disabled:
		v.variant.async_disabled.at = e.at;
		v.variant.async_disabled.ip = e.ip;
		break;
	case ptev_async_branch:
		v.variant.async_branch.from = e.at;
		v.variant.async_branch.to = e.ip;
		break;
	default:
		break;
	}
	return v;
}
/* Where are we after the event? */
static Loc where(const Ev &e, Loc old, uint64_t kstart)
{
	auto at = [&](uint64_t ip) { return ip < kstart ? LU : LK; };
	auto flip = [&](Loc l) { return l == LU || l == LLU ? LLK : l == LK || l == LLK ? LLU : LX; };
	switch (e.type) {
	case ptev_disabled:
		return e.sup ? flip(old) : at(e.ip);
	case ptev_async_disabled:
		return e.sup ? flip(at(e.at)) : at(e.ip);
	case ptev_enabled:
	case ptev_async_branch:
	case ptev_tip:
		return at(e.ip);
	case ptev_async_paging:
		return e.sup ? LLK : at(e.ip);
	case ptev_paging:
		return LLK;
	case ptev_overflow: case ptev_exec_mode: case ptev_tsx: case ptev_exstop: case ptev_mwait: case ptev_ptwrite:
	case ptev_tick: case ptev_iflags: case ptev_interrupt: case ptev_iret: case ptev_smi: case ptev_rsm: case ptev_init:
	case ptev_vmentry: case ptev_vmexit: case ptev_shutdown: case ptev_uintr: case ptev_uiret:
		return e.sup ? LX : at(e.ip);
	default:
		return LX;
	}
}

/* ---- A run. ---- */
struct Item {
	int chan = -1; /* -1: an event, -2: a second session is initialized here (unused) */
	Rec r;
	Ev e;
	std::string text;
	bool has_ev = false;
};
struct Setup {
	bool iscache = true, swap = false, print = false, notify_null = false;
	int nch = 2;	 /* channels: primary, secondary, another secondary */
	int rot = 0;	 /* the order in which decoders are added */
	Conf c[3];
	uint64_t base[3] = {0, 0, 0}; /* garbage before the records */
	bool tail = false;	   /* garbage behind them */
	uint64_t tsc_offset[3] = {0, 0, 0};
	std::string sysroot;
	int vdso[4] = {-1, FV64, FVX32, FV32};
	uint64_t kstart = KERN;
	std::vector<uint64_t> time; /* of the items; default: by index */
	size_t late = ~(size_t)0;   /* the secondary channel is added at this item */
	size_t esize = sizeof(struct pt_event);
	int dump = -1;		    /* the item up to which records are dumped */
};
static struct pt_image_section_cache *isc;
static std::vector<Err> got_errs;
static int got_switches;
static struct pt_image *got_image;
static int on_error(int code, const char *file, uint64_t off, void *priv)
{
	got_errs.push_back({code, file ? file : "", off});
	return *(int *)priv == 42 ? 0 : -pte_internal;
}
static int on_switch(const struct pt_sb_context *c, void *priv)
{
	got_switches++;
	got_image = pt_sb_ctx_image(c);
	return *(int *)priv == 43 ? 0 : -pte_internal;
}
static std::vector<uint64_t> probes()
{
	std::vector<uint64_t> p;
	for (uint64_t a = 0x1000; a < 0x1600; a += G)
		p.push_back(a);
	p.push_back(0x7000);
	p.push_back(KERN);
	p.push_back(KERN + G);
	return p;
}
/* Compare an image with the model's. */
static std::string differs(struct pt_image *im, const Ctx *c)
{
	static const std::vector<uint64_t> P = probes();
	static struct pt_asid asid;
	pt_asid_init(&asid);
	for (uint64_t a : P) {
		int want = -1, id = 0;
		uint64_t o = 0x61;
		if (c) {
			auto i = c->mem.find(a);
			if (i != c->mem.end())
				want = fbyte(i->second.first, i->second.second + o);
		}
		uint8_t b = 0;
		int r = pt_image_read(im, &id, &b, 1, &asid, a + o);
		if (want < 0 ? r != -pte_nomap : (r != 1 || b != want))
			return fmt("address %llx has %s %02x, expected %s %02x", (unsigned long long)(a + o), r < 0 ? ename(r) : "byte", b,
				   want < 0 ? "nothing" : "byte", want < 0 ? 0 : want);
	}
	return "";
}
static std::string show(const std::vector<Err> &v)
{
	std::string s;
	for (auto &e : v)
		s += fmt(" (%d %s:%llx)", e.code, e.file.substr(e.file.rfind('/') + 1).c_str(), (unsigned long long)e.off);
	return s.empty() ? " none" : s;
}
static const char *chname[3] = {"P", "S", "T"};
static std::string text(const std::vector<const Item *> &seq, const Setup &s)
{
	std::string t;
	for (auto i : seq)
		t += (t.empty() ? "" : "; ") + i->text;
	if (s.swap)
		t += " [decoders added in the other order]";
	if (s.rot)
		t += fmt(" [decoders added in order %d]", s.rot);
	if (!s.iscache)
		t += " [no section cache]";
	return t;
}
/* One line per record, in order. */
static std::vector<std::pair<std::string, uint64_t>> printed(char *l)
{
	std::vector<std::pair<std::string, uint64_t>> got;
	while (l && *l) {
		char *e = strchr(l, '\n');
		if (!e)
			break;
		*e = 0;
		char *c = strchr(l, ':');
		if (c) {
			*c = 0;
			got.push_back({l, strtoull(c + 1, NULL, 16)});
		}
		l = e + 1;
	}
	return got;
}
static struct { bool on; int at; int cut; } damage[3];
static void run(const std::vector<const Item *> &seq, const Setup &s)
{
	std::string dsc = text(seq, s);
	cur(dsc);
	count("evaluations");
#ifdef LEAKS
	env::reset();
#endif
	auto T = [&](size_t i) { return s.time.empty() ? 0x1000 + i + (seq[i]->chan >= 0) : s.time[i]; };
	Model m;
	m.ch.resize((size_t)s.nch);
	Bytes data[3];
	for (int k = 0; k < s.nch; k++) {
		Chan &c = m.ch[k];
		c.primary = !k;
		c.c = s.c[k];
		c.base = s.base[k];
		c.kstart = s.kstart;
		c.sysroot = s.sysroot;
		memcpy(c.vdso, s.vdso, sizeof(c.vdso));
		c.file = opt.scratch + "/" + (k ? k == 1 ? "sb.s" : "sb.t" : "sb.p");
		data[k].assign(s.base[k], 0x5a);
	}
	for (size_t i = 0; i < seq.size(); i++)
		if (seq[i]->chan >= 0) {
			int k = seq[i]->chan;
			Chan &c = m.ch[k];
			uint64_t off = s.tsc_offset[k], t = T(i), due;
			Bytes b = enc(seq[i]->r, c.c, t);
			if ((int64_t)off >= 0)
				due = t > off ? t - off : 0;
			else
				due = t > UINT64_MAX - (0 - off) ? UINT64_MAX : t + (0 - off);
			if (!c.c.time || seq[i]->r.k == Unknown)
				due = 0; /* applied immediately */
			c.r.push_back(seq[i]->r);
			c.tsc.push_back(due);
			c.off.push_back(data[k].size() - s.base[k]);
			data[k].insert(data[k].end(), b.begin(), b.end());
		}
	std::string err;
	struct pt_sb_pevent_config pc[3];
	std::string vd[3][4];
	static struct pev_sample_config *sc[3];
	for (auto &x : sc)
		if (!x)
			x = (struct pev_sample_config *)calloc(1, sizeof(*x) + 2 * sizeof(struct pev_sample_type));
	for (int k = 0; k < s.nch; k++) {
		Chan &c = m.ch[k];
		size_t end = data[k].size();
		bool tail = s.tail && end > s.base[k];
		if (tail)
			data[k].insert(data[k].end(), 24, 0xff);
		if (damage[k].on) {
			/* Cut within a record. */
			size_t i = (size_t)damage[k].at;
			if (i < c.r.size()) {
				size_t at = s.base[k] + c.off[i];
				if (damage[k].cut < 0) {
					/* The size of the record cannot be right. */
					c.bad_at = (int)i;
					c.bad_off = c.off[i];
					c.bad_err = 1000;
					data[k][at + 6] = (uint8_t)(damage[k].cut == -1 ? 4 : data[k][at] == 14 ? 12 : 16);
					data[k][at + 7] = 0;
				} else {
					/* The records before it are all there are. */
					end = at + (size_t)damage[k].cut;
					data[k].resize(end);
					tail = s.tail && end > s.base[k];
					if (tail)
						data[k].insert(data[k].end(), 24, 0xff);
				}
				c.r.resize(i);
				c.tsc.resize(i);
				c.off.resize(i);
			}
		}
		putf(c.file, data[k]);
		memset(&pc[k], 0, sizeof(pc[k]));
		pc[k].size = sizeof(pc[k]);
		pc[k].filename = c.file.c_str();
		pc[k].begin = s.base[k];
		pc[k].end = tail ? end : 0;
		pc[k].sysroot = s.sysroot.empty() ? NULL : s.sysroot.c_str();
		const char **v[4] = {NULL, &pc[k].vdso_x64, &pc[k].vdso_x32, &pc[k].vdso_ia32};
		for (int a = 1; a < 4; a++)
			if (s.vdso[a] >= 0) {
				vd[k][a] = fpath(s.vdso[a]);
				*v[a] = vd[k][a].c_str();
			}
		pc[k].tsc_offset = s.tsc_offset[k];
		uint64_t st = (c.c.tid ? 2 : 0) | (c.c.time ? 4 : 0) | (c.c.ident ? 0x10000 : 0);
		pc[k].sample_type = st;
		if (c.c.ident) {
			/* Two types; the other one must not be used. */
			pc[k].sample_type = 0x10000;
			sc[k]->nstypes = 2;
			sc[k]->stypes[0].identifier = 0x78;
			sc[k]->stypes[0].sample_type = 0x10000;
			sc[k]->stypes[1].identifier = 0x77;
			sc[k]->stypes[1].sample_type = st;
			pc[k].sample_config = sc[k];
		}
		pc[k].kernel_start = s.kstart;
		pc[k].time_mult = 1;
		pc[k].primary = !k;
	}
#ifdef LEAKS
	std::string before = env::outstanding();
#endif
	struct pt_sb_session *ss = pt_sb_alloc(s.iscache ? isc : NULL);
	struct pt_image *own = pt_image_alloc(NULL);
	if (!ss || !own) {
		errors.push_back("cannot allocate");
		return;
	}
	static int pe = 42, ps = 43;
	got_errs.clear();
	got_switches = 0;
	got_image = own;
	if (!s.notify_null) {
		pt_sb_notify_error(ss, on_error, &pe);
		pt_sb_notify_switch(ss, on_switch, &ps);
	}
	int r = pt_image_add_file(pt_sb_kernel_image(ss), fpath(FK).c_str(), 0, 2 * G, NULL, KERN);
	m.kern->mem[KERN] = {FK, 0};
	m.kern->mem[KERN + G] = {FK, G};
	if (r)
		errors.push_back(fmt("kernel: %d", r));
	/* The order in which decoders were added does not matter. */
	auto add = [&](int k) {
		r = pt_sb_alloc_pevent_decoder(ss, &pc[k]);
		if (r)
			err = fmt("adding decoder %s fails with %s", chname[k], ename(r));
	};
	if (s.nch == 3) {
		static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
		for (int k = 0; k < 3; k++)
			add(perm[s.rot][k]);
	} else {
		add(s.swap ? 1 : 0);
		if (s.late == ~(size_t)0)
			add(s.swap ? 0 : 1);
	}
	r = pt_sb_init_decoders(ss);
	if (r)
		err = fmt("initializing the decoders fails with %s", ename(r));
	if (s.late != ~(size_t)0)
		m.ch[s.swap ? 0 : 1].init = true; /* not yet there */
	m.start();
	if (s.late != ~(size_t)0)
		m.ch[s.swap ? 0 : 1].init = false;
	if (s.dump >= 0 && err.empty()) {
		/* Print the records up to a time, then the others. */
		for (uint64_t upto : {T((size_t)s.dump), (uint64_t)UINT64_MAX}) {
			char *db = NULL;
			size_t dn = 0;
			FILE *df = open_memstream(&db, &dn);
			r = pt_sb_dump(ss, df, ptsbp_compact | ptsbp_filename | ptsbp_file_offset, upto);
			fclose(df);
			auto got = printed(db);
			free(db);
			std::vector<std::pair<std::string, uint64_t>> want;
			for (size_t n = 0; n < seq.size(); n++) {
				Chan *b = nullptr;
				for (auto &c : m.ch)
					if (c.next < c.r.size() && c.tsc[c.next] <= upto && (!b || c.tsc[c.next] < b->tsc[b->next]))
						b = &c;
				if (b) {
					want.push_back({b->file, b->base + b->off[b->next]});
					b->next++;
				}
			}
			if (r || got != want)
				err = fmt("pt_sb_dump up to %llx (%s) prints %zu records, expected %zu, or in a different order", (unsigned long long)upto,
					  ename(r), got.size(), want.size());
		}
		/* Nothing is left to apply. */
		for (auto &c : m.ch)
			c.dead = true;
	}
	struct pt_image *image = own;
	std::map<CtxP, struct pt_image *> ident;
	char *pb = NULL;
	size_t pn = 0;
	FILE *pf = s.print ? open_memstream(&pb, &pn) : NULL;
	static const Ev fin[2] = {{ptev_tick, true, 0, 0, ""}, {ptev_enabled, false, 0x1000, 0, ""}};
	size_t n = seq.size();
	int w0 = 0;
	for (size_t i = 0; i < n + 2 && err.empty(); i++) {
		if (i == s.late) {
			add(s.swap ? 0 : 1);
			r = pt_sb_init_decoders(ss);
			if (r)
				err = fmt("initializing the decoders fails with %s", ename(r));
			m.start();
		}
		if (i < n && seq[i]->chan >= 0)
			continue;
		const Ev &e = i < n ? seq[i]->e : fin[i - n];
		uint64_t tsc = i < n ? T(i) : UINT64_MAX;
		struct pt_event v = mkev(e, tsc), v0 = v;
		if (s.esize > sizeof(v)) {
			Bytes big(s.esize, 0xee);
			memcpy(big.data(), &v, sizeof(v));
			r = pt_sb_event(ss, &image, (struct pt_event *)big.data(), s.esize, pf, ptsbp_compact | ptsbp_filename | ptsbp_file_offset);
		} else
			r = pt_sb_event(ss, &image, &v, s.esize, pf, ptsbp_compact | ptsbp_filename | ptsbp_file_offset);
		m.event(tsc, [&](Loc o, uint64_t ks) { return where(e, o, ks); }, s.print);
		std::string at = i < n ? fmt("at event %zu (%s)", i, seq[i]->text.c_str()) : fmt("at final event %zu", i - n);
		if (r)
			err = at + fmt(": pt_sb_event fails with %s", ename(r));
		else if (memcmp(&v, &v0, sizeof(v)))
			err = at + ": the event changed";
		if (err.empty() && !s.notify_null) {
			if (!(got_errs == m.errs))
				err = at + ": diagnosed" + show(got_errs) + ", expected" + show(m.errs);
			else if (got_switches != m.switches)
				err = at + fmt(": %d context switches, expected %d", got_switches, m.switches);
			else if (got_image != image)
				err = at + ": the image is not that of the context switched to";
		}
		if (err.empty()) {
			w0 += m.switches;
			if ((image == own) != !m.image)
				err = at + fmt(": the image was %s", m.image ? "not replaced" : "replaced");
			else {
				auto &x = ident[m.image];
				if (!x)
					x = image;
				if (x != image)
					err = at + ": a different image for the same process";
				else {
					std::string d = differs(image, m.image.get());
					if (!d.empty())
						err = at + ": " + d;
				}
			}
		}
	}
	/* All processes. */
	for (uint32_t pid = 0; pid < 5 && err.empty(); pid++) {
		struct pt_sb_context *c = (struct pt_sb_context *)&r;
		r = pt_sb_find_context_by_pid(&c, ss, pid);
		auto x = m.ctx.find(pid);
		if (r)
			err = fmt("finding process %u fails with %s", pid, ename(r));
		else if (!c != (x == m.ctx.end()))
			err = fmt("process %u is %s", pid, c ? "known" : "unknown");
		else if (c) {
			std::string d = differs(pt_sb_ctx_image(c), x->second.get());
			if (!d.empty())
				err = fmt("in process %u: ", pid) + d;
			else if (m.image == x->second && image != pt_sb_ctx_image(c))
				err = fmt("the image used is not that of process %u", pid);
		}
	}
	pt_sb_free(ss);
	pt_image_free(own);
#ifdef LEAKS
	if (!s.iscache) {
		std::string o = env::outstanding();
		if (err.empty() && o != before)
			err = "not everything is released: " + o + ", before: " + before;
	}
#endif
	if (pf) {
		fclose(pf);
		std::vector<std::pair<std::string, uint64_t>> got = printed(pb);
		if (err.empty() && got != m.shown) {
			err = "printed records:";
			for (auto &g : got)
				err += fmt(" %s:%llx", g.first.substr(g.first.rfind('/') + 1).c_str(), (unsigned long long)g.second);
			err += ", expected";
			for (auto &g : m.shown)
				err += fmt(" %s:%llx", g.first.substr(g.first.rfind('/') + 1).c_str(), (unsigned long long)g.second);
		}
		free(pb);
	}
	distinct(fnv(&m.switches, 4, fnv(&w0, 4, m.errs.size() * 31 + m.ctx.size())));
	if (want_sample())
		sample(dsc + fmt(" -> %d switches", m.switches));
	if (!err.empty())
		viol(opt.part, dsc + ": " + err);
}

/* ---- The alphabet. ---- */
static Item rec(int ch, const char *txt, Kind k, uint32_t pid, uint32_t tid, uint32_t ppid, uint16_t misc, uint32_t spid)
{
	Item i;
	i.chan = ch;
	i.r.k = k;
	i.r.pid = pid;
	i.r.tid = tid;
	i.r.ppid = ppid;
	i.r.ptid = ppid;
	i.r.misc = misc;
	i.r.spid = spid;
	i.r.name = "cmd";
	i.text = std::string(chname[ch]) + ":" + txt;
	return i;
}
static Item mm(int ch, const char *txt, Kind k, uint32_t pid, int file, uint64_t addr, uint64_t len, uint64_t off, uint16_t misc = 2)
{
	Item i = rec(ch, txt, k, pid, pid, 0, misc, pid);
	i.r.addr = addr;
	i.r.len = len;
	i.r.off = off;
	i.r.file = file;
	i.r.name = fpath(file);
	return i;
}
static Item evt(const char *txt, enum pt_event_type t, bool sup, uint64_t ip, uint64_t at)
{
	Item i;
	i.e = {t, sup, ip, at, txt};
	i.text = txt;
	return i;
}
static std::vector<Item> alphabet(bool small)
{
	std::vector<Item> a;
	const uint16_t X = 0x2002;
	auto aux = [&](int ch, const char *t, uint64_t f) {
		Item i = rec(ch, t, Aux, 0, 0, 0, 0, 1);
		i.r.flags = f;
		return i;
	};
	if (small) {
		a.push_back(rec(0, "START 1", Start, 1, 1, 0, 0, 1));
		a.push_back(rec(0, "SWITCH in 1", Switch, 0, 0, 0, 2, 1));
		a.push_back(rec(0, "SWITCH in 2", Switch, 0, 0, 0, 2, 2));
		a.push_back(rec(0, "CPU_WIDE out next 2", Cpu, 2, 2, 0, X, 1));
		a.push_back(rec(0, "FORK 2 from 1", Fork, 2, 2, 1, 0, 1));
		a.push_back(rec(0, "COMM.EXEC 1", Comm, 1, 1, 0, X, 1));
		a.push_back(mm(0, "MMAP2 1 fa", Mmap2, 1, FA, 0x1000, 3 * G, 0));
		a.push_back(mm(0, "MMAP2 2 fb", Mmap2, 2, FB, 0x1100, G, G));
		a.push_back(rec(1, "FORK 2 from 1", Fork, 2, 2, 1, 0, 1));
		a.push_back(rec(1, "COMM.EXEC 2", Comm, 2, 2, 0, X, 2));
		a.push_back(mm(1, "MMAP2 1 fc", Mmap2, 1, FC, 0x1200, 2 * G, 0));
		a.push_back(evt("enabled kernel", ptev_enabled, false, KERN, 0));
		a.push_back(evt("branch to user", ptev_async_branch, false, 0x1000, KERN));
		a.push_back(evt("disabled suppressed", ptev_disabled, true, 0, 0));
		return a;
	}
	a.push_back(rec(0, "START 1", Start, 1, 1, 0, 0, 1));
	a.push_back(rec(0, "START 2", Start, 2, 2, 0, 0, 2));
	a.push_back(rec(0, "SWITCH in 1", Switch, 0, 0, 0, 2, 1));
	a.push_back(rec(0, "SWITCH in 2", Switch, 0, 0, 0, 2, 2));
	a.push_back(rec(0, "SWITCH out", Switch, 0, 0, 0, X, 1));
	a.push_back(rec(0, "CPU_WIDE in 2", Cpu, 1, 1, 0, 2, 2));
	a.push_back(rec(0, "CPU_WIDE out next 1", Cpu, 1, 1, 0, X, 2));
	a.push_back(rec(0, "FORK 2 from 1", Fork, 2, 2, 1, 0, 1));
	a.push_back(rec(0, "FORK 1 from 2", Fork, 1, 1, 2, 0, 2));
	a.push_back(rec(0, "FORK 3 from 4", Fork, 3, 3, 4, 0, 4));
	a.push_back(rec(0, "FORK thread 7 of 1", Fork, 1, 7, 1, 0, 1));
	a.push_back(rec(0, "FORK 2 with thread 3", Fork, 2, 3, 1, 0, 1));
	a.push_back(rec(0, "COMM.EXEC 1", Comm, 1, 1, 0, X, 1));
	a.push_back(rec(0, "COMM.EXEC 2", Comm, 2, 2, 0, X, 2));
	a.push_back(rec(0, "COMM 1", Comm, 1, 1, 0, 2, 1));
	a.push_back(mm(0, "MMAP 1 fa", Mmap, 1, FA, 0x1000, 3 * G, 0));
	a.push_back(mm(0, "MMAP2 1 fb", Mmap2, 1, FB, 0x1100, G, G));
	a.push_back(mm(0, "MMAP2 2 fb", Mmap2, 2, FB, 0x1100, G, G));
	a.push_back(mm(0, "MMAP2 1 fa kernel", Mmap2, 1, FA, 0x1000, 3 * G, 0, 1));
	a.push_back(rec(0, "LOST", Lost, 0, 0, 0, 0, 1));
	a.push_back(aux(0, "AUX truncated", 1));
	a.push_back(aux(0, "AUX", 2));
	a.push_back(rec(0, "EXIT 1", Exit, 1, 1, 0, 0, 1));
	a.push_back(rec(0, "unknown", Unknown, 0, 0, 0, 0, 1));
	a.push_back(rec(1, "START 2", Start, 2, 2, 0, 0, 2));
	a.push_back(rec(1, "SWITCH in 2", Switch, 0, 0, 0, 2, 2));
	a.push_back(rec(1, "CPU_WIDE out next 1", Cpu, 1, 1, 0, X, 2));
	a.push_back(rec(1, "CPU_WIDE in 2", Cpu, 1, 1, 0, 2, 2));
	a.push_back(rec(1, "FORK 2 from 1", Fork, 2, 2, 1, 0, 1));
	a.push_back(rec(1, "COMM.EXEC 1", Comm, 1, 1, 0, X, 1));
	a.push_back(rec(1, "COMM.EXEC 2", Comm, 2, 2, 0, X, 2));
	a.push_back(mm(1, "MMAP2 1 fc", Mmap2, 1, FC, 0x1200, 2 * G, 0));
	a.push_back(mm(1, "MMAP 2 fc", Mmap, 2, FC, 0x1200, 2 * G, 0));
	a.push_back(aux(1, "AUX truncated", 1));
	a.push_back(rec(1, "LOST", Lost, 0, 0, 0, 0, 1));
	a.push_back(evt("enabled kernel", ptev_enabled, false, KERN, 0));
	a.push_back(evt("enabled user", ptev_enabled, false, KERN - 1, 0));
	a.push_back(evt("branch to kernel", ptev_async_branch, false, KERN, 0x1000));
	a.push_back(evt("branch to user", ptev_async_branch, false, 0x1000, KERN));
	a.push_back(evt("disabled suppressed", ptev_disabled, true, 0, 0));
	a.push_back(evt("tick suppressed", ptev_tick, true, 0, 0));
	a.push_back(evt("paging", ptev_paging, true, 0, 0));
	return a;
}
static void sequences(const std::vector<Item> &a, size_t depth, const Setup &s, const std::vector<const Item *> &prefix = {})
{
	uint64_t N = 1;
	for (size_t i = 0; i < depth; i++)
		N *= a.size();
	std::vector<const Item *> seq;
	for (uint64_t k = 0; k < N && !late(); k++) {
		if (!mine(k))
			continue;
		seq = prefix;
		uint64_t v = k;
		for (size_t i = 0; i < depth; i++, v /= a.size())
			seq.push_back(&a[v % a.size()]);
		run(seq, s);
	}
	maxi("sequence_length", depth + prefix.size());
}

int main(int argc, char **argv)
{
	init(argc, argv);
	mkfiles();
	isc = pt_iscache_alloc(NULL);
	pt_iscache_set_limit(isc, 1 << 20);
	bool th = opt.thorough;
	if (opt.part == "histories") {
		Setup s, w;
		w.swap = true;
		auto S = alphabet(true), F = alphabet(false);
		sequences(F, 2, s);
		sequences(S, 3, s);
		sequences(F, 3, w);
		sequences(S, th ? 6 : 5, s);
		if (th) {
			sequences(F, 4, s);
			sequences(S, 7, w);
		}
	} else if (opt.part == "processes") {
		/* Two processes with images, and one of them running. */
		auto S = alphabet(true), F = alphabet(false);
		std::vector<Item> p = {mm(0, "MMAP2 1 fa", Mmap2, 1, FA, 0x1000, 3 * G, 0), mm(0, "MMAP2 2 fc", Mmap2, 2, FC, 0x1200, 2 * G, 0),
				       rec(0, "START 1", Start, 1, 1, 0, 0, 1), evt("enabled user", ptev_enabled, false, 0x1000, 0)};
		std::vector<const Item *> pre;
		for (auto &i : p)
			pre.push_back(&i);
		Setup s, w;
		w.swap = true;
		sequences(F, 2, s, pre);
		sequences(S, th ? 6 : 5, s, pre);
		sequences(F, th ? 4 : 3, w, pre);
		if (th)
			sequences(S, 7, w, pre);
	} else if (opt.part == "memory") {
		auto S = alphabet(true), F = alphabet(false);
		Setup s;
		s.iscache = false;
		s.print = true;
		sequences(F, 2, s);
		sequences(S, th ? 4 : 3, s);
		std::vector<Item> p = {mm(0, "MMAP2 1 fa", Mmap2, 1, FA, 0x1000, 3 * G, 0), mm(0, "MMAP2 2 fc", Mmap2, 2, FC, 0x1200, 2 * G, 0),
				       rec(0, "START 1", Start, 1, 1, 0, 0, 1), evt("enabled user", ptev_enabled, false, 0x1000, 0)};
		std::vector<const Item *> pre;
		for (auto &i : p)
			pre.push_back(&i);
		sequences(S, th ? 5 : 4, s, pre);
		sequences(F, 2, s, pre);
		if (th)
			sequences(F, 3, s);
	} else if (opt.part == "location") {
		/* All events, at all places, with a pending switch. */
		std::vector<Item> E;
		for (int t = 0; t <= ptev_trig + 1; t++)
			for (int sup = 0; sup < 2; sup++)
				for (uint64_t ip : {(uint64_t)0x1000, KERN - 1, KERN, (uint64_t)~0ull})
					for (uint64_t at : {(uint64_t)0x1000, KERN}) {
						if (at != 0x1000 && t != ptev_async_disabled && t != ptev_async_branch)
							continue;
						E.push_back(evt("", (enum pt_event_type)t, sup, ip, at));
						E.back().text = fmt("event %d%s ip %llx at %llx", t, sup ? " suppressed" : "", (unsigned long long)ip,
								    (unsigned long long)at);
					}
		Item mp = mm(0, "MMAP2 2 fb", Mmap2, 2, FB, 0x1100, G, G);
		Item sw = rec(0, "SWITCH in 2", Switch, 0, 0, 0, 2, 2);
		Item en = evt("enabled user", ptev_enabled, false, 0x1000, 0), ek = evt("enabled kernel", ptev_enabled, false, KERN, 0);
		uint64_t id = 0;
		for (uint64_t ks : {KERN, (uint64_t)UINT64_MAX, (uint64_t)0}) {
			Setup s;
			s.kstart = ks;
			for (int f = 0; f < 3; f++)
				for (auto &a : E)
					for (auto &b : E) {
						if (!mine(id++) || late())
							continue;
						std::vector<const Item *> q = {&mp};
						if (f)
							q.push_back(f == 1 ? &en : &ek);
						q.push_back(&a);
						q.push_back(&sw);
						q.push_back(&b);
						q.push_back(&en);
						run(q, s);
						/* Events of unknown size and older versions. */
						if (th || id % 7 == 0) {
							Setup z = s;
							z.esize = sizeof(struct pt_event) + 40;
							run(q, z);
						}
					}
		}
	} else if (opt.part == "maps") {
		/* Names, ABIs, the system root and vdso files. */
		std::vector<Item> A;
		auto nm = [&](const char *t, const std::string &name, int file, uint64_t addr, uint16_t misc = 2) {
			for (Kind k : {Mmap, Mmap2}) {
				Item i = mm(0, t, k, 1, file < 0 ? 0 : file, addr, G, G, misc);
				i.r.name = name;
				i.r.file = file;
				A.push_back(i);
			}
		};
		nm("i64", fpath(FI64), FI64, 0x1000);
		nm("ix32", fpath(FIX32), FIX32, 0x1100);
		nm("i32", fpath(FI32), FI32, 0x1200);
		nm("badv", fpath(FBADV), FBADV, 0x1300);
		nm("fa", fpath(FA), FA, 0x1000);
		nm("fa guest", fpath(FA), FA, 0x1000, 5);
		nm("fa hypervisor", fpath(FA), FA, 0x1000, 3);
		nm("fa unknown mode", fpath(FA), FA, 0x1000, 0);
		nm("i64 kernel", fpath(FI64), FI64, 0x1000, 1);
		nm("vdso", "[vdso]", FV64, 0x7000);
		nm("vdso kernel", "[vdso]", FV64, 0x7000, 1);
		nm("heap", "[heap]", -1, 0x1400);
		nm("vsyscall", "[vdso", -1, 0x1400);
		nm("anon", "//anon", -1, 0x1400);
		nm("deleted", fpath(FA) + " (deleted)", -1, 0x1400);
		A.push_back(rec(0, "COMM.EXEC 1", Comm, 1, 1, 0, 0x2002, 1));
		A.push_back(rec(1, "FORK 1 from 3", Fork, 1, 1, 3, 0, 3));
		Item st = rec(0, "START 1", Start, 1, 1, 0, 0, 1);
		uint64_t id = 0;
		for (int v = 0; v < 8; v++) {
			Setup s;
			s.iscache = true;
			for (int a = 1; a < 4; a++)
				if (!(v >> (a - 1) & 1))
					s.vdso[a] = -1;
			for (auto &x : A)
				for (auto &y : A) {
					if (!mine(id++) || late())
						continue;
					run({&st, &x, &y}, s);
					if (v == 7 || th)
						for (auto &z : A)
							run({&st, &x, &y, &z}, s);
				}
		}
		/* The system root. */
		{
			Setup s;
			s.sysroot = opt.scratch + "/root";
			std::vector<Item> B;
			Item i = mm(0, "/x", Mmap2, 1, FA, 0x1000, G, G);
			i.r.name = "/x";
			i.r.file = FC + 20;
			B.push_back(i);
			i.r.k = Mmap;
			B.push_back(i);
			B.push_back(mm(0, "[vdso]", Mmap2, 1, FV64, 0x7000, G, G));
			B.back().r.name = "[vdso]";
			/* Outside of the root. */
			i = mm(0, "fa outside", Mmap2, 1, FA, 0x1100, G, G);
			i.r.file = -1;
			B.push_back(i);
			i.r.name = "/x (deleted)";
			i.text = "P:x deleted";
			B.push_back(i);
			for (auto &x : B)
				for (auto &y : B)
					if (mine(id++))
						run({&st, &x, &y}, s);
			s.sysroot = opt.scratch + "/nowhere";
			for (auto &x : B) {
				Item z = x;
				if (z.r.name == "/x")
					z.r.file = -1;
				if (mine(id++))
					run({&st, &z, &B[2]}, s);
			}
		}
	} else if (opt.part == "channels") {
		/* Times, offsets, parts of files, truncated files, late decoders. */
		auto S = alphabet(true), F = alphabet(false);
		uint64_t id = 0;
		/* Records without time stamps are applied immediately. */
		for (int v = 0; v < 6; v++) {
			Setup s;
			if (v < 3) {
				s.c[0].time = v == 1;
				s.c[1].time = v == 2;
				s.c[0].tid = v != 0;
			} else if (v == 3)
				s.c[0].tid = false;
			else if (v == 4)
				s.c[0].ident = s.c[1].ident = true;
			else {
				s.base[0] = 24;
				s.base[1] = 13;
				s.tail = true;
				s.print = true;
			}
					for (auto &a : S)
				for (auto &b : S)
					for (auto &c : S) {
						if (!mine(id++) || late())
							continue;
						/* Records of both channels at the same time have no order. */
						if (v < 3 && (!s.c[0].time && !s.c[1].time)) {
							int k[2] = {0, 0};
							for (auto i : {&a, &b, &c})
								if (i->chan >= 0)
									k[i->chan]++;
							if (k[0] && k[1])
								continue;
						}
						run({&a, &b, &c}, s);
					}
			for (auto &a : F)
				for (auto &b : F) {
					if (!mine(id++) || late() || (!s.c[0].time && !s.c[1].time))
						continue;
					run({&a, &b}, s);
				}
		}
		/* Times. */
		{
			Item m1 = mm(0, "MMAP2 1 fa", Mmap2, 1, FA, 0x1000, 3 * G, 0), s1 = rec(0, "START 1", Start, 1, 1, 0, 0, 1),
			     m2 = mm(1, "MMAP2 1 fc", Mmap2, 1, FC, 0x1200, 2 * G, 0), e = evt("enabled user", ptev_enabled, false, 0x1000, 0);
			const std::vector<uint64_t> V = {1, 2, 0x1000, 0x1001, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 0x1000, ~0ull - 1};
			const std::vector<uint64_t> O = {0, 1, 2, 0xfff, 0x1000, 0x1001, (1ull << 63) - 1, 1ull << 63, 0ull - 0x1001, 0ull - 0x1000, 0ull - 2, ~0ull};
			for (uint64_t t1 : V)
				for (uint64_t t2 : V)
					for (uint64_t o0 : O)
						for (uint64_t o1 : O)
							for (uint64_t te : V)
								for (int d = -1; d < 2; d++) {
									if (!mine(id++) || late())
										continue;
									Setup s;
									s.tsc_offset[0] = o0;
									s.tsc_offset[1] = o1;
									/* Records of both channels at the same time have no order. */
									auto at = [](uint64_t t, uint64_t o) -> uint64_t {
										if ((int64_t)o >= 0)
											return t > o ? t - o : 0;
										return t > ~0ull - (0 - o) ? ~0ull : t + (0 - o);
									};
									if (at(t1, o0) == at(t2, o1))
										continue;
									if (o0 && o1 && o0 != o1 && !th)
										continue;
									s.time = {t1, t1, t2, te + (uint64_t)d};
									run({&s1, &m1, &m2, &e}, s);
								}
		}
		/* Three channels. */
		{
			std::vector<Item> A;
			for (int k = 0; k < 3; k++)
				A.push_back(mm(k, "MMAP2 1", Mmap2, 1, FA + k, 0x1000 + 0x80ull * 2 * (uint64_t)(k == 1), 2 * G, 0));
			A.push_back(rec(2, "FORK 2 from 1", Fork, 2, 2, 1, 0, 1));
			A.push_back(rec(0, "SWITCH in 1", Switch, 0, 0, 0, 2, 1));
			A.push_back(evt("enabled kernel", ptev_enabled, false, KERN, 0));
			for (int rot = 0; rot < 6; rot++) {
				Setup s;
				s.nch = 3;
				s.rot = rot;
				sequences(A, th ? 7 : rot == 2 ? 6 : 5, s);
			}
			for (auto &a : A)
				for (auto &b : A)
					for (auto &c : A)
						for (auto &d : A)
							for (int at = 0; at < 4; at++) {
								if (!mine(id++) || late())
									continue;
								Setup s;
								s.nch = 3;
								s.rot = (int)(id % 6);
								s.dump = at;
								run({&a, &b, &c, &d}, s);
							}
		}
		/* A decoder that is added later. */
		for (auto &a : S)
			for (auto &b : S)
				for (auto &c : S)
					for (size_t l = 0; l < 3; l++) {
						if (!mine(id++) || late())
							continue;
						Setup s;
						s.late = l;
						s.swap = id & 1;
						run({&a, &b, &c}, s);
					}
		/* Nobody listens. */
		{
			Setup s;
			s.notify_null = true;
			for (auto &a : F)
				for (auto &b : F)
					if (mine(id++))
						run({&a, &b}, s);
		}
		/* A file that ends in a record: everything before it is applied. */
		for (auto &a : S)
			for (auto &b : S)
				for (auto &c : S) {
					if (!mine(id++) || late())
						continue;
					int n[2] = {0, 0};
					for (auto i : {&a, &b, &c})
						if (i->chan >= 0)
							n[i->chan]++;
					for (int k = 0; k < 2; k++)
						for (int at = 0; at < n[k]; at++)
							for (int cut : {-2, -1, 0, 1, 7, 8, 12}) {
								damage[k] = {true, at, cut};
								Setup s;
								s.tail = id & 1;
								s.print = id & 2;
								run({&a, &b, &c}, s);
								damage[k].on = false;
							}
				}
	}
	return finish();
}
