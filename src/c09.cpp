// C09: the flow does not depend on how the code is provided and on what has been decoded before.
//
// Part "provide": for every execution of the processor model, the code is provided through the read memory
//   callback, and in sections that are split at each byte of the code, before or in between decodes.
// Part "history": for every execution, the block cache has been filled by decodes that started at each byte of the
//   code, in each mode, and by decoders with different flags.
#include "hwrun.hpp"
using namespace hw;

static Env *env; /* only for its memory */
static const Machine *cur;

struct Sec {
	u64 base, size;
	int isid;
};
/* An image over one section cache. */
struct Img {
	struct pt_image_section_cache *isc = 0;
	struct pt_image *im = 0;
	std::vector<Sec> secs; /* most recent last */

	explicit Img(uint64_t limit)
	{
		isc = pt_iscache_alloc(0);
		pt_iscache_set_limit(isc, limit);
		im = pt_image_alloc(0);
	}
	~Img()
	{
		pt_image_free(im);
		pt_iscache_free(isc);
	}
	void add(int r, u64 off, u64 size)
	{
		if (!size)
			return;
		int id = pt_iscache_add_file(isc, env->file.c_str(), (u64)r * REGSZ + off, size, REG[r] + off);
		if (id <= 0 || pt_image_add_cached(im, isc, id, 0) < 0) {
			vf::errors.push_back("adding a section failed");
			return;
		}
		secs.push_back({REG[r] + off, size, id});
	}
	void full(int except)
	{
		for (int r = 0; r < NREG - 1; r++)
			if (r != except)
				add(r, 0, REGSZ);
	}
	int isid(u64 ip) const
	{
		for (size_t i = secs.size(); i--;)
			if (ip - secs[i].base < secs[i].size)
				return secs[i].isid;
		return 0;
	}
};
static int readmem(uint8_t *b, size_t n, const struct pt_asid *, uint64_t ip, void *)
{
	for (int r = 0; r < NREG - 1; r++)
		if (ip - REG[r] < REGSZ) {
			if (n > REG[r] + REGSZ - ip)
				n = REG[r] + REGSZ - ip;
			memcpy(b, env->mem + (u64)r * REGSZ + (ip - REG[r]), n);
			return (int)n;
		}
	return -pte_nomap;
}

static Flow insns(const std::vector<uint8_t> &tr, struct pt_image *im)
{
	struct pt_config c;
	config(&c, tr);
	c.flags.variant.insn.enable_iflags_events = cur->c.iflags;
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	pt_insn_set_image(d, im);
	Flow f = insn_flow(d, pt_insn_sync_forward(d));
	pt_insn_free_decoder(d);
	return f;
}
static struct pt_block_decoder *blkdec(const std::vector<uint8_t> &tr, struct pt_image *im, int fl)
{
	struct pt_config c;
	config(&c, tr);
	c.flags.variant.block.enable_iflags_events = cur->c.iflags;
	c.flags.variant.block.end_on_call = fl & 1;
	c.flags.variant.block.end_on_jump = fl >> 1;
	struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
	pt_blk_set_image(d, im);
	return d;
}
static Flow blocks(const std::vector<uint8_t> &tr, struct pt_image *im, int fl, std::string *why)
{
	struct pt_block_decoder *d = blkdec(tr, im, fl);
	std::vector<struct pt_block> bs;
	Flow got = blk_flow(d, pt_blk_sync_forward(d), *cur, why, &bs);
	pt_blk_free_decoder(d);
	size_t k = 0;
	for (auto &b : bs)
		for (int i = 0; i < b.ninsn; i++) {
			while (k < got.t.size() && got.t[k].isev)
				k++;
			if (k >= got.t.size())
				return got;
			int cls = got.t[k++].i.cls;
			if (i + 1 < b.ninsn && (((fl & 1) && cls == ptic_call) || ((fl & 2) && cls == ptic_jump)))
				*why += vf::fmt("the block at %llx continues after a %s  ", (unsigned long long)b.ip,
						cls == ptic_call ? "call" : "jump");
		}
	return got;
}
/* Decode until more trace is needed; this only fills the block cache. */
static void prior(const std::vector<uint8_t> &tr, struct pt_image *im, int fl)
{
	struct pt_block_decoder *d = blkdec(tr, im, fl);
	int st = pt_blk_sync_forward(d);
	for (int n = 0; n < 60 && st >= 0; n++) {
		while (st >= 0 && (st & pts_event_pending)) {
			struct pt_event e;
			st = pt_blk_event(d, &e, sizeof(e));
		}
		struct pt_block b;
		if (st >= 0)
			st = pt_blk_next(d, &b, sizeof(b));
	}
	pt_blk_free_decoder(d);
}
static std::vector<uint8_t> entry(u64 ip, int mode, int tnt)
{
	std::vector<uint8_t> t;
	auto pk = [&](int type, u64 f0 = 0, u64 f1 = 0, u64 f2 = 0, u64 f3 = 0) {
		ref::Pk k;
		k.type = type;
		u64 f[4] = {f0, f1, f2, f3};
		memcpy(k.f, f, sizeof(f));
		auto b = ref::encode(k);
		t.insert(t.end(), b.begin(), b.end());
	};
	pk(ppt_psb);
	pk(ppt_mode, 0, mode == M64, mode == M32, 0);
	pk(ppt_fup, pt_ipc_sext_48, ip);
	pk(ppt_psbend);
	if (tnt)
		pk(ppt_tnt_8, 6, tnt == 1 ? 0x3f : 0);
	return t;
}

static std::string what;
static const std::vector<int> *thepath;
static Flow exp_;
static void report(const char *key, const Flow &got, const std::string &why)
{
	vf::count("evaluations");
	if (got == exp_ && why.empty())
		return;
	vf::viol(key, steps_str(*thepath) + "\n  " + what + ": " + why + (got == exp_ ? "" : diff(got, exp_)) +
		 "\n  trace: " + cur->trace());
}
static std::string ckids(const Flow &f, const Img &im)
{
	for (auto &t : f.t)
		if (!t.isev && in_region(t.i.ip) && t.isid != im.isid(t.i.ip))
			return vf::fmt("instruction at %llx: section identifier %d, not %d  ",
				       (unsigned long long)t.i.ip, t.isid, im.isid(t.i.ip));
	return "";
}
static void all(const char *key, const Img &im, int flags)
{
	std::string w0 = what;
	what = w0 + ", instructions";
	Flow f = insns(cur->tr, im.im);
	report(key, f, ckids(f, im));
	for (int fl = 0; fl < 4; fl++)
		if (flags >> fl & 1) {
			std::string why;
			what = w0 + vf::fmt(", blocks (flags %d)", fl);
			f = blocks(cur->tr, im.im, fl, &why);
			report(key, f, why + ckids(f, im));
		}
	what = w0;
}
struct At {
	int r;
	u64 off;
	bool head;
};
/* The bytes of the code, in order. */
static std::vector<At> bytes(const Machine &m)
{
	std::vector<At> v;
	std::set<u64> seen;
	for (auto &k : m.code)
		for (int r = 0; r < NREG - 1; r++)
			if (k.ip - REG[r] < REGSZ && seen.insert(k.ip).second)
				for (int b = 0; b < k.len; b++)
					v.push_back({r, k.ip - REG[r] + b, b == 0});
	return v;
}
static bool th;
static int asidrun; /* 1: also by CR3, 2: only by VMCS */

/* Memory that only has the code that is executed in one address space. */
struct AsMem {
	uint8_t *mem;
	std::string file;
	u64 cr3, vmcs;
	std::vector<std::pair<size_t, size_t>> dirty;
};
static std::vector<AsMem> asmem;
static AsMem &as(u64 cr3, u64 vmcs)
{
	for (auto &a : asmem)
		if (a.cr3 == cr3 && a.vmcs == vmcs)
			return a;
	AsMem a;
	int fd = memfd_create("as", 0);
	size_t sz = (NREG - 1) * REGSZ;
	if (fd < 0 || ftruncate(fd, (off_t)sz))
		exit(3);
	a.mem = (uint8_t *)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	memset(a.mem, 0xcc, sz);
	a.file = vf::fmt("/proc/self/fd/%d", fd);
	a.cr3 = cr3;
	a.vmcs = vmcs;
	asmem.push_back(a);
	return asmem.back();
}
static void asids(const Machine &m)
{
	for (auto &a : asmem) {
		for (auto &d : a.dirty)
			memset(a.mem + d.first, 0xcc, d.second);
		a.dirty.clear();
	}
	const bool byv = asidrun == 2;
	std::set<u64> keys;
	if (byv)
		keys = {0x1234000, 0x5000012340000};
	else
		keys = {CR3A, CR3B};
	for (auto &i : m.ins)
		if (byv)
			keys.insert(i.vmcs);
	auto space = [&](u64 k) -> AsMem & { return byv ? as(pt_asid_no_cr3, k) : as(k, pt_asid_no_vmcs); };
	for (auto &i : m.ins)
		for (int r = 0; r < NREG - 1; r++)
			if (i.ip - REG[r] < REGSZ) {
				size_t o = (size_t)r * REGSZ + (i.ip - REG[r]);
				AsMem &a = space(byv ? i.vmcs : i.cr3);
				memcpy(a.mem + o, i.raw, i.size);
				a.dirty.push_back({o, i.size});
			}
	/* the sections of one address space after those of the other, or alternating */
	for (int order = 0; order < 3; order++) {
		Img im((uint64_t)1 << 40);
		std::vector<u64> L(keys.begin(), keys.end());
		const int nas = (int)L.size();
		if (order == 1)
			std::reverse(L.begin(), L.end());
		for (int k = 0; k < nas * (NREG - 1); k++) {
			int r = order == 2 ? k / nas : k % (NREG - 1);
			AsMem &a = space(L[order == 2 ? k % nas : k / (NREG - 1)]);
			struct pt_asid id;
			pt_asid_init(&id);
			id.cr3 = a.cr3;
			id.vmcs = a.vmcs;
			int is = pt_iscache_add_file(im.isc, a.file.c_str(), (u64)r * REGSZ, REGSZ, REG[r]);
			if (is <= 0 || pt_image_add_cached(im.im, im.isc, is, &id) < 0)
				vf::errors.push_back("adding a section failed");
		}
		for (int round = 0; round < 2; round++) {
			what = vf::fmt("address spaces (order %d)%s", order, round ? ", again" : "");
			report("asid", insns(m.tr, im.im), "");
			std::string why;
			Flow f = blocks(m.tr, im.im, round ? 3 : 0, &why);
			report("asid", f, why);
		}
	}
}
/* Another section is added while a decoder is at its n-th step; false if there is no such step. */
static bool midway(const At &a, u64 len, int n, bool blk)
{
	Img im((uint64_t)1 << 40);
	im.full(-1);
	Flow f;
	std::string why;
	int k = 0;
	bool done = false;
	auto hit = [&]() {
		if (k++ == n) {
			im.add(a.r, a.off, len);
			done = true;
		}
	};
	struct pt_insn_decoder *d = 0;
	struct pt_block_decoder *b = 0;
	int st;
	if (blk) {
		b = blkdec(cur->tr, im.im, 0);
		st = pt_blk_sync_forward(b);
	} else {
		struct pt_config c;
		config(&c, cur->tr);
		c.flags.variant.insn.enable_iflags_events = cur->c.iflags;
		d = pt_insn_alloc_decoder(&c);
		pt_insn_set_image(d, im.im);
		st = pt_insn_sync_forward(d);
	}
	while (st >= 0 && f.t.size() < (size_t)MAXTOK) {
		if (st & pts_event_pending) {
			struct pt_event e;
			memset(&e, 0, sizeof(e));
			st = blk ? pt_blk_event(b, &e, sizeof(e)) : pt_insn_event(d, &e, sizeof(e));
			if (st >= 0)
				f.t.push_back(tok(e));
			continue;
		}
		hit();
		size_t at = f.t.size();
		if (blk) {
			struct pt_block bk;
			memset(&bk, 0, sizeof(bk));
			st = pt_blk_next(b, &bk, sizeof(bk));
			if (bk.ninsn && !expand(bk, *cur, f, &why, 0))
				break;
		} else {
			struct pt_insn in;
			memset(&in, 0, sizeof(in));
			st = pt_insn_next(d, &in, sizeof(in));
			if (in.iclass != ptic_unknown)
				f.t.push_back(tok(in));
		}
		for (; at < f.t.size(); at++)
			if (!f.t[at].isev && in_region(f.t[at].i.ip) && f.t[at].isid != im.isid(f.t[at].i.ip))
				why = vf::fmt("instruction at %llx: section identifier %d, not %d  ",
					      (unsigned long long)f.t[at].i.ip, f.t[at].isid, im.isid(f.t[at].i.ip));
	}
	f.err = f.t.size() >= (size_t)MAXTOK ? -pte_overflow : st;
	pt_insn_free_decoder(d);
	pt_blk_free_decoder(b);
	if (done) {
		what = vf::fmt("overlay at %llx+%llu before step %d of the %s decoder", (unsigned long long)(REG[a.r] + a.off),
			       (unsigned long long)len, n, blk ? "block" : "instruction");
		report("midway", f, why);
	}
	return done;
}

static void provide(const Machine &m)
{
	/* callback */
	{
		Img im(0);
		pt_image_set_callback(im.im, readmem, 0);
		what = "callback";
		all("callback", im, 9);
	}
	if (asidrun)
		asids(m);
	if (asidrun == 2)
		return;
	auto at = bytes(m);
	int n = 0;
	for (auto &a : at) {
		n++;
		/* in long code, only around the limits of the block cache */
		if (at.size() > 200 && n > 3 && (n < 253 || n > 258) && (n < 1021 || n > 1028) &&
		    n + 10 < (int)at.size())
			continue;
		if (!a.off)
			continue;
		vf::beat();
		std::string s = vf::fmt("%llx", (unsigned long long)(REG[a.r] + a.off));
		{
			Img im((uint64_t)1 << 40);
			im.full(a.r);
			im.add(a.r, 0, a.off);
			im.add(a.r, a.off, REGSZ - a.off);
			for (int round = 0; round < 2; round++) {
				what = "split at " + s + (round ? ", again" : "");
				all("split", im, round ? 9 : 1);
			}
		}
		{
			Img im((uint64_t)1 << 40);
			im.full(a.r);
			im.add(a.r, 0, a.off);
			pt_image_set_callback(im.im, readmem, 0);
			what = "section ends at " + s + ", callback after";
			all("mixed", im, 1);
		}
		{
			Img im((uint64_t)1 << 40);
			im.full(a.r);
			im.add(a.r, a.off, REGSZ - a.off);
			pt_image_set_callback(im.im, readmem, 0);
			what = "callback, section begins at " + s;
			all("mixed", im, 1);
		}
		if (at.size() < 200)
			for (int blk = 0; blk < 2; blk++)
				for (int k = 1; midway(a, a.head ? 64 : 1, k, blk); k++)
					;
		static const u64 LEN[] = {1, 2, 7, 64};
		for (u64 l : LEN) {
			Img im((uint64_t)1 << 40);
			im.full(-1);
			what = "before split";
			all("before", im, 1);
			im.add(a.r, a.off, l);
			for (int round = 0; round < 2; round++) {
				what = "overlay at " + s + vf::fmt("+%llu", (unsigned long long)l) +
				       " after a decode" + (round ? ", again" : "");
				all("overlay", im, round ? 9 : 1);
			}
		}
	}
}
static void history(const Machine &m)
{
	auto at = bytes(m);
	/* the same trace with other flags, earlier */
	for (int f0 = 0; f0 < 4; f0++) {
		Img im((uint64_t)1 << 40);
		im.full(-1);
		prior(m.tr, im.im, f0);
		what = vf::fmt("after a decode with flags %d", f0);
		all("flags", im, 15);
	}
	/* another decoder is in the middle of the same trace */
	{
		Img im((uint64_t)1 << 40);
		im.full(-1);
		int n = 0;
		struct pt_block_decoder *d = blkdec(m.tr, im.im, 0);
		int st = pt_blk_sync_forward(d);
		while (st >= 0 && n++ < 200) {
			if (st & pts_event_pending) {
				struct pt_event e;
				st = pt_blk_event(d, &e, sizeof(e));
			} else {
				struct pt_block b;
				st = pt_blk_next(d, &b, sizeof(b));
			}
			what = vf::fmt("while another decoder is at step %d", n);
			all("concurrent", im, 1);
		}
		pt_blk_free_decoder(d);
	}
	for (auto &a : at) {
		static const int MODES[] = {M64, M32, M16};
		vf::beat();
		for (int mo : MODES)
			for (int tnt = 0; tnt < 3; tnt++) {
				auto t = entry(REG[a.r] + a.off, mo, tnt);
				Img im((uint64_t)1 << 40);
				im.full(-1);
				prior(t, im.im, 0);
				what = vf::fmt("after a decode from %llx in mode %d (%d)",
					       (unsigned long long)(REG[a.r] + a.off), mo, tnt);
				all("entry", im, tnt ? 1 : 9);
				if (!a.head || tnt)
					continue;
				/* two earlier decodes */
				for (auto &b : at) {
					if (!b.head || (b.r == a.r && b.off == a.off))
						continue;
					for (int mo2 : MODES) {
						if (mo2 == mo && !th)
							continue;
						Img i2((uint64_t)1 << 40);
						i2.full(-1);
						prior(t, i2.im, 0);
						prior(entry(REG[b.r] + b.off, mo2, 0), i2.im, 3);
						what = vf::fmt("after decodes from %llx in mode %d and %llx in mode %d",
							       (unsigned long long)(REG[a.r] + a.off), mo,
							       (unsigned long long)(REG[b.r] + b.off), mo2);
						all("entries", i2, 8);
					}
				}
			}
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	th = vf::opt.thorough;
	env = new Env;
	bool hist = vf::opt.part == "history";
	Walker w;
	w.visit = [&](const Machine &m0, const std::vector<int> &path) {
		Machine m = m0;
		if (!m.end())
			return;
		vf::cur(steps_str(path) + " | " + m.trace());
		env->load(m);
		cur = &m;
		thepath = &path;
		exp_ = truth(m);
		std::string s = exp_.str();
		vf::distinct(vf::fnv(s.data(), s.size()));
		hist ? history(m) : provide(m);
	};
	auto byvmcs = [&](int depth) {
		auto cs = cfgs();
		w.alpha = T_SYSTEM;
		w.depth = depth;
		w.cfg = cs[0];
		w.cfg.vmcs = 0xa123456789000;
		w.start_enabled = true;
		asidrun = 2;
		w.run();
	};
	if (!hist)
		byvmcs(th ? 4 : 3);
	auto go = [&](const std::vector<int> &alpha, int depth, int c0, int c1) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = c0; i < c1; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[i];
				w.start_enabled = asidrun = e;
				w.run();
			}
	};
	if (th) {
		go(all_steps(), 2, 0, 3);
		for (auto &t : THEMES)
			go(*t.steps, 3, 0, 1);
		go(T_BRANCH, 3, 6, 8);
		if (!hist)
			deep(w, 1, 1);
	} else {
		go(all_steps(), 2, 0, 1);
		go(T_BRANCH, 3, 0, 1);
		go(T_BRANCH, 2, 6, 8); /* long branches */
		if (!hist)
			go(T_MODE, 3, 0, 1);
	}
	vf::count("states", w.nodes);
	vf::count("transitions", w.edges);
	return vf::finish();
}
