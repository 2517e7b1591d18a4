// C13: any bytes are decoded safely and to an end.
//
// Part "packets": sequences of packets in any order, well-formed or not, through all decoders.
// Part "deep": the same, with more contexts and longer sequences of related packets.
// Part "bytes": arbitrary bytes behind a PSB+.
// Part "code": arbitrary code bytes under a fixed set of traces.
#include <sys/mman.h>
#include "decs.hpp"
#include "refpkt.hpp"
#include "hw.hpp"
typedef std::vector<uint8_t> Bytes;
using vf::fmt;

static const uint64_t BASE = 0x1000, SIZE = 0x1000;
static uint8_t *mem;
static struct pt_image *image, *cbimage;
static vf::Guard *G;
static int cbmode;

static int readmem(uint8_t *b, size_t n, const struct pt_asid *, uint64_t ip, void *)
{
	switch (cbmode) {
	case 1: return -pte_bad_image;
	case 2: return -pte_nomap;
	case 3: return -1000;
	case 4:
		if (!n)
			return -pte_invalid;
		b[0] = ip - BASE < SIZE ? mem[ip - BASE] : 0xcc;
		return 1;
	}
	size_t i;
	for (i = 0; i < n && ip + i - BASE < SIZE; i++)
		b[i] = mem[ip + i - BASE];
	return i ? (int)i : -pte_nomap; /* at least one byte, or an error */
}

static void put(uint64_t ip, std::initializer_list<int> b)
{
	for (int x : b)
		mem[ip++ - BASE] = (uint8_t)x;
}
static void standard_code()
{
	memset(mem, 0xcc, SIZE);
	put(0x1000, {0x90, 0x75, 0x02, 0x90, 0x90, 0xe8, 0x36, 0, 0, 0, 0xff, 0xe0}); /* call 0x1040 */
	put(0x1040, {0x74, 0x01, 0x90, 0xc3});
	put(0x1050, {0xff, 0xd0, 0xc3});
	put(0x1060, {0xeb, 0x9e});                  /* jmp 0x1000 */
	put(0x1070, {0x0f, 0x22, 0xd8, 0x75, 0xfb}); /* mov cr3; jne 0x1070 */
	put(0x1080, {0x0f, 0xc7, 0x30, 0x0f, 0x01, 0xc2});  /* vmptrld; vmlaunch */
	put(0x1090, {0xf3, 0x0f, 0xae, 0xe0, 0x90, 0x72, 0xf9}); /* ptwrite; nop; jc */
	put(0x10a0, {0x0f, 0x05});
	put(0x10b0, {0x48, 0xcf});
	put(0x1ffe, {0xe9, 0x00});                  /* ends with the section */
}

/* The instructions reported last, and whether the code just decoded is a loop without branches. */
static std::vector<struct pt_insn> recent;
static bool loops;
static bool codeloop()
{
	if (recent.size() < 2)
		return false;
	size_t i = recent.size() - 1;
	const struct pt_insn &z = recent[i];
	do {
		const struct pt_insn &n = recent[i - 1];
		size_t k = 0;
		static const uint8_t pfx[] = {0x66, 0x67, 0xf2, 0xf3, 0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65, 0xf0};
		while (k < n.size && (memchr(pfx, n.raw[k], sizeof(pfx)) || (n.mode == ptem_64bit && n.raw[k] >> 4 == 4)))
			k++;
		if (k >= n.size)
			return false;
		bool direct = n.raw[k] == 0xe8 || n.raw[k] == 0xe9 || n.raw[k] == 0xeb;
		if (!direct && n.iclass != ptic_other && n.iclass != ptic_ptwrite)
			return false;
		if (n.ip == z.ip)
			return true;
	} while (--i);
	return false;
}

struct Ctl {
	uint64_t calls = 0;
	uint64_t limit;
	std::string why, key;
	uint64_t size;
	bool have = false, lost = false, errata = false;
	uint64_t off = 0, loopoff = ~0ull;
	void bad(const char *k, const std::string &w)
	{
		if (why.empty())
			key = k, why = w;
	}
	/* An answer of a decoder. */
	int st(const char *fn, int rc)
	{
		calls++;
		if (rc >= 0)
			return rc;
		switch (-rc) {
		case pte_internal:
			/* without synchronizing again after an error, anything may be reported */
			if (lost)
				break;
			bad("internal", std::string(fn) + " reports an internal error");
			break;
		case pte_invalid: case pte_nomem: case pte_bad_config: case pte_bad_lock: case pte_bad_file:
		case pte_bad_cpu:
			bad("error", fmt("%s reports %s", fn, vf::ename(rc)));
			break;
		default:
			if (rc < -pte_bad_cpu && rc != -1000 && rc != -77)
				bad("error", fmt("%s reports unknown error %d", fn, rc));
		}
		return rc;
	}
	bool over() { return calls > limit || why.size(); }
};

static void offsets(dec::D &d, Ctl &c, bool fresh)
{
	uint64_t o, so;
	int e = d.off(&o), s = d.soff(&so);
	if (e < 0 || s < 0) {
		if (e != -pte_nosync && e < 0)
			c.bad("offset", fmt("get_offset: %s", vf::ename(e)));
		return;
	}
	if (o > c.size || so > c.size || so > o)
		c.bad("offset", fmt("offset %llu, sync offset %llu in a trace of %llu bytes", (unsigned long long)o,
				    (unsigned long long)so, (unsigned long long)c.size));
	if (!fresh && c.have && o < c.off)
		c.bad("backward", fmt("the position goes back from %llu to %llu", (unsigned long long)c.off,
				      (unsigned long long)o));
	c.off = o;
	c.have = true;
}

/* Everything may be asked at any time. */
static void poke(dec::D &d, Ctl &c)
{
	uint64_t t = 0;
	uint32_t a = 0, b = 0;
	struct pt_asid as;
	memset(&as, 0, sizeof(as));
	switch (d.k) {
	case dec::QRY:
		pt_qry_time((pt_query_decoder *)d.p, &t, &a, &b);
		pt_qry_core_bus_ratio((pt_query_decoder *)d.p, &a);
		break;
	case dec::INS:
		pt_insn_time((pt_insn_decoder *)d.p, &t, &a, &b);
		pt_insn_core_bus_ratio((pt_insn_decoder *)d.p, &a);
		pt_insn_asid((pt_insn_decoder *)d.p, &as, sizeof(as));
		break;
	case dec::BLK:
		pt_blk_time((pt_block_decoder *)d.p, &t, &a, &b);
		pt_blk_core_bus_ratio((pt_block_decoder *)d.p, &a);
		pt_blk_asid((pt_block_decoder *)d.p, &as, sizeof(as));
		break;
	default: break;
	}
	(void)c;
}

static int next(dec::D &d, Ctl &c, int st)
{
	vf::beat();
	switch (d.k) {
	case dec::PKT: {
		struct pt_packet p;
		uint64_t o = 0;
		bool sy = pt_pkt_get_offset((pt_packet_decoder *)d.p, &o) == 0;
		int n = c.st("pt_pkt_next", pt_pkt_next((pt_packet_decoder *)d.p, &p, sizeof(p)));
		uint64_t o2 = 0;
		pt_pkt_get_offset((pt_packet_decoder *)d.p, &o2);
		/* the workaround for SKD007 drops a byte that is no packet */
		uint64_t drop = c.errata && o2 == o + (uint64_t)n + 1;
		if (sy && n >= 0 && (o2 - drop != o + (uint64_t)n || !n || n != p.size))
			c.bad("packet", fmt("a packet of %d (%d) bytes moves from %llu to %llu", n, p.size,
					    (unsigned long long)o, (unsigned long long)o2));
		return n;
	}
	case dec::EVT: {
		struct pt_event e;
		return c.st("pt_evt_next", pt_evt_next((pt_event_decoder *)d.p, &e, sizeof(e)));
	}
	case dec::QRY: {
		pt_query_decoder *q = (pt_query_decoder *)d.p;
		struct pt_event e;
		int tk = 0;
		uint64_t ip = 0;
		if (st & pts_event_pending) {
			int s = c.st("pt_qry_event", pt_qry_event(q, &e, sizeof(e)));
			if (s != -pte_bad_query)
				return s;
		}
		int s = c.st("pt_qry_cond_branch", pt_qry_cond_branch(q, &tk));
		if (s == -pte_bad_query)
			s = c.st("pt_qry_indirect_branch", pt_qry_indirect_branch(q, &ip));
		if (s == -pte_bad_query)
			s = c.st("pt_qry_event", pt_qry_event(q, &e, sizeof(e)));
		return s;
	}
	case dec::INS: {
		struct pt_event e;
		struct pt_insn n;
		if (st & pts_event_pending)
			return c.st("pt_insn_event", pt_insn_event((pt_insn_decoder *)d.p, &e, sizeof(e)));
		int s = c.st("pt_insn_next", pt_insn_next((pt_insn_decoder *)d.p, &n, sizeof(n)));
		if (s >= 0) {
			/* Without progress in the trace for long, is the code an endless loop? */
			recent.push_back(n);
			if (recent.size() > 400) {
				if (c.off == c.loopoff && codeloop())
					c.limit = c.calls - 1, loops = true;
				c.loopoff = c.off;
				recent.clear();
			}
		}
		return s;
	}
	default: {
		struct pt_event e;
		struct pt_block b;
		if (st & pts_event_pending)
			return c.st("pt_blk_event", pt_blk_event((pt_block_decoder *)d.p, &e, sizeof(e)));
		return c.st("pt_blk_next", pt_blk_next((pt_block_decoder *)d.p, &b, sizeof(b)));
	}
	}
}

static int unkmode;
static int unknown(struct pt_packet_unknown *, const struct pt_config *, const uint8_t *, void *)
{
	static const int r[] = {-pte_bad_opc, 1, 3, 200, -pte_bad_packet, -77}; /* zero would mean: decode here again */
	return r[unkmode];
}

static std::string decode(dec::Kind k, const struct pt_config *cfg, struct pt_image *img, std::string *key)
{
	Ctl c;
	c.size = (uint64_t)(cfg->end - cfg->begin);
	c.errata = cfg->errata.skd007;
	/* what the trace can say, times the longest stretch of code between two such things */
	c.limit = c.size * 8 * 40 + 500;
	if (k == dec::BLK && loops)
		c.limit = 50; /* long blocks */
	recent.clear();
	if (k != dec::BLK)
		loops = false;
	dec::D d(k, cfg);
	if (!d.p)
		return "cannot allocate a decoder";
	if (k == dec::INS)
		pt_insn_set_image((pt_insn_decoder *)d.p, img);
	if (k == dec::BLK)
		pt_blk_set_image((pt_block_decoder *)d.p, img);
	poke(d, c);
	next(d, c, 0);
	next(d, c, pts_event_pending);
	uint64_t last = 0;
	bool any = false;
	while (!c.over()) {
		c.lost = false;
		int st = c.st("sync_forward", d.fwd());
		if (st == -pte_eos)
			break;
		uint64_t so;
		if (d.soff(&so) == 0) {
			if (any && so <= last)
				c.bad("resync", fmt("synchronizes at %llu after %llu", (unsigned long long)so,
						    (unsigned long long)last));
			last = so;
			any = true;
		} else
			break;
		offsets(d, c, true);
		poke(d, c);
		while (st >= 0 && !c.over()) {
			st = next(d, c, st);
			offsets(d, c, false);
			poke(d, c);
		}
		/* errors do not make the decoder unusable */
		c.lost = true;
		for (int i = 0; i < 2 && !c.over(); i++) {
			next(d, c, i ? pts_event_pending : 0);
			offsets(d, c, false);
			poke(d, c);
		}
	}
	if (c.why.empty() && c.calls > c.limit && !loops)
		c.bad("endless", fmt("no end after %llu calls", (unsigned long long)c.calls));
	vf::maxi("calls", c.calls);
	vf::distinct(vf::fnv(&c.calls, 8, vf::fnv(&c.off, 8, (uint64_t)k)));
	*key = c.key;
	return c.why;
}

static void run(const Bytes &t, int env, const std::string &desc)
{
	vf::curhex("trace ", t.data(), t.size());
	struct pt_config cfg;
	pt_config_init(&cfg);
	cfg.begin = G->right(t.data(), t.size());
	cfg.end = cfg.begin + t.size();
	cfg.mtc_freq = 3;
	cfg.cpuid_0x15_eax = 2;
	cfg.cpuid_0x15_ebx = 100;
	cfg.nom_freq = 20;
	if (env & 1) {
		memset(&cfg.errata, 0, sizeof(cfg.errata));
		cfg.errata.bdm70 = cfg.errata.bdm64 = cfg.errata.skd007 = cfg.errata.skd022 = 1;
		cfg.errata.skd010 = cfg.errata.skl014 = cfg.errata.apl12 = cfg.errata.apl11 = cfg.errata.skl168 = 1;
		cfg.errata.skz84 = 1;
		cfg.addr_filter.config.addr_cfg = 0x21;
		cfg.addr_filter.addr0_a = 0x1000, cfg.addr_filter.addr0_b = 0x1fff;
		cfg.addr_filter.addr1_a = 0x1060, cfg.addr_filter.addr1_b = 0x106f;
	}
	if (env & 2) {
		cfg.mtc_freq = 0;
		cfg.cpuid_0x15_eax = cfg.cpuid_0x15_ebx = 0;
		cfg.nom_freq = 0;
	}
	for (int k = 0; k < dec::NKIND; k++) {
		struct pt_config c = cfg;
		if ((env & 4) && k == dec::BLK) {
			c.flags.variant.block.end_on_call = c.flags.variant.block.end_on_jump = 1;
			c.flags.variant.block.enable_tick_events = 1;
			c.flags.variant.block.enable_iflags_events = 1;
			c.flags.variant.block.keep_tcal_on_ovf = 1;
		}
		if ((env & 4) && k == dec::INS) {
			c.flags.variant.insn.enable_tick_events = c.flags.variant.insn.enable_iflags_events = 1;
			c.flags.variant.insn.keep_tcal_on_ovf = 1;
		}
		if ((env & 4) && k == dec::QRY)
			c.flags.variant.query.enable_iflags_events = 1;
		if ((env & 4) && k == dec::EVT)
			c.flags.variant.event.enable_iflags_events = 1;
		if (env & 8)
			c.decode.callback = unknown;
		vf::count("evaluations");
		std::string key, why = decode((dec::Kind)k, &c, env & 16 ? cbimage : image, &key);
		if (why.size())
			vf::viol(key + "-" + dec::NAME[k], fmt("%s decoder (environment %d/%d/%d): ", dec::NAME[k], env,
				 cbmode, unkmode) + why + "\n  " + desc + "\n  trace: " + vf::hex(t));
	}
	vf::count("traces_validated_against_impl");
}

struct T {
	std::string name;
	Bytes b;
};
static std::vector<T> toks;
static std::map<std::string, int> tid;
static void tok(const std::string &n, Bytes b)
{
	tid[n] = (int)toks.size();
	toks.push_back({n, b});
}
static Bytes ipp(int op, int ipc, uint64_t ip)
{
	static const int len[] = {0, 2, 4, 6, 6, 0, 8, 0};
	Bytes b{(uint8_t)(op | ipc << 5)};
	for (int i = 0; i < len[ipc]; i++)
		b.push_back((uint8_t)(ip >> 8 * i));
	return b;
}
static void tokens()
{
	auto a = [&](const char *n, std::initializer_list<int> l) {
		Bytes b;
		for (int x : l)
			b.push_back((uint8_t)x);
		tok(n, b);
	};
	a("pad", {0});
	a("T", {0x06});
	a("N", {0x04});
	a("TN6", {0xd6});
	a("LT47", {0x02, 0xa3, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff});
	a("LN2", {0x02, 0xa3, 0x04, 0, 0, 0, 0, 0});
	tok("tip", ipp(0x0d, 1, 0x1000));
	tok("tip.s", ipp(0x0d, 0, 0));
	tok("tip.50", ipp(0x0d, 1, 0x1050));
	tok("tip.70", ipp(0x0d, 2, 0x1070));
	tok("tip.80", ipp(0x0d, 3, 0x1080));
	tok("tip.90", ipp(0x0d, 6, 0x1090));
	tok("tip.c0", ipp(0x0d, 1, 0x10c0));
	tok("tip.end", ipp(0x0d, 1, 0x1ffe));
	tok("tip.un", ipp(0x0d, 3, 0xffff80005000ull));
	tok("tip.r5", ipp(0x0d, 5, 0));
	tok("pge", ipp(0x11, 3, 0x1000));
	tok("pge.s", ipp(0x11, 0, 0));
	tok("pge.60", ipp(0x11, 1, 0x1060));
	tok("pge.a0", ipp(0x11, 6, 0x10a0));
	tok("pgd", ipp(0x01, 1, 0x1050));
	tok("pgd.s", ipp(0x01, 0, 0));
	tok("pgd.un", ipp(0x01, 3, 0x5000));
	tok("fup", ipp(0x1d, 3, 0x1000));
	tok("fup.s", ipp(0x1d, 0, 0));
	tok("fup.05", ipp(0x1d, 1, 0x1005));
	tok("fup.90", ipp(0x1d, 1, 0x1090));
	tok("fup.un", ipp(0x1d, 6, 0xffffffffffffffffull));
	a("pip", {0x02, 0x43, 0x00, 0x20, 0, 0, 0, 0});
	a("pip.nr", {0x02, 0x43, 0x01, 0x40, 0, 0, 0, 0});
	a("m64", {0x99, 0x01});
	a("m32", {0x99, 0x02});
	a("m16", {0x99, 0x04});
	a("mbad", {0x99, 0x03});
	a("txb", {0x99, 0x21});
	a("txc", {0x99, 0x20});
	a("txa", {0x99, 0x22});
	a("m?", {0x99, 0x40});
	a("tsc", {0x19, 1, 2, 3, 4, 5, 6, 7});
	a("tma", {0x02, 0x73, 0x10, 0x00, 0x00, 0x05, 0x00});
	a("tma.bad", {0x02, 0x73, 0xff, 0xff, 0x10, 0xff, 0xff});
	a("cbr", {0x02, 0x03, 0x10, 0x00});
	a("cbr0", {0x02, 0x03, 0x00, 0x00});
	a("mtc", {0x59, 0x01});
	a("mtc2", {0x59, 0xff});
	a("cyc", {0x1b});
	a("cyc0", {0x03});
	a("cycmax", {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x06});
	a("cycover", {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02});
	a("ovf", {0x02, 0xf3});
	a("stop", {0x02, 0x83});
	a("vmcs", {0x02, 0xc8, 1, 0, 0, 0, 0});
	a("mnt", {0x02, 0xc3, 0x88, 1, 2, 3, 4, 5, 6, 7, 8});
	a("mntbad", {0x02, 0xc3, 0x77, 1, 2, 3, 4, 5, 6, 7, 8});
	a("ptw", {0x02, 0x12, 1, 2, 3, 4});
	a("ptw.ip", {0x02, 0xb2, 1, 2, 3, 4, 5, 6, 7, 8});
	a("ptw.bad", {0x02, 0x52, 1, 2, 3, 4, 5, 6, 7, 8});
	a("exs", {0x02, 0x62});
	a("exs.ip", {0x02, 0xe2});
	a("mwait", {0x02, 0xc2, 1, 0, 0, 0, 2, 0, 0, 0});
	a("pwre", {0x02, 0x22, 0x80, 0x21});
	a("pwrx", {0x02, 0xa2, 0x21, 0x01, 0, 0, 0});
	a("evd", {0x02, 0x53, 0x00, 1, 2, 3, 4, 5, 6, 7, 8});
	a("evd.vmx", {0x02, 0x53, 0x02, 1, 2, 3, 4, 5, 6, 7, 8});
	a("evd.bad", {0x02, 0x53, 0x3f, 1, 2, 3, 4, 5, 6, 7, 8});
	for (int ty = 0; ty < 16; ty++)
		for (int ip = 0; ip < 2; ip++)
			tok(fmt("cfe%d%s", ty, ip ? ".ip" : ""),
			    {0x02, 0x13, (uint8_t)(ty | ip << 7), (uint8_t)(ty == 1 ? 14 : 3)});
	a("trig", {0xd9, 0x03, 0x05});
	a("trig.ip", {0xd9, 0x83, 0x00});
	a("trig.2", {0xd9, 0x43, 0xff});
	a("psb", {2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82});
	a("psbend", {0x02, 0x23});
	a("bad", {0x05});
	a("badx", {0x02, 0xff});
	a("badx2", {0x02, 0xc3, 0x00});
	a("cut", {0x02});
}
static Bytes bytes(std::initializer_list<const char *> l)
{
	Bytes b;
	for (auto s : l) {
		if (!tid.count(s)) {
			fprintf(stderr, "no token %s\n", s);
			exit(3);
		}
		auto &x = toks[(size_t)tid[s]].b;
		b.insert(b.end(), x.begin(), x.end());
	}
	return b;
}

static uint64_t nodes, unit;
static void walk(const std::vector<int> &al, Bytes &t, std::string &d, int depth, int env, const Bytes &tail)
{
	if (vf::late())
		return;
	nodes++;
	if (tail.empty())
		run(t, env, d);
	else {
		Bytes u = t;
		u.insert(u.end(), tail.begin(), tail.end());
		run(u, env, d);
	}
	if (!depth)
		return;
	for (int i : al) {
		size_t n = t.size(), m = d.size();
		t.insert(t.end(), toks[(size_t)i].b.begin(), toks[(size_t)i].b.end());
		d += " " + toks[(size_t)i].name;
		walk(al, t, d, depth - 1, env, tail);
		t.resize(n);
		d.resize(m);
	}
}
static void explore(const std::vector<int> &al, const Bytes &pre, int depth, int env, const Bytes &tail = Bytes())
{
	for (int i : al) {
		if (!vf::mine(unit++))
			continue;
		Bytes t = pre;
		std::string d = toks[(size_t)i].name;
		t.insert(t.end(), toks[(size_t)i].b.begin(), toks[(size_t)i].b.end());
		walk(al, t, d, depth - 1, env, tail);
	}
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	bool th = vf::opt.thorough;
	G = new vf::Guard(4);
	int fd = memfd_create("code", 0);
	if (fd < 0 || ftruncate(fd, (off_t)SIZE))
		return 3;
	mem = (uint8_t *)mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	standard_code();
	image = pt_image_alloc(0);
	if (pt_image_add_file(image, fmt("/proc/self/fd/%d", fd).c_str(), 0, SIZE, 0, BASE) < 0)
		return 3;
	cbimage = pt_image_alloc(0);
	pt_image_set_callback(cbimage, readmem, 0);
	tokens();
	std::vector<int> all;
	for (size_t i = 0; i < toks.size(); i++)
		all.push_back((int)i);
	std::vector<Bytes> ctx = {
		bytes({"psb", "psbend", "pge"}),
		bytes({"psb", "m64", "fup", "psbend"}),
		bytes({"psb", "psbend"}),
		bytes({"psb", "tsc", "tma", "cbr", "fup", "m64", "psbend", "mtc"}),
		bytes({"psb"}),
		bytes({"psb", "psbend", "pge", "T", "tip.s", "ovf"}),
		bytes({"psb", "tsc", "txb", "fup", "vmcs", "pip", "m32", "psbend", "TN6"}),
	};
	const std::string &p = vf::opt.part;
	if (p == "packets") {
		for (size_t i = 0; i < ctx.size(); i++) {
			explore(all, ctx[i], i < 2 || th ? 3 : 2, (int)(i * 5 + 4) & 7);
			explore(all, ctx[i], 2, 7, bytes({"psb", "fup", "psbend", "T", "N", "tip"}));
		}
		for (unkmode = 0; unkmode < 6; unkmode++)
			explore(all, ctx[0], 2, 8 | 4);
		for (cbmode = 0; cbmode < 5; cbmode++)
			explore(all, ctx[0], 2, 16 | 4);
	} else if (p == "deep") {
		auto sel = [&](std::initializer_list<const char *> l) {
			std::vector<int> v;
			for (auto s : l)
				v.push_back(tid.at(s));
			return v;
		};
		const std::vector<std::vector<int>> A = {
			sel({"T", "TN6", "tip", "tip.s", "tip.50", "pge", "pgd", "pgd.s", "fup", "ovf", "psb", "psbend"}),
			sel({"fup", "fup.05", "ovf", "pge", "pgd.s", "tip.70", "txb", "txa", "txc", "m32", "T", "psbend"}),
			sel({"pip", "vmcs", "tip.80", "tip.70", "m64", "m32", "pge", "pgd", "fup", "T", "psb", "psbend"}),
			sel({"ptw.ip", "exs.ip", "exs", "mwait", "pwre", "pwrx", "fup.90", "tip.90", "pge", "pgd.s", "ovf", "mnt"}),
			sel({"evd", "evd.vmx", "cfe0.ip", "cfe1.ip", "cfe3", "cfe12.ip", "cfe15", "fup", "tip", "pge", "pgd", "ovf"}),
			sel({"tsc", "tma", "tma.bad", "cbr", "cbr0", "mtc", "mtc2", "cyc", "cycmax", "ovf", "psb", "psbend"}),
			sel({"trig.ip", "trig", "trig.2", "ptw", "T", "tip.90", "fup.90", "pge", "pgd", "ovf", "stop", "tsc"}),
			sel({"LT47", "LN2", "T", "tip", "tip.50", "pge", "pge.60", "pge.a0", "tip.end", "tip.un", "fup.un", "stop"}),
		};
		for (size_t c = 0; c < 4; c++)
			for (size_t a = 0; a < A.size(); a++)
				explore(A[a], ctx[c], th ? 6 : 4, (int)(c + a) & 7);
		for (size_t c = 2; c < ctx.size(); c++)
			for (int env = 0; env < 8; env += c & 1 ? 3 : 5)
				explore(all, ctx[c], th ? 3 : 2, env);
	} else if (p == "bytes") {
		/* all byte sequences, then all second bytes with selected others */
		static const uint8_t fillers[] = {0x00, 0x02, 0x06, 0x82, 0xff, 0x2d};
		for (int c = 0; c < (th ? 4 : 2); c++) {
			const Bytes &pre = ctx[(size_t)c];
			for (int x = 0; x < 65536; x++) {
				if (!vf::mine(unit++))
					continue;
				if (vf::late())
					break;
				for (size_t f = 0; f < sizeof(fillers); f++)
					for (int n = 0; n <= (th ? 12 : 9); n += th ? 1 : n < 2 ? 1 : 7) {
						Bytes t = pre;
						t.push_back((uint8_t)(x >> 8));
						t.push_back((uint8_t)x);
						if (!n && f)
							break;
						for (int i = 0; i < n; i++)
							t.push_back(fillers[f]);
						nodes++;
						run(t, c & 1 ? 7 : 4, "");
					}
			}
		}
	} else if (p == "code") {
		/* the first two bytes, and the bytes that follow, of the code at the start address */
		static const uint8_t tail[][13] = {
			{0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc, 0xcc},
			{0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3, 0xc3},
			{0x22, 0xd8, 0x48, 0x0f, 0x05, 0xff, 0xe0, 0xff, 0xd0, 0xc3, 0x75, 0xf0, 0xcc},
			{0x38, 0xc0, 0x24, 0x10, 0x7f, 0xeb, 0x02, 0xcc, 0xcf, 0xcc, 0xcc, 0xcc, 0xcc},
			{0xeb, 0xfe, 0x75, 0xfe, 0xe8, 0xfb, 0xff, 0xff, 0xff, 0xcc, 0xcc, 0xcc, 0xcc},
			{0x66, 0x66, 0xf2, 0xf3, 0x2e, 0x36, 0x3e, 0x64, 0x65, 0x26, 0x67, 0x66, 0xf0},
		};
		const Bytes tr[] = {
			bytes({"psb", "psbend", "m64", "pge", "T", "N", "tip", "T", "N", "pgd"}),
			bytes({"psb", "psbend", "m32", "pge", "TN6", "tip.s", "fup", "tip.50", "T"}),
			bytes({"psb", "psbend", "m16", "pge", "pip", "tip.50", "ptw.ip", "N", "pgd.s"}),
			/* aborts (erratum BDM64) */
			bytes({"psb", "psbend", "m64", "txb", "pge.60", "N", "txa", "fup.90", "tip.80", "T"}),
			bytes({"psb", "psbend", "m64", "txb", "pge.60", "tip.c0", "txa", "fup.90", "tip.80", "T"}),
			bytes({"psb", "m64", "txb", "fup.05", "psbend", "tip", "T", "txa", "fup.90", "tip.80", "T"}),
		};
		for (int x = 0; x < 65536; x++) {
			if (!vf::mine(unit++))
				continue;
			if (vf::late())
				break;
			for (auto &tl : tail)
				for (int where = 0; where < 2; where++) {
					standard_code();
					put(0x10c0, {0x90, 0xeb, 0xfd}); /* nop; jmp back */
					uint64_t at = where ? 0x1ffe : 0x1000;
					put(at, {x >> 8, x & 255});
					if (!where)
						memcpy(mem + 2, tl, sizeof(tl));
					for (auto &t : tr) {
						Bytes u = t;
						if (where) {
							/* start at the end of the section */
							Bytes v = bytes({"psb", "psbend", "m64"});
							Bytes q = ipp(0x11, 1, at);
							v.insert(v.end(), q.begin(), q.end());
							v.push_back(0x06);
							u = v;
						}
						nodes++;
						run(u, &t > &tr[2] ? 5 : 4, fmt("code %02x %02x", x >> 8, x & 255));
						if (where)
							break;
					}
					if (where && &tl != &tail[0])
						break;
				}
		}
	}
	vf::count("states", nodes);
	return vf::finish();
}
