// C19: lengths and classes of x86 instructions, for all encodings, through the instruction flow decoder.
//
// Part "maps": opcode maps x ModRM x prefix sets.  Part "vex": VEX, EVEX, and REX2 payloads.
// Part "prefix": sequences of prefixes.  Part "bind": which events bind to which instruction.
#include "common.hpp"
#include "refild.hpp"
using namespace vf;

static const uint64_t BASE = 0x405000;
static uint8_t code[64];
static int ncode;          /* bytes that are mapped */
static uint64_t lastread;
static uint64_t nreads;
static bool nops;          /* memory elsewhere contains NOPs, or MOV CR3 */
static const uint8_t *fillins;
static int fillsz;

static int readmem(uint8_t *b, size_t n, const struct pt_asid *, uint64_t ip, void *)
{
	lastread = ip;
	nreads++;
	uint64_t o = ip - BASE;
	if (o < (uint64_t)ncode) {
		size_t k = (size_t)ncode - (size_t)o;
		if (k > n)
			k = n;
		memcpy(b, code + o, k);
		return (int)k;
	}
	if (fillins && ncode) {
		size_t k = 0;
		for (; k + (size_t)fillsz <= n; k += (size_t)fillsz)
			memcpy(b + k, fillins, (size_t)fillsz);
		return (int)k;
	}
	return -pte_nomap;
}

static struct Dec {
	struct pt_insn_decoder *d;
	std::vector<uint8_t> tr;
} dec[3][4]; /* mode, tail: nothing, taken, not taken, TIP */
static const uint64_t TIP = 0x7e0000;

static struct pt_insn_decoder *mk(std::vector<uint8_t> &t)
{
	struct pt_config c;
	pt_config_init(&c);
	c.begin = t.data();
	c.end = t.data() + t.size();
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	struct pt_image *im = pt_image_alloc(NULL);
	pt_image_set_callback(im, readmem, NULL);
	pt_insn_set_image(d, im);
	return d;
}
static void header(std::vector<uint8_t> &t, int mode, std::vector<uint8_t> extra = {})
{
	static const uint8_t mo[3] = {0x00, 0x02, 0x01};
	for (int i = 0; i < 8; i++)
		t.insert(t.end(), {0x02, 0x82});
	t.insert(t.end(), {0x99, mo[mode]});
	t.insert(t.end(), {0x7d, 0, 0, 0, 0, 0, 0});
	for (int i = 0; i < 6; i++)
		t[t.size() - 6 + (size_t)i] = (uint8_t)(BASE >> (8 * i));
	t.insert(t.end(), {0x02, 0x23});
	t.insert(t.end(), extra.begin(), extra.end());
}
static void setup()
{
	for (int m = 0; m < 3; m++)
		for (int k = 0; k < 4; k++) {
			header(dec[m][k].tr, m);
			if (k == 3)
				dec[m][k].tr.insert(dec[m][k].tr.end(), {0x4d, 0, 0, 0x7e, 0});
			else if (k)
				dec[m][k].tr.push_back(k == 1 ? 0x06 : 0x04);
			dec[m][k].d = mk(dec[m][k].tr);
		}
}
static int drain(struct pt_insn_decoder *d, int st)
{
	struct pt_event e;
	while (st >= 0 && (st & pts_event_pending))
		st = pt_insn_event(d, &e, sizeof(e));
	return st;
}

static const char *mname[3] = {"16", "32", "64"};
static const enum pt_exec_mode emode[3] = {ptem_16bit, ptem_32bit, ptem_64bit};

struct Got {
	int st;
	struct pt_insn in;
	uint64_t next; /* the address of the next instruction, or 0 */
};
static Got step(int m, int tail, bool second)
{
	Got g;
	struct pt_insn_decoder *d = dec[m][tail].d;
	memset(&g, 0, sizeof(g));
	beat();
	int st = drain(d, pt_insn_sync_set(d, 0));
	if (st < 0) {
		viol("sync", fmt("sync: %s", pt_errstr(pt_errcode(st))));
		g.st = st;
		return g;
	}
	nreads = 0;
	g.st = pt_insn_next(d, &g.in, sizeof(g.in));
	if (second && g.st >= 0) {
		int keep = ncode;
		struct pt_insn i2;
		ncode = 0;
		lastread = 0;
		st = drain(d, g.st);
		if (st >= 0)
			(void)pt_insn_next(d, &i2, sizeof(i2));
		g.next = lastread;
		ncode = keep;
	}
	return g;
}

static uint64_t nok, nundef;
/* The @n bytes at @code, in @m.  @lvl: 0 length and class, 1 also targets, 2 also truncation and other tails. */
static void check(int m, int n, int lvl)
{
	refild::Ref r = refild::decode(code, n, m);
	curhex(mname[m], code, (size_t)n);
	ncode = n;
	int tail = r.cls == ptic_cond_jump ? 1 : !r.direct && r.cls != ptic_other && r.cls != ptic_ptwrite ? 3 : 0;
	Got g = step(m, tail, lvl >= 1);
	count("evaluations");
	if (g.st < 0 && !tail && (r.st == refild::undef || !r.clsknown)) {
		tail = 3; /* maybe it is taken for an indirect branch */
		g = step(m, tail, false);
		count("evaluations");
	}
	auto say = [&](const char *k, std::string t) {
		viol(k, fmt("mode %s, %s: %s", mname[m], hex(code, (size_t)n).c_str(), t.c_str()));
	};
	if (r.st == refild::undef) {
		nundef++;
		if (g.st >= 0) {
			if (!g.in.size || g.in.size > n || g.in.size > 15)
				say("size", fmt("size %d of an undefined instruction", g.in.size));
			if (memcmp(g.in.raw, code, g.in.size))
				say("raw", "raw bytes differ");
		}
	} else if (r.st == refild::ok) {
		nok++;
		if (g.st < 0)
			say("refused", fmt("%s; the instruction has %d bytes, class %d", pt_errstr(pt_errcode(g.st)), r.len, r.cls));
		else if (g.in.size != r.len)
			say("length", fmt("decoded with %d bytes; it has %d", g.in.size, r.len));
		else if (r.clsknown && g.in.iclass != r.cls)
			say("class", fmt("class %d; it is %d", g.in.iclass, r.cls));
		else if (g.in.ip != BASE || g.in.mode != emode[m] || memcmp(g.in.raw, code, (size_t)r.len))
			say("fields", fmt("ip %llx mode %d or raw bytes wrong", (unsigned long long)g.in.ip, g.in.mode));
		else if (lvl >= 1 && r.clsknown) {
			uint64_t fall = BASE + (uint64_t)r.len, want = 0;
			if (r.direct)
				want = fall + (uint64_t)r.disp;
			else if (r.cls == ptic_other || r.cls == ptic_ptwrite)
				want = fall;
			else
				want = TIP;
			if (want && g.next != want)
				say("next", fmt("next instruction at %llx, should be at %llx", (unsigned long long)g.next,
						(unsigned long long)want));
			if (lvl >= 2 && r.cls == ptic_cond_jump) {
				g = step(m, 2, true);
				if (g.next != fall)
					say("next", fmt("not taken: next instruction at %llx", (unsigned long long)g.next));
				count("evaluations");
			}
		}
		if (lvl >= 2) {
			/* Without the last bytes it is an error; bytes beyond do not matter. */
			for (int k = 1; k < r.len; k++) {
				ncode = k;
				Got t = step(m, tail, false);
				count("evaluations");
				if (t.st >= 0)
					say("truncated", fmt("decoded from the first %d bytes, size %d", k, t.in.size));
			}
			ncode = r.len;
			Got t = step(m, tail, false);
			count("evaluations");
			if (t.st < 0 || t.in.size != r.len || (r.clsknown && t.in.iclass != r.cls))
				say("exact", fmt("without further bytes: %s, size %d, class %d",
						 t.st < 0 ? pt_errstr(pt_errcode(t.st)) : "ok", t.in.size, t.in.iclass));
			ncode = n;
		}
	} else if (g.st >= 0)
		say("cut", fmt("decoded with size %d, class %d; it does not end within these bytes", g.in.size, g.in.iclass));
	if (want_sample())
		sample(fmt("mode %s: %s -> length %d, class %d, st %d", mname[m], hex(code, (size_t)n).c_str(), r.len, r.cls, r.st));
}
/* Whatever the bytes mean, the result must not depend on the bytes after the instruction. */
static void checktrail(int m, int n)
{
	ncode = n;
	int tail = 0;
	Got a = step(m, tail, false);
	if (a.st < 0)
		a = step(m, tail = 3, false);
	if (a.st < 0)
		return;
	int k = a.in.size;
	uint8_t keep[16];
	memcpy(keep, code + k, (size_t)(n - k));
	for (int i = k; i < n; i++)
		code[i] ^= 0xff;
	Got b = step(m, tail, false);
	ncode = k;
	Got c = step(m, tail, false);
	memcpy(code + k, keep, (size_t)(n - k));
	count("evaluations", 2);
	if (b.st != a.st || b.in.size != k || b.in.iclass != a.in.iclass || c.st < 0 || c.in.size != k || c.in.iclass != a.in.iclass)
		viol("trailing", fmt("mode %s, %s: size %d; with other bytes behind it: size %d; with none: size %d, %s", mname[m],
				     hex(code, (size_t)n).c_str(), k, b.in.size, c.in.size,
				     c.st < 0 ? pt_errstr(pt_errcode(c.st)) : "ok"));
}

static const uint8_t fills[3][12] = {
	{0x11, 0x22, 0x33, 0x04, 0x55, 0x66, 0x77, 0x08, 0x99, 0xaa, 0xbb, 0x0c},
	{0x80, 0xff, 0xfe, 0xff, 0x0f, 0x38, 0xc3, 0xe8, 0xf0, 0x66, 0x48, 0x90},
	{0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00}};

typedef std::vector<uint8_t> Bytes;
/* @head, then ModRM @mr, SIB @sib, and fill. */
static void run(int m, const Bytes &head, int mr, int sib, int f, int lvl)
{
	int p = (int)head.size();
	memcpy(code, head.data(), head.size());
	if (mr >= 0)
		code[p++] = (uint8_t)mr;
	if (sib >= 0)
		code[p++] = (uint8_t)sib;
	for (int i = 0; i < 12; i++)
		code[p + i] = fills[f][i];
	int n = p + 12 < 15 ? p + 12 : 15;
	if (n < p)
		n = p;
	if (n > 15)
		n = 15;
	check(m, n, lvl);
}
static bool needsib(int mr) { return (mr & 7) == 4 && mr < 0xc0; }
static const int mrs[] = {0x00, 0x04, 0x05, 0x06, 0x0c, 0x15, 0x1e, 0x20, 0x2d, 0x30, 0x31, 0x38, 0x44, 0x4c, 0x56, 0x65, 0x7e,
			  0x84, 0x86, 0x95, 0xac, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xca, 0xd0, 0xd8, 0xe0, 0xe8, 0xec, 0xf0, 0xf8, 0xff};

static void part_maps()
{
	std::vector<Bytes> pf = {{}, {0x66}, {0x67}, {0xf2}, {0xf3}, {0x48}, {0x44}, {0x41}, {0x66, 0x48}, {0x67, 0x66}, {0xf0},
				 {0x66, 0xf3}, {0x67, 0x48}, {0x40}, {0x4f}, {0xf3, 0x48}, {0xf2, 0x48}, {0x48, 0x66}, {0x66, 0xf2},
				 {0x2e}, {0x26}, {0x36}, {0x3e}, {0x64}, {0x65}, {0x42}, {0x66, 0x67, 0x48}, {0xf2, 0xf3}, {0xf3, 0xf2},
				 {0x48, 0x67}, {0x44, 0xf3}, {0x66, 0x44}};
	static const Bytes maps[] = {{}, {0x0f}, {0x0f, 0x38}, {0x0f, 0x3a}};
	size_t full = pf.size();
	uint64_t id = 0;
	for (size_t pi = 0; pi < pf.size(); pi++)
		for (int m = 0; m < 3; m++)
			for (auto &mp : maps)
				for (int op = 0; op < 256; op++) {
					if (!mine(id++))
						continue;
					if (late())
						return;
					Bytes h = pf[pi];
					h.insert(h.end(), mp.begin(), mp.end());
					h.push_back((uint8_t)op);
					/* All ModRM for the common prefixes. */
					for (int mr = 0; mr < 256; mr++) {
						bool sel = false;
						for (int x : mrs)
							sel |= x == mr;
						if (pi >= full && !sel)
							continue;
						static const int sibs[] = {0x00, 0x25, 0xfd, 0xa4};
						int ns = needsib(mr) ? (opt.thorough ? 256 : 4) : 1;
						if (pi >= full)
							ns = ns > 2 ? 2 : ns;
						for (int s = 0; s < ns; s++) {
							int sib = needsib(mr) ? (ns == 256 ? s : sibs[s]) : -1;
							for (int f = 0; f < (sel ? 3 : 2); f++)
								run(m, h, mr, sib, f, sel && (s < 2 || opt.thorough) ? (f ? 1 : 2) : s ? 0 : 1);
							if (sel && s < 2)
								checktrail(m, ncode);
						}
					}
					distinct(fnv(h.data(), h.size(), (uint64_t)m));
				}
}
static const int mrv[] = {0x00, 0x05, 0x06, 0x0d, 0x14, 0x2c, 0x45, 0x5c, 0x86, 0x94, 0xb8, 0xc0, 0xca, 0xd8, 0xe4, 0xff};
static void vexrun(int m, const Bytes &h, bool deep)
{
	for (int mr : mrv)
		for (int s = 0; s < (needsib(mr) ? 2 : 1); s++) {
			run(m, h, mr, needsib(mr) ? (s ? 0x25 : 0x20) : -1, (mr ^ s) & 1, deep ? 2 : 0);
			if (deep)
				checktrail(m, ncode);
		}
}
static void part_vex()
{
	uint64_t id = 0;
	for (int m = 0; m < 3; m++)
		for (int op = 0; op < 256; op++) {
			if (!mine(id++))
				continue;
			uint8_t o = (uint8_t)op;
			distinct((uint64_t)m << 8 | o);
			for (int p1 = 0; p1 < 256; p1++) {
				if (late())
					return;
				/* VEX C5, and LDS */
				vexrun(m, {0xc5, (uint8_t)p1, o}, (p1 & 0x7b) == 0x78 || (p1 & 0xf8) == 0x40);
				vexrun(m, {0x67, 0xc5, (uint8_t)p1, o}, false);
				if (m == 2) {
					/* REX2 */
					vexrun(m, {0xd5, (uint8_t)p1, o}, (p1 & 0x77) == 0);
					vexrun(m, {0x66, 0xd5, (uint8_t)p1, o}, (p1 & 0x77) == 0);
					vexrun(m, {0x67, 0xd5, (uint8_t)p1, o}, false);
				} else
					vexrun(m, {0xd5, (uint8_t)p1, o}, false);
				/* VEX C4, and LES; EVEX, and BOUND */
				for (int p2 : {0x78, 0x79, 0x7a, 0x7b, 0xf9, 0xfc, 0x04, 0x87}) {
					vexrun(m, {0xc4, (uint8_t)p1, (uint8_t)p2, o}, (p1 & 0xfc) == 0xe0 && p2 < 0x7b);
					for (int p3 : {0x08, 0x00, 0x5f, 0xef})
						vexrun(m, {0x62, (uint8_t)p1, (uint8_t)p2, (uint8_t)p3, o}, (p1 & 0xf8) == 0xf0 && p3 == 8);
				}
				if (opt.thorough)
					for (int p2 = 0; p2 < 256; p2++) {
						vexrun(m, {0x64, 0xc4, (uint8_t)p1, (uint8_t)p2, o}, false);
						vexrun(m, {0x67, 0x62, (uint8_t)p1, (uint8_t)p2, 0x28, o}, false);
						vexrun(m, {0x62, (uint8_t)p1, (uint8_t)p2, (uint8_t)op, o}, false);
					}
			}
		}
}
static void part_prefix()
{
	static const uint8_t px[] = {0x66, 0x67, 0xf0, 0xf2, 0xf3, 0x2e, 0x65, 0x48, 0x44, 0x41, 0x36};
	static const Bytes tails[] = {{0x90}, {0xb8}, {0xc7, 0x04, 0x25}, {0xc7, 0xf8}, {0xe8}, {0x0f, 0x84}, {0x75}, {0xff, 0x14, 0x25},
				      {0xff, 0xe0}, {0xff, 0x18}, {0xc3}, {0xc2}, {0x9a}, {0xea}, {0x0f, 0x01, 0xca}, {0x0f, 0x01, 0xec},
				      {0x0f, 0x01, 0xc2}, {0x0f, 0xae, 0xe0}, {0x0f, 0xae, 0x20}, {0x0f, 0x22, 0xd8}, {0xa1}, {0x81, 0x85},
				      {0x69, 0x46}, {0x68}, {0xf7, 0x06}, {0xf6, 0xc0}, {0x0f, 0x05}, {0xcf}, {0xcd}, {0x0f, 0xc7, 0x30},
				      {0x0f, 0x38, 0xf0, 0x05}, {0x0f, 0x3a, 0x0f, 0x46}, {0x0f, 0xba, 0x24, 0x25}, {0xc5, 0xf8, 0x77},
				      {0xc4, 0xe3, 0x79, 0x0f, 0x05}, {0x62, 0xf3, 0x7d, 0x48, 0x0f, 0x45}, {0xd5, 0x00, 0xa1}, {0x05}, {0xa0},
				      {0x0f, 0x78, 0xc0}, {0xe3}, {0xe9}};
	int maxlen = opt.thorough ? 6 : 5;
	uint64_t id = 0;
	for (int len = 0; len <= maxlen; len++) {
		uint64_t tot = 1;
		for (int i = 0; i < len; i++)
			tot *= sizeof(px);
		for (uint64_t c = 0; c < tot; c++) {
			if (!mine(id++))
				continue;
			if (late())
				return;
			Bytes h;
			uint64_t x = c;
			for (int i = 0; i < len; i++, x /= sizeof(px))
				h.push_back(px[x % sizeof(px)]);
			distinct(fnv(h.data(), h.size()));
			for (auto &t : tails) {
				Bytes b = h;
				b.insert(b.end(), t.begin(), t.end());
				for (int m = 0; m < 3; m++) {
					run(m, b, -1, -1, len & 1, len <= 3 ? 2 : 1);
					if (len <= 3)
						checktrail(m, ncode);
				}
			}
		}
	}
	/* up to and beyond the longest instruction */
	for (uint8_t a : px)
		for (uint8_t z : px)
			for (int len = maxlen + 1; len <= 15; len++) {
				if (!mine(id++))
					continue;
				Bytes h((size_t)len, a);
				h[h.size() - 1] = z;
				for (auto &t : tails) {
					Bytes b = h;
					b.insert(b.end(), t.begin(), t.end());
					for (int m = 0; m < 3; m++)
						for (int f = 0; f < 2; f++)
							run(m, b, -1, -1, f, 2);
				}
			}
}

/* Which instruction an event binds to: the instruction under test, one that does not bind, one that does. */
static void part_bind()
{
	struct K {
		const char *name;
		int bind;
		Bytes extra, fill;
		int ev;
	};
	static const K ks[] = {
		{"cr3", refild::b_cr3, {0x02, 0x43, 0x00, 0x10, 0, 0, 0, 0}, {0x0f, 0x22, 0xd8}, ptev_async_paging},
		{"vmcs", refild::b_vmcs, {0x02, 0xc8, 0x11, 0x22, 0x33, 0, 0}, {0x0f, 0xc7, 0x30}, ptev_async_vmcs},
	};
	uint64_t id = 0;
	for (auto &k : ks) {
		std::vector<uint8_t> t[3];
		struct pt_insn_decoder *d[3];
		for (int m = 0; m < 3; m++) {
			header(t[m], m, k.extra);
			d[m] = mk(t[m]);
		}
		for (int m = 0; m < 3; m++)
			for (int map = 0; map < 2; map++)
				for (int op = 0; op < 256; op++)
					for (int mr = 0; mr < 256; mr++)
						for (const Bytes &p : {Bytes{}, Bytes{0x48}, Bytes{0x44}, Bytes{0x66}, Bytes{0xf3}, Bytes{0x40}, Bytes{0x67}, Bytes{0xf2}, Bytes{0x4f}, Bytes{0x66, 0xf3}}) {
							if (!mine(id++))
								continue;
							if (late())
								return;
							Bytes h = p;
							if (map)
								h.push_back(0x0f);
							h.push_back((uint8_t)op);
							h.push_back((uint8_t)mr);
							memcpy(code, h.data(), h.size());
							int q = (int)h.size();
							memset(code + q, 0, 16);
							refild::Ref r = refild::decode(code, 15, m);
							if (r.st != refild::ok || !r.clsknown || r.direct ||
							    (r.cls != ptic_other && r.cls != ptic_ptwrite))
								continue;
							/* Then two instructions the event would bind to. */
							for (int i = 0; i < 2; i++)
								memcpy(code + r.len + i * (int)k.fill.size(), k.fill.data(), k.fill.size());
							ncode = r.len + 2 * (int)k.fill.size();
							curhex("bind ", code, (size_t)ncode);
							count("evaluations");
							int st = drain(d[m], pt_insn_sync_set(d[m], 0)), n = 0;
							struct pt_insn in;
							while (n < 3) {
								st = pt_insn_next(d[m], &in, sizeof(in));
								if (st < 0)
									break;
								n++;
								if (st & pts_event_pending)
									break;
							}
							int want = r.bind & k.bind ? 1 : 2;
							distinct(fnv(&op, 1, (uint64_t)want));
							if (st < 0 || n != want)
								viol(std::string("bind-") + k.name,
								     fmt("mode %s, %s: %s event after %d instructions (%s), should be after %d", mname[m],
									 hex(code, (size_t)ncode).c_str(), k.name, n,
									 st < 0 ? pt_errstr(pt_errcode(st)) : "ok", want));
						}
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	setup();
	if (opt.part == "maps")
		part_maps();
	else if (opt.part == "vex")
		part_vex();
	else if (opt.part == "prefix")
		part_prefix();
	else
		part_bind();
	count("defined", nok);
	count("undefined", nundef);
	return finish();
}
