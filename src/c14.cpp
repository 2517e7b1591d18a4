// C14: structures of any size are exchanged safely.
//
// The answers for the structures' full size are recorded once; every other size must get the same answers,
// cut off at the size the user gave, with unknown fields zeroed (or left alone, for pt_*_event).  User buffers end at an inaccessible page.
#include <stddef.h>
#include "hwrun.hpp"
#include "decs.hpp"
#include "env.hpp"
using namespace hw;
typedef std::vector<uint8_t> Bytes;

static vf::Guard *gout, *gcfg;
static Env *code;

/* One API call: what was asked for, the answer, and the bytes that were filled in. */
enum { O_PKT, O_EV, O_INSN, O_BLK, O_ASID };
static const char *const ONAME[] = {"packet", "event", "instruction", "block", "asid"};
struct Call {
	int op;
	int st;
	Bytes out;
	Bytes any; /* bits that the full-size answer leaves alone */
};
static size_t full(int op)
{
	switch (op) {
	case O_PKT: return sizeof(struct pt_packet);
	case O_EV: return sizeof(struct pt_event);
	case O_INSN: return sizeof(struct pt_insn);
	case O_BLK: return sizeof(struct pt_block);
	default: return sizeof(struct pt_asid);
	}
}
static int call(dec::D &d, int op, void *o, size_t n)
{
	switch (op) {
	case O_PKT: return pt_pkt_next((pt_packet_decoder *)d.p, (struct pt_packet *)o, n);
	case O_INSN: return pt_insn_next((pt_insn_decoder *)d.p, (struct pt_insn *)o, n);
	case O_BLK: return pt_blk_next((pt_block_decoder *)d.p, (struct pt_block *)o, n);
	case O_ASID:
		return d.k == dec::INS ? pt_insn_asid((pt_insn_decoder *)d.p, (struct pt_asid *)o, n)
				       : pt_blk_asid((pt_block_decoder *)d.p, (struct pt_asid *)o, n);
	}
	switch (d.k) {
	case dec::EVT: return pt_evt_next((pt_event_decoder *)d.p, (struct pt_event *)o, n);
	case dec::QRY: return pt_qry_event((pt_query_decoder *)d.p, (struct pt_event *)o, n);
	case dec::INS: return pt_insn_event((pt_insn_decoder *)d.p, (struct pt_event *)o, n);
	default: return pt_blk_event((pt_block_decoder *)d.p, (struct pt_event *)o, n);
	}
}

/* Drives a decoder over a trace; the caller provides the calls' answers. */
template <class F> static void drive(dec::D &d, F ask)
{
	if (d.k == dec::INS)
		pt_insn_set_image((pt_insn_decoder *)d.p, code->image);
	if (d.k == dec::BLK)
		pt_blk_set_image((pt_block_decoder *)d.p, code->image);
	int st = d.fwd();
	int n = 0;
	while (st >= 0 && ++n < 300) {
		switch (d.k) {
		case dec::PKT: st = ask(O_PKT); break;
		case dec::EVT: st = ask(O_EV); break;
		case dec::QRY: {
			if (st & pts_event_pending) {
				st = ask(O_EV);
				break;
			}
			int tk;
			uint64_t ip;
			int s = pt_qry_cond_branch((pt_query_decoder *)d.p, &tk);
			if (s == -pte_bad_query)
				s = pt_qry_indirect_branch((pt_query_decoder *)d.p, &ip);
			st = s;
			break;
		}
		case dec::INS:
		case dec::BLK:
			ask(O_ASID);
			if (st & pts_event_pending)
				st = ask(O_EV);
			else
				st = ask(d.k == dec::INS ? O_INSN : O_BLK);
			break;
		default: return;
		}
	}
}

static std::vector<Call> record1(dec::Kind k, const struct pt_config *c, uint8_t fill)
{
	std::vector<Call> r;
	dec::D d(k, c);
	if (!d.p)
		return {{-1, 0, {}, {}}};
	drive(d, [&](int op) {
		Call x;
		x.op = op;
		x.out.assign(full(op), fill);
		x.st = call(d, op, x.out.data(), x.out.size());
		r.push_back(x);
		return x.st;
	});
	return r;
}

static std::vector<Call> record(dec::Kind k, const struct pt_config *c)
{
	std::vector<Call> a = record1(k, c, 0xee), b = record1(k, c, 0x11);
	if (a.size() != b.size())
		vf::viol("unstable", "decoding twice gives different results");
	for (size_t i = 0; i < a.size() && i < b.size(); i++) {
		a[i].any.resize(a[i].out.size());
		for (size_t j = 0; j < a[i].out.size(); j++)
			a[i].any[j] = a[i].out[j] ^ b[i].out[j];
	}
	return a;
}

/* Replays with structures of kind @v having size @sz. */
static void sized(dec::Kind k, const struct pt_config *c, const std::vector<Call> &ref, int v, size_t sz,
		  const std::string &what)
{
	dec::D d(k, c);
	size_t i = 0;
	bool bad = false;
	vf::count("evaluations");
	auto complain = [&](const char *key, const std::string &s) {
		if (bad)
			return;
		bad = true;
		vf::viol(std::string(key) + "-" + dec::NAME[k] + "-" + ONAME[v],
			 vf::fmt("%s decoder, %s of %zu bytes instead of %zu, call %zu: ", dec::NAME[k], ONAME[v],
				 sz, full(v), i) + s + "\n  " + what);
	};
	drive(d, [&](int op) {
		if (bad || i >= ref.size()) {
			complain("calls", "more calls than with the full size");
			return -(int)pte_internal;
		}
		const Call &r = ref[i];
		if (r.op != op) {
			complain("calls", "the sequence of calls differs");
			return -(int)pte_internal;
		}
		size_t n = op == v ? sz : full(op);
		uint8_t *o = gout->base + gout->cap - n;
		memset(o - 64, 0xee, n + 64);
		int st = call(d, op, o, n);
		for (int j = 1; j <= 64; j++)
			if (o[-j] != 0xee) {
				complain("below", "writes below the structure");
				break;
			}
		if (op == v && n < full(op) && st == -pte_invalid && r.st != -pte_invalid) {
			/* Refused.  Nothing may have happened; continue with the full size.  Sizes that
			 * do not cover the fields that tell what the structure contains must be refused.
			 */
			size_t lim = op == O_EV ? offsetof(struct pt_event, variant) :
				     op == O_ASID ? sizeof(size_t) : 8;
			if (n >= lim)
				complain("refused", "the size is refused");
			for (size_t j = 0; j < n; j++)
				if (o[j] != 0xee) {
					complain("refused", "the size is refused but the structure is modified");
					break;
				}
			vf::count("refused");
			Bytes t(full(op), 0xee);
			st = call(d, op, t.data(), t.size());
			if (st != r.st || t != r.out)
				complain("refused", vf::fmt("refusing the size changes the answer from %d to %d",
							    r.st, st));
			i++;
			return st;
		}
		if (op == v && ((op == O_EV && k != dec::EVT && n < offsetof(struct pt_event, variant)) ||
				(op == O_ASID && n < sizeof(size_t))) &&
		    r.st >= 0)
			complain("accepted", vf::fmt("the size is accepted: %d", st));
		if (st != r.st)
			complain("status", vf::fmt("answers %d (%s) instead of %d", st, vf::ename(st), r.st));
		else {
			Bytes exp = r.out;
			exp.resize(n, (uint8_t)(op == O_ASID || r.st < 0 ? 0xee : 0));
			if (op == O_ASID && n >= sizeof(size_t)) {
				size_t m = n < full(op) ? n : full(op);
				memcpy(exp.data(), &m, sizeof(m));
			}
			bool err = r.st < 0;
			for (size_t j = 0; j < n; j++) {
				/* a failed call may leave the structure alone, or provide part of it */
				if (o[j] == exp[j] ||
				    /* only the event decoder promises to zero the bytes beyond events */
				    (op == O_EV && k != dec::EVT && j >= full(op) && o[j] == 0xee) ||
				    (j < r.any.size() && !((o[j] ^ exp[j]) & ~r.any[j] & 0xff)) || (err && (o[j] == 0xee || (j >= full(op) && !o[j]))))
					continue;
				complain(j >= full(op) ? "rest" : "bytes",
					 vf::fmt("byte %zu is %02x instead of %02x", j, o[j], exp[j]));
				break;
			}
			vf::count("structures");
		}
		i++;
		return st;
	});
	if (!bad && i != ref.size())
		complain("calls", "fewer calls than with the full size");
}

static void allsizes(const Bytes &tr, const std::string &what, bool every)
{
	for (int k = 0; k < dec::NKIND; k++) {
		struct pt_config c;
		config(&c, tr);
		if (k == dec::INS)
			c.flags.variant.insn.enable_tick_events = 1, c.flags.variant.insn.enable_iflags_events = 1;
		if (k == dec::BLK)
			c.flags.variant.block.enable_tick_events = 1, c.flags.variant.block.enable_iflags_events = 1;
		if (k == dec::QRY)
			c.flags.variant.query.enable_iflags_events = 1;
		if (k == dec::EVT)
			c.flags.variant.event.enable_iflags_events = 1;
		std::vector<Call> ref = record((dec::Kind)k, &c);
		std::set<int> ops;
		std::string log;
		for (auto &x : ref) {
			ops.insert(x.op);
			vf::distinct(vf::fnv(x.out.data(), x.out.size(), (uint64_t)x.op + 7));
		}
		if (!vf::late())
			for (int v : ops)
				for (size_t s = 0; s <= full(v) + 40;
				     s += every || s + 3 > full(v) || (v == O_ASID && s < 9) ? 1 : 3)
					sized((dec::Kind)k, &c, ref, v, s, what);
	}
}

/* Make time pass: a TSC packet before every packet that follows the PSB+. */
static Bytes timed(const Bytes &tr)
{
	struct pt_config c;
	config(&c, tr);
	struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c);
	Bytes r;
	uint64_t o = 0, tsc = 0x1000;
	pt_pkt_sync_set(d, 0);
	bool on = false;
	for (;;) {
		struct pt_packet p;
		int st = pt_pkt_next(d, &p, sizeof(p));
		if (st < 0)
			break;
		if (p.type == ppt_psb)
			on = false;
		if (on || p.type == ppt_psbend) {
			r.push_back(0x19);
			for (int i = 0; i < 7; i++)
				r.push_back((uint8_t)(tsc >> 8 * i));
			tsc += 0x101;
		}
		if (p.type == ppt_psbend)
			on = true;
		r.insert(r.end(), tr.begin() + (long)o, tr.begin() + (long)o + st);
		o += (uint64_t)st;
	}
	pt_pkt_free_decoder(d);
	return r;
}

static bool every = true;
static void visit(const Machine &m0, const std::vector<int> &path)
{
	Machine m = m0;
	if (!m.end())
		return;
	std::string what = steps_str(path) + " | " + m.trace();
	vf::cur(what);
	vf::count("traces_validated_against_impl");
	code->load(m);
	allsizes(m.tr, what, every);
	if (every)
		allsizes(timed(m.tr), what + " (timed)", every);
}

/* ---- configurations ---- */

static int unk_ctx;
static int unknown(struct pt_packet_unknown *u, const struct pt_config *c, const uint8_t *pos, void *ctx)
{
	if (c->size > sizeof(*c) || ctx != (c->decode.context) || pos < c->begin || pos >= c->end)
		return -pte_internal;
	if (ctx && ctx != &unk_ctx)
		return -pte_bad_opc;
	u->priv = ctx;
	return ctx ? 2 : 1;
}
static Bytes raw(const char *s)
{
	Bytes v;
	static const uint8_t psb[16] = {2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82, 2, 0x82};
	while (*s) {
		if (*s == ' ') {
			s++;
		} else if (*s == 'P') {
			v.insert(v.end(), psb, psb + 16);
			s++;
		} else if (*s == 'E') {
			v.push_back(2);
			v.push_back(0x23);
			s++;
		} else {
			v.push_back((uint8_t)strtoul(std::string(s, 2).c_str(), 0, 16));
			s += 2;
		}
	}
	return v;
}
/* Each trace's decode depends on some of the fields. */
static const char *const TR[] = {
	/* TSC TMA CBR ... MTC CYC MTC: frequencies */
	"P 19 01000000000000 0273 1000 00 0200 0203 2000 E 71 0010000000 00 5912 03 5913 43 5914 06 0203 3000 1f 5915 06 2d 0020 06",
	/* unknown opcodes: callback and context */
	"P E 71 001000000000 09 00 09 05 06 02ff 06",
	"P 09 00 E 09 09 2d 0010",
	/* FUP with different compressions, PGD, errata BDM70/BDM64/SKL168/SKD010/APL12/APL11 */
	"P E 71 001000000000 06 01 2d 0020 02f3 7d 00300000 0000 06 31 0040 71 0050 02f3 71 001000000000 06",
	"P 9921 E 9921 7d 001000000000 2d 0020 9920 06 02f3 9921 06 02f3 31 0040 06 02f3 03",
	"P 0243 123456789abc E 71 001000000000 02f3 7d 001000000000 06 01 06 01",
	"P 02c8 0000000000 E 02c8 1234567800 71 001000000000 06 0273 1000 00 ff00 0273 1000 0100 00 06",
	/* filter: PGD without address */
	"P E 71 001000000000 06 01 06 01 06 0201",
	"P E 9901 71 001000000000 1e 06 01 5912 03 71 0040 06 01",
	/* IFLAGS, overflow, timing */
	"P 19 01000000000000 0203 1000 9941 E 71 001000000000 9961 06 5912 5913 02f3 7d 001000000000 5914 9921 9941 06",
};

static void filled(struct pt_config *c, int variant)
{
	pt_config_init(c);
	c->decode.callback = unknown;
	c->decode.context = variant & 1 ? &unk_ctx : 0;
	c->cpu.vendor = pcv_intel;
	c->cpu.family = 6;
	c->cpu.model = 0x5e;
	c->cpu.stepping = 3;
	memset((uint8_t *)&c->errata, 0, sizeof(c->errata));
	if (variant & 2) {
		c->errata.bdm70 = c->errata.bdm64 = c->errata.skd007 = c->errata.skd022 = 1;
		c->errata.skd010 = c->errata.skl014 = c->errata.apl12 = c->errata.apl11 = c->errata.skl168 = 1;
		c->errata.skz84 = 1;
	}
	c->cpuid_0x15_eax = 2 + (variant & 1);
	c->cpuid_0x15_ebx = 0x01020000 + 100;
	c->mtc_freq = (uint8_t)(variant & 1 ? 3 : 4);
	c->nom_freq = 20;
	memset(c->flags.variant.reserved, 0xff, sizeof(c->flags.variant.reserved));
	c->addr_filter.config.addr_cfg = variant & 4 ? 0x2111 : 0x1211;
	c->addr_filter.addr0_a = 0x1000;
	c->addr_filter.addr0_b = 0x100010001fffull;
	c->addr_filter.addr1_a = 0x2000;
	c->addr_filter.addr1_b = 0x200000002fffull;
	c->addr_filter.addr2_a = 0x3000;
	c->addr_filter.addr2_b = 0x30004fffull;
	c->addr_filter.addr3_a = 0x5000;
	c->addr_filter.addr3_b = 0x5fff;
}
static const struct pt_config *getcfg(dec::D &d)
{
	switch (d.k) {
	case dec::PKT: return pt_pkt_get_config((pt_packet_decoder *)d.p);
	case dec::EVT: return pt_evt_get_config((pt_event_decoder *)d.p);
	case dec::QRY: return pt_qry_get_config((pt_query_decoder *)d.p);
	case dec::INS: return pt_insn_get_config((pt_insn_decoder *)d.p);
	default: return pt_blk_get_config((pt_block_decoder *)d.p);
	}
}
static void configs()
{
	const size_t FS = sizeof(struct pt_config);
	uint64_t unit = 0;
	for (int var = 0; var < 8; var++)
		for (size_t t = 0; t < sizeof(TR) / sizeof(*TR); t++)
			for (size_t s = 0; s <= FS + 72; s++) {
				if (!vf::mine(unit++))
					continue;
				if (vf::late())
					return;
				Bytes tr = raw(TR[t]);
				struct pt_config ref;
				filled(&ref, var);
				ref.begin = tr.data();
				ref.end = tr.data() + tr.size();
				Bytes user(s, 0x5a); /* fields that this library does not know about */
				memcpy(user.data(), &ref, s < FS ? s : FS);
				if (s >= sizeof(size_t))
					memcpy(user.data(), &s, sizeof(s));
				if (s < FS)
					memset((uint8_t *)&ref + s, 0, FS - s);
				ref.size = FS;
				uint8_t *u = gcfg->right(user.data(), s);
				struct pt_config *uc = (struct pt_config *)u;
				/* a structure does not end inside of a pointer */
				if (s < sizeof(size_t) || (s > offsetof(struct pt_config, decode) &&
							   s < offsetof(struct pt_config, decode) + sizeof(void *)))
					continue;
				vf::cur(vf::fmt("configuration of %zu bytes, variant %d, trace %zu", s, var, t));
				vf::count("configurations");
				bool toosmall = s < offsetof(struct pt_config, decode);
				auto bad = [&](const char *key, const std::string &w) {
					vf::viol(std::string("config-") + key,
						 vf::fmt("configuration of %zu bytes instead of %zu (variant %d, trace "
							 "%zu): ", s, FS, var, t) + w);
				};
				/* the encoder */
				struct pt_encoder *e = pt_alloc_encoder(uc);
				vf::count("evaluations");
				if (!e != toosmall)
					bad("encoder", e ? "is accepted by the encoder" : "is refused by the encoder");
				if (e) {
					const struct pt_config *g = pt_enc_get_config(e);
					if (g->size > FS || memcmp((const uint8_t *)g + sizeof(size_t),
								   (const uint8_t *)&ref + sizeof(size_t),
								   FS - sizeof(size_t)))
						bad("encoder", "the encoder's configuration is wrong");
					pt_free_encoder(e);
				}
				for (int k = 0; k < dec::NKIND; k++) {
					vf::count("evaluations");
					dec::D d((dec::Kind)k, uc);
					if (!d.p != toosmall) {
						bad("alloc", vf::fmt("the %s decoder %s it", dec::NAME[k],
								     d.p ? "accepts" : "refuses"));
						continue;
					}
					if (!d.p)
						continue;
					const struct pt_config *g = getcfg(d);
					/* The flags are specific to the decoder that was configured. */
					const size_t F0 = offsetof(struct pt_config, flags),
						     F1 = offsetof(struct pt_config, addr_filter);
					const uint8_t *a = (const uint8_t *)g, *b = (const uint8_t *)&ref;
					bool flags = k == dec::PKT;
					if (g->size > FS ||
					    memcmp(a + sizeof(size_t), b + sizeof(size_t), F0 - sizeof(size_t)) ||
					    (flags && memcmp(a + F0, b + F0, F1 - F0)) || memcmp(a + F1, b + F1, FS - F1))
						bad("fields", vf::fmt("the %s decoder's configuration is wrong",
								      dec::NAME[k]));
					std::vector<Call> x = record((dec::Kind)k, uc), y = record((dec::Kind)k, &ref);
					bool eq = x.size() == y.size();
					for (size_t i = 0; eq && i < x.size(); i++)
						eq = x[i].op == y[i].op && x[i].st == y[i].st && x[i].out == y[i].out;
					for (auto &q : y)
						vf::distinct(vf::fnv(q.out.data(), q.out.size(), (uint64_t)q.op));
					if (!eq)
						bad("decode", vf::fmt("the %s decoder's results differ from those with "
								      "the missing fields zero", dec::NAME[k]));
				}
			}
}

/* ---- address space identifiers ---- */
static int rd(uint8_t *b, size_t n, const struct pt_asid *a, uint64_t ip, void *c)
{
	(void)ip;
	std::vector<uint64_t> *v = (std::vector<uint64_t> *)c;
	v->push_back(a->cr3);
	v->push_back(a->vmcs);
	v->push_back(a->size);
	memset(b, 0x90, n);
	return (int)n;
}
static void asids()
{
	const size_t FS = sizeof(struct pt_asid);
	const uint64_t A = 0x1000, B = 0x2000;
	for (size_t s = sizeof(size_t); s <= FS + 40; s++)
		for (int var = 0; var < 4; var++) {
			struct pt_asid f;
			pt_asid_init(&f);
			f.cr3 = var & 1 ? A : 0x112233445566788ull;
			f.vmcs = var & 2 ? A : 0x998877665544332ull;
			Bytes user(s, 0x5a);
			memcpy(user.data(), &f, s < FS ? s : FS);
			memcpy(user.data(), &s, sizeof(s));
			struct pt_asid e;
			pt_asid_init(&e);
			memcpy(&e, user.data(), s < FS ? s : FS);
			e.size = FS;
			uint8_t *u = gcfg->right(user.data(), s);
			const struct pt_asid *ua = (const struct pt_asid *)u;
			std::string what = vf::fmt("an address space identifier of %zu bytes instead of %zu: ", s, FS);
			vf::cur(what);
			struct pt_image_section_cache *isc = pt_iscache_alloc(0);
			int isid = pt_iscache_add_file(isc, code->file.c_str(), 0, 0x100, 0x7000);
			for (int how = 0; how < 2; how++) {
				vf::count("evaluations");
				vf::count("asids");
				struct pt_image *img = pt_image_alloc(0);
				int rc = how ? pt_image_add_cached(img, isc, isid, ua) :
					       pt_image_add_file(img, code->file.c_str(), 0, 0x100, ua, 0x7000);
				if (rc < 0) {
					vf::viol("asid-add", what + vf::fmt("refused: %s", vf::ename(rc)));
					pt_image_free(img);
					continue;
				}
				/* Which address spaces see the section?  Ask by removing from a copy. */
				uint64_t vals[] = {A, B, 0x112233445566788ull, 0x998877665544332ull, pt_asid_no_cr3,
						   e.cr3, e.vmcs};
				for (uint64_t cr3 : vals)
					for (uint64_t vmcs : vals) {
						struct pt_image *cp = pt_image_alloc(0);
						if (pt_image_copy(cp, img) < 0)
							vf::errors.push_back("image copy");
						struct pt_asid q;
						pt_asid_init(&q);
						q.cr3 = cr3;
						q.vmcs = vmcs;
						int n = pt_image_remove_by_asid(cp, &q);
						bool m = (e.cr3 == cr3 || e.cr3 == pt_asid_no_cr3 || cr3 == pt_asid_no_cr3) &&
							 (e.vmcs == vmcs || e.vmcs == pt_asid_no_vmcs ||
							  vmcs == pt_asid_no_vmcs);
						vf::distinct(vf::fnv(&cr3, 8, vf::fnv(&vmcs, 8, s * 4 + (size_t)var)));
						if (n != m)
							vf::viol("asid-match", what + vf::fmt(
								"added with %zu bytes, removes %d sections for cr3=%llx vmcs=%llx",
								s, n, (unsigned long long)cr3, (unsigned long long)vmcs));
						pt_image_free(cp);
					}
				/* And the other way round. */
				struct pt_image *cp = pt_image_alloc(0);
				pt_image_add_file(cp, code->file.c_str(), 0, 0x100, &e, 0x7000);
				struct pt_asid o = e;
				o.cr3 ^= 0x10, o.vmcs ^= 0x10;
				bool wild = e.cr3 == pt_asid_no_cr3 && e.vmcs == pt_asid_no_vmcs;
				pt_image_add_file(cp, code->file.c_str(), 0, 0x100, &o, 0x9000);
				int n = pt_image_remove_by_asid(cp, ua);
				int want = wild ? 2 : 1;
				if (n != want && !(n == 2 && e.vmcs == pt_asid_no_vmcs && false))
					vf::viol("asid-remove", what + vf::fmt("removes %d sections instead of %d", n, want));
				pt_image_free(cp);
				pt_image_free(img);
			}
			pt_iscache_free(isc);
		}
	(void)rd;
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	bool th = vf::opt.thorough;
	gout = new vf::Guard(2);
	gcfg = new vf::Guard(2);
	code = new Env(true);
	uint64_t nodes = 0, edges = 0;
	if (vf::opt.part == "config") {
		configs();
		if (vf::opt.shard == 0)
			asids();
		return vf::finish();
	}
	Walker w;
	w.visit = visit;
	auto go = [&](const std::vector<int> &alpha, int depth, int c0, int c1) {
		w.alpha = alpha;
		w.depth = depth;
		auto cs = cfgs();
		for (int i = c0; i < c1; i++)
			for (int e = 0; e < 2; e++) {
				w.cfg = cs[(size_t)i];
				w.start_enabled = e;
				w.run();
			}
	};
	go(all_steps(), th ? 2 : 1, 0, 6);
	every = false;
	go(all_steps(), 2, 1, 2);
	if (th)
		for (auto &t : THEMES)
			go(*t.steps, 3, 1, 3);
	nodes = w.nodes, edges = w.edges;
	vf::count("states", nodes);
	vf::count("transitions", edges);
	return vf::finish();
}
