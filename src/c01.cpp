// C01: encoding a packet and decoding the result gives the packet back.
#include "refpkt.hpp"
using namespace vf;

static Guard *G;
static const uint8_t FILL = 0xa5;

/* The widths of the fields of each packet in bits; what a packet can express. */
static std::vector<std::vector<uint64_t>> dom;

static std::vector<uint64_t> bits(int w, int low = 0)
{
	/* 0, all ones, walking one, walking zero, ramps over a field of w bits above bit low. */
	std::set<uint64_t> s;
	uint64_t all = (w >= 64 ? ~0ull : (1ull << w) - 1);
	s.insert(0);
	s.insert(all);
	for (int i = 0; i < w; i++) {
		s.insert(1ull << i);
		s.insert(all ^ 1ull << i);
		s.insert((1ull << i) - 1);
	}
	s.insert(0x0123456789abcdefull & all);
	s.insert(0xfedcba9876543210ull & all);
	s.insert(0x8080808080808080ull & all);
	std::vector<uint64_t> v;
	for (uint64_t x : s)
		v.push_back(x << low);
	return v;
}
static std::vector<uint64_t> range(uint64_t n)
{
	std::vector<uint64_t> v;
	for (uint64_t i = 0; i < n; i++)
		v.push_back(i);
	return v;
}

static std::string pstr(const ref::Pk &k) { return k.str(); }

/* Encode at offset `pre` of a buffer of `cap` bytes. Check against the format model. */
enum Fit { LOSSY, FITS, STRICT };
static void one(const ref::Pk &k, Fit fit)
{
	bool fits = fit == FITS;
	struct pt_packet p;
	ref::unflat(k, p);
	ref::Bytes want = fits ? ref::encode(k) : ref::Bytes();
	static uint8_t tmp[64];
	for (int pre = 0; pre < 2; pre++)
		for (int slack = -2; slack <= 1; slack++) {
			size_t len = fits ? want.size() : 16;
			long cap;
			if (slack == -2)
				cap = pre; /* no room at all */
			else if (slack == -1)
				cap = (long)(pre + len) - 1;
			else
				cap = pre + len + slack * 3;
			if (cap < pre || cap < 1)
				continue;
			count("evaluations");
			memset(tmp, FILL, sizeof(tmp));
			uint8_t *b = G->right(tmp, cap);
			curhex("encode ", (const uint8_t *)&p, sizeof(p));
			struct pt_config c;
			pt_config_init(&c);
			c.begin = b;
			c.end = b + cap;
			struct pt_encoder *e = pt_alloc_encoder(&c);
			if (!e) {
				viol("alloc", "pt_alloc_encoder failed");
				return;
			}
			if (pt_enc_sync_set(e, pre) != 0)
				viol("sync_set", fmt("pt_enc_sync_set(%d) of %ld", pre, cap));
			p.size = 0x77; /* ignored */
			int rc = pt_enc_next(e, &p);
			uint64_t off = ~0ull;
			if (pt_enc_get_offset(e, &off) != 0)
				viol("offset", "pt_enc_get_offset failed");
			pt_free_encoder(e);
			bool untouched = true;
			for (long i = 0; i < cap; i++)
				if (b[i] != FILL && (rc < 0 || i < pre || i >= pre + rc))
					untouched = false;
			if (!untouched)
				viol(fmt("scribble-%d", k.type), fmt("%s rc=%s cap=%ld pre=%d wrote outside its packet: %s",
					pstr(k).c_str(), ename(rc), cap, pre, hex(b, cap).c_str()));
			if (off != (uint64_t)pre + (rc > 0 ? rc : 0))
				viol(fmt("advance-%d", k.type), fmt("%s rc=%s offset=%llu pre=%d", pstr(k).c_str(), ename(rc),
					(unsigned long long)off, pre));
			if (!fits) {
				if (rc >= 0 && fit == STRICT) {
					viol(fmt("accepted-%d", k.type), fmt("%s cannot be expressed but is accepted: %s",
						pstr(k).c_str(), hex(b + pre, rc).c_str()));
				} else if (rc >= 0) {
					/* A packet that cannot be expressed may be truncated to what can
					 * be, but must stay decodable as the same kind of packet. */
					ref::Out o = ref::decode(b + pre, rc);
					if (!o.ok || o.pk.type != k.type || o.pk.size != rc)
						viol(fmt("misencode-%d", k.type), fmt("%s accepted but encoded as %s", pstr(k).c_str(),
							hex(b + pre, rc).c_str()));
					struct pt_packet_decoder *d;
					c.begin = b + pre;
					c.end = b + pre + rc;
					d = pt_pkt_alloc_decoder(&c);
					pt_pkt_sync_set(d, 0);
					struct pt_packet q;
					memset(&q, 0, sizeof(q));
					int r2 = pt_pkt_next(d, &q, sizeof(q));
					pt_pkt_free_decoder(d);
					ref::Pk g = ref::flat(q);
					bool tnt = k.type == ppt_tnt_8 || k.type == ppt_tnt_64;
					bool sub = true;
					for (int j = 0; j < 6; j++)
						sub &= !(g.f[j] & ~k.f[j]);
					if (r2 != rc || g.type != k.type || !sub || (tnt && g.f[0] != k.f[0]))
						viol(fmt("misencode-%d", k.type), fmt("%s accepted but decodes as %s", pstr(k).c_str(),
							g.str().c_str()));
				} else if (rc != -pte_bad_packet && rc != -pte_bad_opc && rc != -pte_eos)
					viol(fmt("errcode-%d", k.type), fmt("%s: rc=%s is not a documented error", pstr(k).c_str(), ename(rc)));
				continue;
			}
			if (cap < (long)(pre + len)) {
				if (rc != -pte_eos)
					viol(fmt("eos-%d", k.type), fmt("%s: rc=%s with %ld bytes of room", pstr(k).c_str(), ename(rc),
						cap - pre));
				continue;
			}
			if (rc != (int)len || memcmp(b + pre, want.data(), len)) {
				viol(fmt("encode-%d", k.type), fmt("%s: rc=%s got %s want %s", pstr(k).c_str(), ename(rc),
					hex(b + pre, rc > 0 ? rc : 0).c_str(), hex(want).c_str()));
				continue;
			}
			/* and back */
			c.begin = b + pre;
			c.end = b + cap;
			struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c);
			pt_pkt_sync_set(d, 0);
			struct pt_packet q;
			memset(&q, 0, sizeof(q));
			int r2 = pt_pkt_next(d, &q, sizeof(q));
			uint64_t o2 = 0;
			pt_pkt_get_offset(d, &o2);
			pt_pkt_free_decoder(d);
			ref::Pk g = ref::flat(q), w = k;
			w.size = (int)len;
			if (r2 != (int)len || o2 != len || !g.same(w))
				viol(fmt("roundtrip-%d", k.type), fmt("%s: encoded %s decoded rc=%s %s", pstr(k).c_str(),
					hex(want).c_str(), ename(r2), g.str().c_str()));
			if (want_sample())
				sample(pstr(k) + " <-> " + hex(want));
			distinct(fnv(want.data(), len));
		}
}

static uint64_t idx;
static void each(int type, std::vector<std::vector<uint64_t>> d, Fit fits = FITS)
{
	/* full product, except that long domains are combined pairwise with their extremes */
	size_t n = d.size();
	std::vector<size_t> i(n, 0);
	uint64_t total = 1;
	for (auto &v : d)
		total *= v.size();
	uint64_t lim = opt.thorough ? 4000000 : 120000;
	for (auto &v : d)
		if (total > lim && v.size() > 40) {
			/* thin out, keep the ends: combined thinly, but each value alone below */
			std::vector<uint64_t> w = {v[0], v[1], v[v.size() / 2], v[v.size() - 1]};
			for (uint64_t x : v) {
				for (int hi = 0; hi < 2; hi++) {
					ref::Pk k;
					k.type = type;
					for (size_t j = 0; j < n; j++)
						k.f[j] = &d[j] == &v ? x : (hi ? d[j].back() : d[j].front());
					if (mine(idx++))
						one(k, fits);
				}
			}
			total = total / v.size() * w.size();
			v = w;
		}
	for (;;) {
		ref::Pk k;
		k.type = type;
		for (size_t j = 0; j < n; j++)
			k.f[j] = d[j][i[j]];
		if (mine(idx++))
			one(k, fits);
		size_t j = 0;
		while (j < n && ++i[j] == d[j].size())
			i[j++] = 0;
		if (j == n)
			break;
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	G = new Guard(1);
	auto B = range(2);
	for (int t : {ppt_pad, ppt_psb, ppt_psbend, ppt_ovf, ppt_stop})
		each(t, {});
	for (int t : {ppt_fup, ppt_tip, ppt_tip_pge, ppt_tip_pgd}) {
		each(t, {{0}, {0}});
		each(t, {{1}, range(65536)});
		each(t, {{2}, bits(32)});
		each(t, {{3, 4}, bits(48)});
		each(t, {{6}, bits(64)});
		/* inexpressible */
		each(t, {{5, 7, 8, 15, 0x100, 0xffffffff}, bits(64)}, STRICT);
		each(t, {{1, 2, 3, 4}, {~0ull}}, LOSSY);
		each(t, {{0}, {0x1234}}, LOSSY);
	}
	for (int n = 1; n <= 6; n++)
		each(ppt_tnt_8, {{(uint64_t)n}, range(1u << n)});
	for (int n = 1; n <= 47; n++)
		each(ppt_tnt_64, {{(uint64_t)n}, bits(n)});
	/* sizes that do not fit, and stray bits above the size */
	each(ppt_tnt_8, {{0, 7, 8, 9, 31, 32, 63, 64, 255}, bits(8)}, STRICT);
	for (int n = 1; n <= 6; n++) {
		std::vector<uint64_t> v;
		for (uint64_t x : bits(64))
			if (x >> n)
				v.push_back(x);
		each(ppt_tnt_8, {{(uint64_t)n}, v}, STRICT);
	}
	each(ppt_tnt_64, {{48, 49, 63, 64, 65, 255}, bits(64)}, STRICT);
	for (int n = 1; n <= 47; n++) {
		std::vector<uint64_t> v;
		for (uint64_t x : bits(64))
			if (x >> n)
				v.push_back(x);
		each(ppt_tnt_64, {{(uint64_t)n}, v}, STRICT);
	}
	each(ppt_mode, {{0}, B, B, B});
	each(ppt_mode, {{0x20}, B, B});
	each(ppt_mode, {{0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0x21, 0x1, 0x100}, B, B}, STRICT);
	each(ppt_pip, {bits(47, 5), B});
	each(ppt_pip, {{0x1f, 0x3f, ~0ull}, B}, LOSSY);
	each(ppt_tsc, {bits(56)});
	each(ppt_tsc, {{1ull << 56, ~0ull}}, LOSSY);
	each(ppt_cbr, {range(256)});
	each(ppt_tma, {range(65536), {0, 0x1ff}});
	each(ppt_tma, {bits(16), range(512)});
	each(ppt_tma, {{0, 0xffff}, {0x200, 0x3ff, 0x8000, 0xffff}}, STRICT);
	each(ppt_mtc, {range(256)});
	each(ppt_cyc, {bits(64)});
	each(ppt_cyc, {range(65536)});
	each(ppt_vmcs, {bits(40, 12)});
	each(ppt_vmcs, {{0xfff, 1ull << 52, ~0ull}}, LOSSY);
	each(ppt_mnt, {bits(64)});
	each(ppt_exstop, {B});
	each(ppt_mwait, {bits(32), bits(32)});
	each(ppt_pwre, {range(16), range(16), B});
	each(ppt_pwre, {{16, 0xff}, {16, 0xff}, B}, LOSSY);
	each(ppt_pwrx, {range(16), range(16), B, B, B});
	each(ppt_pwrx, {{16, 0xff}, {16, 0xff}, B, B, B}, LOSSY);
	each(ppt_ptw, {bits(32), {0}, B});
	each(ppt_ptw, {bits(64), {1}, B});
	each(ppt_ptw, {{0, ~0ull}, {2, 3, 4, 0x80, 0xff}, B}, STRICT);
	each(ppt_ptw, {{1ull << 32, ~0ull}, {0}, B}, LOSSY);
	each(ppt_cfe, {range(32), range(256), B});
	each(ppt_cfe, {{32, 0x80, 0xff}, range(256), B}, LOSSY);
	each(ppt_evd, {range(32), bits(64)});
	each(ppt_evd, {{32, 0x80, 0xff}, bits(64)}, LOSSY);
	each(ppt_trig, {B, {0}, B, range(256), {0}});
	each(ppt_trig, {B, {1}, B, range(256), {0, 1, 0xff, 0x100, 0x7fff, 0xffff}});
	each(ppt_trig, {{0, 1}, {1}, {0, 1}, {0, 0xff, 0x5a}, range(65536)});
	each(ppt_invalid, {{0}}, STRICT);
	each(ppt_unknown, {{0}}, STRICT);
	each(0x7f, {{0}}, STRICT);
	each(-1, {{0}}, STRICT);

	/* offset handling: every offset of every small buffer */
	if (mine(0))
		for (int n = 1; n < 40; n++) {
			uint8_t buf[64];
			memset(buf, FILL, sizeof(buf));
			struct pt_config c;
			pt_config_init(&c);
			c.begin = buf;
			c.end = buf + n;
			struct pt_encoder *e = pt_alloc_encoder(&c);
			uint64_t o = 99;
			if (pt_enc_get_offset(e, &o) != 0 || o != 0)
				viol("enc-start", "encoder does not start at offset 0");
			for (uint64_t k : {(uint64_t)0, (uint64_t)1, (uint64_t)n - 1, (uint64_t)n, (uint64_t)n + 1,
					   (uint64_t)1 << 32, (uint64_t)1 << 63, ~(uint64_t)0}) {
				uint64_t before = 0;
				pt_enc_get_offset(e, &before);
				int rc = pt_enc_sync_set(e, k);
				pt_enc_get_offset(e, &o);
				count("evaluations");
				if (k <= (uint64_t)n ? (rc != 0 || o != k) : (rc != -pte_eos || o != before))
					viol("enc-sync", fmt("pt_enc_sync_set(%llu) of %d: %s, offset %llu", (unsigned long long)k, n,
						ename(rc), (unsigned long long)o));
			}
			/* fill up with PADs: exactly n fit */
			pt_enc_sync_set(e, 0);
			struct pt_packet p;
			memset(&p, 0, sizeof(p));
			p.type = ppt_pad;
			int got = 0;
			while (pt_enc_next(e, &p) == 1 && got < 100)
				got++;
			if (got != n)
				viol("enc-fill", fmt("%d PADs fit into %d bytes", got, n));
			pt_free_encoder(e);
		}
	return finish();
}
