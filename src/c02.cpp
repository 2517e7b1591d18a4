// C02: packet decoding agrees with the packet format for every header, payload class, truncation.
#include "refpkt.hpp"
using namespace vf;

static Guard *G;
static struct { int ret; uint64_t calls; const uint8_t *pos; const uint8_t *begin, *end; bool bad; } CB;

static int cb(struct pt_packet_unknown *u, const struct pt_config *c, const uint8_t *pos, void *ctx)
{
	CB.calls++;
	CB.pos = pos;
	if (ctx != (void *)&CB || c->begin != CB.begin || c->end != CB.end || u->packet != pos ||
	    u->priv)
		CB.bad = true;
	u->priv = &CB;
	return CB.ret;
}

struct Env {
	bool skd007, skz84;
	int cbmode; /* -1: no callback, else index into cbret */
};
static const int CBRET[] = {0, 1, 3, 16, 17, 255, 256, 1000, -pte_bad_opc, -pte_eos, -pte_nomem};


/* Decode at the very start of a buffer holding exactly p[0..n). */
static void one(const uint8_t *p, size_t n, const Env &e)
{
	count("evaluations");
	curhex("packet bytes: ", p, n);
	uint8_t *b = G->right(p, n);
	struct pt_config c;
	pt_config_init(&c);
	c.begin = b;
	c.end = b + n;
	c.errata.skd007 = e.skd007;
	c.errata.skz84 = e.skz84;
	if (e.cbmode >= 0) {
		c.decode.callback = cb;
		c.decode.context = &CB;
		CB.ret = CBRET[e.cbmode];
	}
	CB.calls = 0;
	CB.bad = false;
	CB.begin = c.begin;
	CB.end = c.end;
	if (!n)
		return;
	static struct pt_packet_decoder *d;
	/* A decoder per buffer; the allocation is cheap. */
	d = pt_pkt_alloc_decoder(&c);
	if (!d) {
		viol("alloc", fmt("pt_pkt_alloc_decoder failed n=%zu", n));
		return;
	}
	if (pt_pkt_sync_set(d, 0) != 0)
		viol("sync_set", "pt_pkt_sync_set(0) failed");
	struct pt_packet pkt;
	memset(&pkt, 0xa5, sizeof(pkt));
	int rc = pt_pkt_next(d, &pkt, sizeof(pkt));
	uint64_t off = ~0ull;
	int orc = pt_pkt_get_offset(d, &off);
	ref::Out o = ref::decode(p, n);
	std::string bytes = hex(p, n) + fmt(" skd007=%d skz84=%d cb=%d", e.skd007, e.skz84, e.cbmode);
	uint64_t expoff = 0;
	bool checked = false;
	if (orc != 0)
		viol("offset", fmt("no offset after decode: %s (%s)", ename(orc), bytes.c_str()));

	/* errata */
	if (e.skz84 && !o.ok && o.err.count(-pte_bad_packet) && n >= 7 && p[0] == 2 && p[1] == 0x73) {
		/* corrupted TMA: skipped, including the bogus byte that follows it */
		checked = true;
		if (n >= 8) {
			if (rc != 8 || pkt.type != ppt_invalid || pkt.size != 8)
				viol("skz84", fmt("corrupt TMA not skipped: rc=%d (%s)", rc, bytes.c_str()));
			expoff = 8;
		} else {
			if (rc != -pte_eos)
				viol("skz84-eos", fmt("corrupt TMA without room for the bogus byte: "
						      "rc=%s (%s)", ename(rc), bytes.c_str()));
			expoff = 0;
		}
	} else if (e.skd007 && o.ok && o.pk.type == ppt_cyc && o.pk.size == 2 &&
		   p[1] == 0x02 && n > 2 && p[2] == 0xf3) {
		checked = true;
		if (rc < 0 || pkt.type != ppt_ovf)
			viol("skd007", fmt("OVF hidden by truncated CYC not found: rc=%d (%s)", rc,
					   bytes.c_str()));
		expoff = 3;
	}
	if (checked)
		;
	else if (o.unknown) {
		int exp;
		if (e.cbmode < 0) {
			exp = -pte_bad_opc;
			if (CB.calls)
				viol("callback", "callback called although not configured");
		} else {
			if (CB.calls != 1 || CB.pos != b || CB.bad)
				viol("callback", fmt("unknown opcode: callback calls=%llu args %s (%s)",
						     (unsigned long long)CB.calls,
						     CB.bad ? "bad" : "ok", bytes.c_str()));
			int r = CBRET[e.cbmode];
			if (r < 0)
				exp = r;
			else if (r > 255)
				exp = -pte_invalid;
			else if ((size_t)r > n)
				exp = -pte_eos;
			else
				exp = r;
		}
		if (rc != exp)
			viol("unknown", fmt("unknown opcode: rc=%s expected %s (%s)", ename(rc),
					    std::string(ename(exp)).c_str(), bytes.c_str()));
		if (exp >= 0) {
			expoff = exp;
			if (pkt.type != ppt_unknown || pkt.size != exp ||
			    pkt.payload.unknown.packet != b || pkt.payload.unknown.priv != &CB)
				viol("unknown-fields", "unknown packet badly reported (" + bytes + ")");
		}
	} else if (o.ok) {
		if (CB.calls)
			viol("callback", "callback called for a known packet (" + bytes + ")");
		bool lax = o.pk.type == ppt_cyc && o.pk.size > 10;
		/* redundant continuation bytes in an overlong CYC may be refused */
		if (o.pk.type == ppt_cyc && (int)ref::encode(o.pk).size() < o.pk.size && o.pk.size > 9)
			lax = true;
		if (lax && rc == -pte_bad_packet)
			expoff = 0;
		else {
			ref::Pk k = rc >= 0 ? ref::flat(pkt) : ref::Pk();
			expoff = o.pk.size;
			if (rc != o.pk.size || !k.same(o.pk))
				viol(fmt("decode-%d", o.pk.type),
				     fmt("bytes %s\n expected %s\n got rc=%s %s", bytes.c_str(),
					 o.pk.str().c_str(), ename(rc), k.str().c_str()));
		}
	} else {
		if (CB.calls)
			viol("callback", "callback called for a known packet (" + bytes + ")");
		if (!o.err.count(rc))
			viol(fmt("error-%02x", p[0]), fmt("bytes %s: rc=%s, expected %s", bytes.c_str(),
				std::string(ename(rc)).c_str(), ename(*o.err.begin())));
	}
	if (off != expoff)
		viol("offset", fmt("bytes %s: offset after decode is %llu, expected %llu", bytes.c_str(),
				   (unsigned long long)off, (unsigned long long)expoff));
	pt_pkt_free_decoder(d);
	if (want_sample())
		sample(bytes + " -> rc=" + ename(rc) + " " + (o.ok ? o.pk.str() : std::string("error")));
	if (o.ok) {
		uint64_t h = fnv(o.pk.f, sizeof(o.pk.f), o.pk.type * 131 + o.pk.size);
		distinct(h);
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	G = new Guard(1);
	uint64_t idx = 0;
	std::vector<Env> envs;
	for (int skd = 0; skd < 2; skd++)
		for (int skz = 0; skz < 2; skz++)
			envs.push_back({(bool)skd, (bool)skz, -1});
	for (unsigned i = 0; i < sizeof(CBRET) / sizeof(*CBRET); i++)
		envs.push_back({false, false, (int)i});
	Env plain = envs[0];

	/* 1. every header, payload classes, every truncation, every environment. */
	std::vector<std::vector<uint8_t>> heads;
	for (int a = 0; a < 256; a++) {
		if (a != 2) {
			heads.push_back({(uint8_t)a});
			continue;
		}
		for (int b = 0; b < 256; b++) {
			if (b != 0xc3) {
				heads.push_back({2, (uint8_t)b});
				continue;
			}
			for (int x = 0; x < 256; x++)
				heads.push_back({2, 0xc3, (uint8_t)x});
		}
	}
	const size_t L = 20;
	for (auto &h : heads) {
		if (!mine(idx++))
			continue;
		std::vector<std::vector<uint8_t>> pls;
		auto mk = [&](std::function<uint8_t(int)> f) {
			std::vector<uint8_t> v = h;
			while (v.size() < L)
				v.push_back(f((int)(v.size() - h.size())));
			pls.push_back(v);
		};
		mk([](int) { return 0; });
		mk([](int) { return 0xff; });
		mk([](int i) { return i + 1; });
		mk([](int i) { return 0x80 + i; });
		mk([](int i) { return 0xf0 - i * 13; });
		mk([](int i) { return (i & 1) ? 0x82 : 0x02; });
		mk([](int i) { return (i & 1) ? 0x02 : 0x82; });
		mk([](int i) { return i == 0 ? 0x02 : 0xf3; });
		mk([](int i) { return i < 9 ? 0xff : 0x00; });
		mk([](int i) { return i < 8 ? 0xff : (i == 8 ? 0x0e : 0); });
		mk([](int i) { return i < 8 ? 0xff : (i == 8 ? 0x10 : 0); });
		for (int bit = 0; bit < 18 * 8; bit++) {
			mk([&](int i) { return i == bit / 8 ? 1 << (bit & 7) : 0; });
			mk([&](int i) { return i == bit / 8 ? ~(1 << (bit & 7)) : 0xff; });
		}
		/* a mangled byte in an otherwise perfect PSB */
		for (int k = 0; k < 14; k++)
			mk([&](int i) { return i == k ? 0x5a : ((i & 1) ? 0x82 : 0x02); });
		for (size_t v = 0; v < pls.size(); v++)
			for (size_t n = 1; n <= L; n++) {
				one(pls[v].data(), n, plain);
				if (v < 11)
					for (size_t e = 1; e < envs.size(); e++)
						one(pls[v].data(), n, envs[e]);
			}
	}
	/* 2. every 16-bit value at every payload position, over zero and all-ones. */
	int step = opt.thorough ? 1 : 257; /* quick: a complete residue system over both bytes */
	for (auto &h : heads) {
		std::vector<uint8_t> t = h;
		t.resize(L, 0);
		if (ref::decode(t.data(), L).unknown)
			continue;
		for (int base = 0; base < 2; base++)
			for (int pos = 0; pos < 10; pos++) {
				if (!mine(idx++))
					continue;
				std::vector<uint8_t> v = h;
				v.resize(L, base ? 0xff : 0);
				for (int x = 0; x < 65536; x += step) {
					v[h.size() + pos] = x & 255;
					v[h.size() + pos + 1] = x >> 8;
					one(v.data(), L, plain);
				}
				/* each single byte exhaustively in any case */
				for (int x = 0; x < 256; x++) {
					v[h.size() + pos] = x;
					v[h.size() + pos + 1] = base ? 0xff : 0;
					one(v.data(), L, plain);
				}
			}
	}
	/* 3. two-byte payloads exhaustively: CFE, PWRE, CBR, TRIG, CYC continuation, skd007 window. */
	for (int which = 0; which < 6; which++)
		for (int x = 0; x < 65536; x++) {
			if (!mine(idx++))
				continue;
			uint8_t lo = x & 255, hi = x >> 8;
			std::vector<uint8_t> v;
			switch (which) {
			case 0: v = {2, 0x13, lo, hi}; break;
			case 1: v = {2, 0x22, lo, hi}; break;
			case 2: v = {2, 0x03, lo, hi}; break;
			case 3: v = {0xd9, lo, hi, 0x34, 0x12}; break;
			case 4: v = {lo, hi, 0x12, 0}; break;
			case 5: v = {lo, hi, 0xf3, 0}; break;
			}
			one(v.data(), v.size(), plain);
			one(v.data(), v.size(), envs[2]);
		}
	/* 4. walking a buffer: positions add up, and decoding does not depend on the position. */
	{
		std::vector<std::vector<uint8_t>> ok;
		for (auto &h : heads) {
			std::vector<uint8_t> t = h;
			t.resize(L, 0x11);
			ref::Out o = ref::decode(t.data(), L);
			if (o.ok) {
				t.resize(o.pk.size);
				ok.push_back(t);
			}
		}
		for (size_t a = 0; a < ok.size(); a++)
			for (size_t b = 0; b < ok.size(); b++) {
				if (!mine(idx++))
					continue;
				std::vector<uint8_t> t = ok[a];
				t.insert(t.end(), ok[b].begin(), ok[b].end());
				t.insert(t.end(), ok[a].begin(), ok[a].end());
				uint8_t *m = G->right(t.data(), t.size());
				struct pt_config c;
				pt_config_init(&c);
				c.begin = m;
				c.end = m + t.size();
				curhex("packet walk: ", t.data(), t.size());
				struct pt_packet_decoder *d = pt_pkt_alloc_decoder(&c);
				pt_pkt_sync_set(d, 0);
				size_t pos = 0;
				int n = 0;
				for (;;) {
					count("evaluations");
					struct pt_packet pkt;
					memset(&pkt, 0xa5, sizeof(pkt));
					int rc = pt_pkt_next(d, &pkt, sizeof(pkt));
					uint64_t off = 0, soff = 1;
					pt_pkt_get_offset(d, &off);
					pt_pkt_get_sync_offset(d, &soff);
					if (pos == t.size()) {
						if (rc != -pte_eos || off != pos)
							viol("walk-eos", fmt("walk %s: rc=%s at end", hex(t).c_str(), ename(rc)));
						break;
					}
					ref::Out o = ref::decode(&t[pos], t.size() - pos);
					if (!o.ok) {
						if (!o.err.count(rc))
							viol("walk", "walk " + hex(t));
						break;
					}
					pos += o.pk.size;
					if (rc != o.pk.size || !ref::flat(pkt).same(o.pk) || off != pos || soff != 0) {
						viol("walk", fmt("walk %s: packet %d rc=%d off=%llu sync=%llu", hex(t).c_str(),
								 n, rc, (unsigned long long)off, (unsigned long long)soff));
						break;
					}
					n++;
				}
				pt_pkt_free_decoder(d);
			}
	}
	return finish();
}
