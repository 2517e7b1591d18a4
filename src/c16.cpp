// C16: identifiers of the section cache denote the same contents forever; limits are kept.
#include "env.hpp"
using namespace vf;
typedef std::vector<uint8_t> Bytes;

static std::string F[6];
static const uint64_t G4 = 1ull << 32;
static const uint64_t FSZ[6] = {5000, 9000, 100, 0, G4 + 200, G4 + 200};
static uint8_t fbyte(int f, uint64_t o)
{
	/* The big files have holes. */
	if (f > 3) {
		if (o >= 200 && o < G4)
			return 0;
		o += (o >> 32) * 3;
	}
	return 0x50 + ((o * 7 + f * 5 + (o >> 4) + (o >> 9)) & 15);
}

enum K { ADD, READALL, READLAST, LIMIT, INSN, BLK, HOLD, DROP, KEEP, BAD };
struct Op {
	K k;
	int f;
	uint64_t off, n, at;
	const char *name;
};
static const Op OPS[] = {
	{ADD, 0, 0, 5000, 0x1000, "add F0[0,5000)@1000"},
	{BLK, 0, 0, 0, 0, "block decode in last"},
	{LIMIT, 0, 5000, 0, 0, "limit 5000"},
	{ADD, 0, 0, 5000, 0x9000, "add F0[0,5000)@9000"},
	{READALL, 0, 0, 0, 0, "read all"},
	{ADD, 1, 0, 9000, 0x1000, "add F1[0,9000)@1000"},
	{LIMIT, 0, 15000, 0, 0, "limit 15000"},
	{HOLD, 0, 0, 0, 0, "start a decoder in the last"},
	{ADD, 0, 0, 1ull << 40, 0x1000, "add F0[0,1T)@1000"},
	{ADD, 0, 4106, 500, 0x1000, "add F0[4106,+500)@1000"},
	{ADD, 2, 50, 1000, 0x2000, "add F2[50,..)@2000"},
	{ADD, 2, 50, 50, 0x2000, "add F2[50,100)@2000"},
	{ADD, 2, 0, 100, 0xffffffffffff0000ull, "add F2[0,100)@ffffffffffff0000"},
	{READLAST, 0, 0, 0, 0, "read last"},
	{LIMIT, 0, 0, 0, 0, "limit 0"},
	{LIMIT, 0, 28000, 0, 0, "limit 28000"},
	{LIMIT, 0, ~0ull, 0, 0, "limit max"},
	{INSN, 0, 0, 0, 0, "decode in last"},
	{DROP, 0, 0, 0, 0, "free the decoder"},
	{KEEP, 0, 0, 0, 0, "add last to an image that stays"},
	{BAD, 0, 0, 0, 0, "bad calls"},
	/* only in the pass that adds */
	{ADD, 0, 0, 5000, 0x20000, "add F0[0,5000)@20000"},
	{ADD, 0, 0, 1ull << 40, 0x20000, "add F0[0,1T)@20000"},
	{ADD, 2, 50, 50, 0x1000, "add F2[50,100)@1000"},
	{ADD, 2, 50, 50, 0x9000, "add F2[50,100)@9000"},
	/* only with big files: what differs differs in the upper half only */
	{ADD, 4, 0, 100, 0x1000, "add F4[0,100)@1000"},
	{ADD, 4, G4, 100, 0x1000, "add F4[4G,+100)@1000"},
	{ADD, 4, 0, G4 + 100, 0x1000, "add F4[0,4G+100)@1000"},
	{ADD, 4, 0, 100, 0x100001000ull, "add F4[0,100)@100001000"},
	{ADD, 5, 0, 100, 0x1000, "add F5[0,100)@1000"},
	{ADD, 4, G4 + 50, 1ull << 40, 0x1000, "add F4[4G+50,1T)@1000"},
	{LIMIT, 0, G4 + 8192, 0, 0, "limit 4G+8192"},
};
static const int NOPS = 21, CORE = 8, BIGF = 25;

struct Ent {
	int f;
	uint64_t off, n, at;
};

static std::string show(const std::vector<int> &s)
{
	std::string r;
	for (int i : s)
		r += std::string(r.empty() ? "" : "; ") + OPS[i].name;
	return r;
}

struct Run {
	const std::vector<int> &seq;
	struct pt_image_section_cache *isc;
	std::vector<Ent> ents; /* isid - 1 */
	uint64_t limit = ~0ull;
	long base = env::st.mapbytes;
	struct pt_image *keep = NULL;
	std::vector<int> kept;
	struct pt_insn_decoder *held = NULL;
	int held_isid = 0;
	Bytes held_trace;
	struct pt_image *held_im = NULL;
	bool bad = false;
	uint64_t h = 1469598103934665603ull;
	explicit Run(const std::vector<int> &s) : seq(s) { isc = pt_iscache_alloc("cache"); }
	void v(const char *key, const std::string &t)
	{
		viol(key, fmt("history: %s\n%s", show(seq).c_str(), t.c_str()));
		bad = true;
	}
	void readone(int isid)
	{
		const Ent &e = ents[isid - 1];
		static uint8_t buf[70000];
		const uint64_t pos[] = {0, 1, e.n / 2, e.n - 1};
		for (uint64_t p : pos)
			for (uint64_t n : {(uint64_t)1, (uint64_t)16, (uint64_t)4096, (uint64_t)65535, (uint64_t)65536, (uint64_t)66000}) {
				if (p >= e.n)
					continue;
				buf[0] = 0xee;
				count("evaluations");
				int rc = pt_iscache_read(isc, buf, n, isid, e.at + p);
				uint64_t lo = std::min({n, (uint64_t)4096, e.n - p}), hi = std::min(n, e.n - p);
				bool ok = rc >= 0 && (uint64_t)rc >= lo && (uint64_t)rc <= hi;
				for (int i = 0; ok && i < rc; i++)
					ok = buf[i] == fbyte(e.f, e.off + p + i);
				if (!ok)
					return v("read", fmt("read of %llu at +%llu of isid %d: %s", (unsigned long long)n,
						(unsigned long long)p, isid, ename(rc)));
			}
		const uint64_t out[] = {e.at - 1, e.at + e.n, e.at + e.n + 1, 0};
		for (uint64_t a : out)
			if (a - e.at >= e.n && pt_iscache_read(isc, buf, 4, isid, a) != -pte_nomap)
				return v("read-out", fmt("read outside of isid %d at %llx: not refused", isid, (unsigned long long)a));
		h = h * 31 + isid + e.f * 7 + e.off;
	}
	void trace(Bytes &t, uint64_t ip)
	{
		t.clear();
		for (int i = 0; i < 16; i++)
			t.push_back(i & 1 ? 0x82 : 2);
		t.insert(t.end(), {0x99, 1, 0xdd});
		for (int i = 0; i < 8; i++)
			t.push_back(ip >> (8 * i));
		t.insert(t.end(), {2, 0x23});
	}
	/* decode some instructions; NULL keeps the decoder */
	struct pt_insn_decoder *insn(struct pt_image *im, Bytes &t, const Ent &e, int isid, uint64_t off, int n)
	{
		trace(t, e.at + off);
		struct pt_config c;
		pt_config_init(&c);
		c.begin = t.data();
		c.end = t.data() + t.size();
		struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
		pt_insn_set_image(d, im);
		int st = pt_insn_sync_forward(d);
		while (st >= 0 && (st & pts_event_pending)) {
			struct pt_event ev;
			st = pt_insn_event(d, &ev, sizeof(ev));
		}
		go(d, e, isid, off, n);
		return d;
	}
	void go(struct pt_insn_decoder *d, const Ent &e, int isid, uint64_t off, int n)
	{
		for (int i = 0; i < n && off + i < e.n; i++) {
			struct pt_insn in;
			memset(&in, 0, sizeof(in));
			pt_insn_next(d, &in, sizeof(in));
			count("evaluations");
			if (in.size != 1 || in.ip != e.at + off + i || in.isid != isid || in.raw[0] != fbyte(e.f, e.off + off + i))
				return v("decode", fmt("decode in isid %d at +%llu: ip=%llx size=%d isid=%d raw=%02x", isid,
					(unsigned long long)(off + i), (unsigned long long)in.ip, in.size, in.isid, in.raw[0]));
		}
	}
	void blk(struct pt_image *im, const Ent &e, int isid)
	{
		Bytes t;
		trace(t, e.at + 3);
		struct pt_config c;
		pt_config_init(&c);
		c.begin = t.data();
		c.end = t.data() + t.size();
		struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
		pt_blk_set_image(d, im);
		int st = pt_blk_sync_forward(d);
		while (st >= 0 && (st & pts_event_pending)) {
			struct pt_event ev;
			st = pt_blk_event(d, &ev, sizeof(ev));
		}
		struct pt_block b;
		memset(&b, 0, sizeof(b));
		st = pt_blk_next(d, &b, sizeof(b));
		count("evaluations");
		uint64_t end = 3; /* holes decode as two-byte additions */
		for (int i = 1; i < b.ninsn; i++)
			end += fbyte(e.f, e.off + end) ? 1 : 2;
		if (!b.ninsn || b.ip != e.at + 3 || b.isid != isid || b.end_ip != e.at + end)
			v("blk", fmt("block decode in isid %d: ninsn=%d ip=%llx end=%llx isid=%d", isid, b.ninsn,
				(unsigned long long)b.ip, (unsigned long long)b.end_ip, b.isid));
		pt_blk_free_decoder(d);
	}
	void drop()
	{
		if (!held)
			return;
		go(held, ents[held_isid - 1], held_isid, 7, 3);
		pt_insn_free_decoder(held);
		pt_image_free(held_im);
		held = NULL;
	}
	void step(const Op &o)
	{
		int last = (int)ents.size();
		switch (o.k) {
		case ADD: {
			Ent e = {o.f, o.off, std::min(o.n, FSZ[o.f] - o.off), o.at};
			int exp = 0;
			for (size_t i = 0; i < ents.size(); i++)
				if (ents[i].f == e.f && ents[i].off == e.off && ents[i].n == e.n && ents[i].at == e.at)
					exp = (int)i + 1;
			int rc = pt_iscache_add_file(isc, F[o.f].c_str(), o.off, o.n, o.at);
			if (rc <= 0 || (exp && rc != exp) || (!exp && rc <= (int)ents.size()))
				return v("add", fmt("%s: %s, expected %d", o.name, ename(rc), exp));
			if (!exp) {
				/* identifiers need not be dense, but they are unique; see above */
				while ((int)ents.size() < rc - 1)
					ents.push_back({-1, 0, 0, 0});
				ents.push_back(e);
			}
			break;
		}
		case READALL:
			for (int i = 1; i <= last; i++)
				readone(i);
			break;
		case READLAST:
			if (last)
				readone(last);
			break;
		case LIMIT: {
			int rc = pt_iscache_set_limit(isc, o.off);
			limit = o.off;
			if (rc < 0)
				v("limit", fmt("%s: %s", o.name, ename(rc)));
			break;
		}
		case INSN:
		case BLK:
			if (last) {
				struct pt_image *im = pt_image_alloc(NULL);
				int rc = pt_image_add_cached(im, isc, last, NULL);
				if (rc < 0)
					v("add_cached", ename(rc));
				else if (o.k == BLK)
					blk(im, ents[last - 1], last);
				else {
					Bytes t;
					pt_insn_free_decoder(insn(im, t, ents[last - 1], last, 2, 5));
				}
				pt_image_free(im);
			}
			break;
		case HOLD:
			if (last) {
				drop();
				held_im = pt_image_alloc(NULL);
				pt_image_add_cached(held_im, isc, last, NULL);
				held_isid = last;
				held = insn(held_im, held_trace, ents[last - 1], last, 2, 5);
			}
			break;
		case DROP:
			drop();
			break;
		case KEEP:
			if (last) {
				if (!keep)
					keep = pt_image_alloc("keep");
				if (pt_image_add_cached(keep, isc, last, NULL) < 0)
					v("add_cached", "keep");
				kept.push_back(last);
			}
			break;
		case BAD: {
			uint8_t b[4];
			if (pt_iscache_add_file(isc, F[3].c_str(), 0, 10, 0x1000) >= 0 ||
			    pt_iscache_add_file(isc, F[2].c_str(), 100, 10, 0x1000) != -pte_invalid ||
			    pt_iscache_add_file(isc, NULL, 0, 10, 0x1000) != -pte_invalid ||
			    pt_iscache_add_file(NULL, F[0].c_str(), 0, 10, 0x1000) != -pte_invalid ||
			    pt_iscache_read(isc, b, 0, 1, 0x1000) != -pte_invalid ||
			    pt_iscache_read(isc, NULL, 1, 1, 0x1000) != -pte_invalid ||
			    pt_iscache_set_limit(NULL, 1) != -pte_invalid ||
			    pt_iscache_read(isc, b, 1, 0, 0x1000) != -pte_bad_image ||
			    pt_iscache_read(isc, b, 1, -3, 0x1000) != -pte_bad_image ||
			    pt_iscache_read(isc, b, 1, last + 1, 0x1000) != -pte_bad_image ||
			    pt_iscache_read(isc, b, 1, 0xffff, 0x1000) != -pte_bad_image ||
			    pt_iscache_read(isc, b, 1, 0x7fffffff, 0x1000) != -pte_bad_image)
				v("bad", "a bad call was not refused as documented");
			break;
		}
		}
	}
	void quiet(const char *when)
	{
		/* Nobody but the cache itself uses a section here. */
		if (!held && (uint64_t)(env::st.mapbytes - base) > limit)
			v("limit", fmt("%s: %ld bytes remain mapped, the limit is %llu", when, env::st.mapbytes - base,
				(unsigned long long)limit));
	}
};

static void run(const std::vector<int> &seq, bool cache_first)
{
	long b0 = env::st.blocks, m0 = env::st.maps, f0 = env::st.fds;
	{
		Run r(seq);
		for (size_t i = 0; i < seq.size() && !r.bad; i++) {
			r.step(OPS[seq[i]]);
			count("operations");
			r.quiet(OPS[seq[i]].name);
		}
		if (!r.bad) {
			for (int i = 1; i <= (int)r.ents.size() && !r.bad; i++)
				r.readone(i);
			r.quiet("final reads");
			for (int i = 1; i <= (int)r.ents.size() && !r.bad; i++) {
				const Ent &e = r.ents[i - 1];
				if (e.f < 0)
					continue;
				int rc = pt_iscache_add_file(r.isc, F[e.f].c_str(), e.off, e.n, e.at);
				if (rc != i)
					r.v("again", fmt("adding what isid %d denotes again: %s", i, ename(rc)));
			}
			r.quiet("adding again");
			/* What fits stays mapped: a second round opens nothing. */
			if (!r.bad && r.limit >= 28000) {
				uint64_t total = 0;
				for (auto &e : r.ents)
					total += e.n + 4096;
				/* block caches take memory, too */
				bool blk = std::count_if(seq.begin(), seq.end(), [](int i) { return OPS[i].k == BLK; });
				long o = env::st.opens;
				for (int i = 1; i <= (int)r.ents.size(); i++)
					r.readone(i);
				if ((r.limit == ~0ull || (!blk && total <= r.limit)) && env::st.opens != o)
					r.v("remap", fmt("sections of %llu bytes fit into the limit of %llu but were mapped again",
						(unsigned long long)total, (unsigned long long)r.limit));
			}
		}
		distinct(r.h * 1000003 + r.limit + (uint64_t)env::st.mapbytes * 7);
		if (cache_first) {
			pt_iscache_free(r.isc);
			/* images and decoders keep what they use */
			if (r.keep && !r.bad) {
				int isid = r.kept.back();
				Bytes t;
				pt_insn_free_decoder(r.insn(r.keep, t, r.ents[isid - 1], isid, 4, 3));
			}
			r.drop();
			pt_image_free(r.keep);
		} else {
			r.drop();
			pt_image_free(r.keep);
			pt_iscache_free(r.isc);
		}
	}
	if (env::st.blocks != b0 || env::st.maps != m0 || env::st.fds != f0)
		viol("leak", fmt("history: %s (cache freed %s)\nafter freeing everything: %s, before: blocks=%ld maps=%ld fds=%ld",
			show(seq).c_str(), cache_first ? "first" : "last", env::outstanding().c_str(), b0, m0, f0));
	count("histories");
	if (want_sample())
		sample(show(seq));
}

/* Add sections until the cache is full: identifiers remain what they are. */
static void many(int w)
{
	/* 0: one section at many addresses, 1: many parts of one file, 2: the same with a small limit */
	static const char *const name[] = {"addresses", "parts", "parts, limit 20000"};
	cur(fmt("section cache: many %s", name[w]));
	long mb0 = env::st.mapbytes;
	long b0 = env::st.blocks, m0 = env::st.maps, f0 = env::st.fds;
	struct pt_image_section_cache *isc = pt_iscache_alloc(NULL);
	if (w == 2)
		pt_iscache_set_limit(isc, 20000);
	std::map<int, int> id; /* isid -> i */
	const int n = w ? 600 : 70000;
	auto add = [&](int i) {
		count("operations");
		return pt_iscache_add_file(isc, F[1].c_str(), w ? i * 7 : 3, w ? 64 : 64,
			0x10000 + (w ? (uint64_t)(i & 3) : (uint64_t)i) * 0x100000);
	};
	auto check = [&](int isid, int i) {
		uint8_t b[64];
		uint64_t at = 0x10000 + (w ? (uint64_t)(i & 3) : (uint64_t)i) * 0x100000;
		count("evaluations");
		int rc = pt_iscache_read(isc, b, sizeof(b), isid, at + 5);
		bool ok = rc == 59;
		for (int k = 0; ok && k < rc; k++)
			ok = b[k] == fbyte(1, (w ? i * 7 : 3) + 5 + k);
		if (ok && pt_iscache_read(isc, b, 1, isid, at - 1) != -pte_nomap)
			ok = false;
		if (!ok)
			viol("many", fmt("many %s: section %d, isid %d: read %s", name[w], i, isid, ename(rc)));
		return ok;
	};
	int full = 0;
	for (int i = 0; i < n && !full; i++) {
		int rc = add(i);
		if (rc > 0 && id.emplace(rc, i).second) {
			if ((i & (i + 1)) == 0 && !check(rc, i))
				break;
			continue;
		}
		if (rc > 0 || i < 600) {
			viol("many", fmt("many %s: adding section %d: %s", name[w], i, ename(rc)));
			break;
		}
		full = i;
	}
	for (auto &x : id)
		if ((!full || x.second % 97 < 3 || x.second > full - 5) && !check(x.first, x.second))
			break;
	/* adding again yields the same identifier, full or not */
	for (auto &x : id)
		if (x.second % 1009 == 0 || x.second > full - 5) {
			int rc = add(x.second);
			if (rc != x.first) {
				viol("many", fmt("many %s: adding section %d, isid %d again: %s", name[w], x.second, x.first, ename(rc)));
				break;
			}
		}
	maxi("identifiers", id.size());
	if (w == 2 && (uint64_t)(env::st.mapbytes - mb0) > 20000)
		viol("many", fmt("many %s: %ld bytes remain mapped", name[w], (long)env::st.mapbytes - mb0));
	pt_iscache_free(isc);
	if (env::st.blocks != b0 || env::st.maps != m0 || env::st.fds != f0)
		viol("leak", fmt("many %s: after freeing everything: %s", name[w], env::outstanding().c_str()));
	count("histories");
}

int main(int argc, char **argv)
{
	init(argc, argv);
	for (int f = 0; f < 6; f++) {
		F[f] = opt.scratch + fmt("/f%d", f);
		if (f == 3)
			continue;
		if (f == 5)
			F[5] = F[4] + "x";
		FILE *o = fopen(F[f].c_str(), "wb");
		for (uint64_t i = 0; i < std::min(FSZ[f], (uint64_t)9000); i++)
			fputc(fbyte(f, i), o);
		if (f > 3) {
			fseeko(o, G4, SEEK_SET);
			for (uint64_t i = G4; i < FSZ[f]; i++)
				fputc(fbyte(f, i), o);
		}
		fclose(o);
	}
	uint64_t idx = 0;
	auto all = [&](const std::vector<int> &ops, int depth, int from) {
		int nops = (int)ops.size();
		for (int len = from; len <= depth; len++) {
			std::vector<int> x(len, 0), s(len);
			for (;;) {
				for (int j = 0; j < len; j++)
					s[j] = ops[x[j]];
				if (mine(idx++) && !late()) {
					cur("section cache history: " + show(s));
					run(s, false);
					run(s, true);
				}
				int j = 0;
				while (j < len && ++x[j] == nops)
					x[j++] = 0;
				if (j == len)
					break;
			}
		}
	};
	std::vector<int> full, core, adds, big;
	for (int i = 0; i < (int)(sizeof(OPS) / sizeof(*OPS)); i++) {
		if (i < NOPS)
			full.push_back(i);
		if (i < CORE)
			core.push_back(i);
		if (i >= BIGF || OPS[i].k == READALL || OPS[i].k == BLK || OPS[i].k == INSN || !strcmp(OPS[i].name, "limit 0") ||
		    !strcmp(OPS[i].name, "limit max"))
			big.push_back(i);
		if (i < BIGF && OPS[i].k == ADD && OPS[i].off != 4106)
			adds.push_back(i);
	}
	all(adds, opt.thorough ? 5 : 4, 4);
	all(full, opt.thorough ? 4 : 3, 1);
	all(core, opt.thorough ? 6 : 5, opt.thorough ? 5 : 4);
	all(big, opt.thorough ? 5 : 3, 1);
	for (int w = 0; w < 3; w++)
		if (mine(idx++))
			many(w);
	maxi("depth_full_alphabet", opt.thorough ? 4 : 3);
	maxi("depth_core_alphabet", opt.thorough ? 6 : 5);
	return finish();
}
