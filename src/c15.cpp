// C15: an image reads as the byte map its operation history describes.
#include "env.hpp"
#include "refpkt.hpp"
extern "C" {
int pt_image_read(struct pt_image *image, int *isid, uint8_t *buffer, uint16_t size,
		  const struct pt_asid *asid, uint64_t addr);
}
using namespace vf;
typedef std::vector<uint8_t> Bytes;

/* The histories run in several layouts: low addresses, addresses around 4 GiB in files beyond 4 GiB, the top. */
static uint64_t B = 0x1000, FO = 0;
static const int WIN = 20; /* observed addresses: B-2 .. B+WIN-3 */
static std::string F[3];
static const int FSZ[2] = {8, 8};
static uint8_t fbyte(int f, int64_t o) { return o < 0 ? 0 : 0x50 + f * 8 + o; }

struct As {
	uint64_t cr3, vmcs;
};
static const uint64_t NO = ~0ull;
enum { ANY, CR1, CR2, VM1, CV, OTHER, CR2V, NAS };
static As AS[NAS];
static int LAY;
static void layout(int l)
{
	LAY = l;
	/* In the second layout, address spaces differ in their upper half only, in the third in a single bit. */
	static const uint64_t b[] = {0x1000, 0x1fffffff8ull, 0xffffffffffffffe0ull}, fo[] = {0, 1ull << 32, 0};
	static const uint64_t c[][3] = {{0x1000, 0x2000, 0x3000}, {0x100001000ull, 0x200001000ull, 0x300001000ull},
					{0x1000, 0x1020, 0x8000000001000ull}};
	static const uint64_t m[][2] = {{0x5000, 0x6000}, {0x500005000ull, 0x600005000ull}, {0x5000, 0x8000000005000ull}};
	B = b[l];
	FO = fo[l];
	AS[ANY] = {NO, NO};
	AS[CR1] = {c[l][0], NO};
	AS[CR2] = {c[l][1], NO};
	AS[VM1] = {NO, m[l][0]};
	AS[CV] = {c[l][0], m[l][0]};
	AS[OTHER] = {c[l][2], m[l][1]};
	AS[CR2V] = {c[l][1], m[l][0]};
}
static bool match(As a, As b)
{
	return (a.cr3 == b.cr3 || a.cr3 == NO || b.cr3 == NO) && (a.vmcs == b.vmcs || a.vmcs == NO || b.vmcs == NO);
}
static struct pt_asid uasid(As a)
{
	struct pt_asid u;
	pt_asid_init(&u);
	u.cr3 = a.cr3;
	u.vmcs = a.vmcs;
	return u;
}

struct Piece {
	int64_t lo, hi; /* relative to B */
	As as;
	int f;
	int64_t off; /* file and offset of lo, relative to FO */
	int isid;
};
struct Model {
	std::vector<Piece> p;
	bool cb = false;
	void add(int64_t lo, int64_t n, As as, int f, int64_t off, int isid)
	{
		std::vector<Piece> r;
		int64_t hi = lo + n;
		for (auto &x : p) {
			if (!match(x.as, as) || x.hi <= lo || hi <= x.lo) {
				r.push_back(x);
				continue;
			}
			if (x.lo < lo) {
				Piece y = x;
				y.hi = lo;
				r.push_back(y);
			}
			if (hi < x.hi) {
				Piece y = x;
				y.off += hi - x.lo;
				y.lo = hi;
				r.push_back(y);
			}
		}
		r.push_back({lo, hi, as, f, off, isid});
		p.swap(r);
	}
	bool remove(int f, As as)
	{
		size_t n = p.size();
		for (size_t i = 0; i < p.size();)
			if (match(p[i].as, as) && (f < 0 || p[i].f == f))
				p.erase(p.begin() + i);
			else
				i++;
		return n != p.size();
	}
	void copy_to(Model &d) const
	{
		for (auto &x : p)
			d.add(x.lo, x.hi - x.lo, x.as, x.f, x.off, x.isid);
	}
};

static int callback(uint8_t *buf, size_t size, const struct pt_asid *asid, uint64_t ip, void *ctx)
{
	/* The callback knows the window only; its bytes are distinct from the files'. */
	if (ip - (B - 2) >= (uint64_t)WIN)
		return -pte_nomap;
	if (ctx != (void *)0x77 || !asid || asid->size != sizeof(*asid))
		return -pte_bad_image;
	size_t n = 0;
	while (n < size && ip + n < B + WIN - 2) {
		buf[n] = 0x40 + ((ip + n) & 0); /* a REX byte would not do: */
		buf[n] = 0x90;
		n++;
	}
	return (int)n;
}

enum OpK { ADD, CACHED, RMF, RMA, COPYNEW, COPYSELF, COPYONTO, CB, READ, BADFILE, BADOFF, BADISID, BIG };
struct Op {
	OpK k;
	int f, off;
	int64_t n;
	int at, as;
	const char *name;
};
static struct pt_image_section_cache *isc;
static int isid[3];
static const struct { int f, off, n, at; } ISC[3] = {{0, 0, 8, 0}, {1, 1, 3, 3}, {1, 2, 6, 7}};

static const Op OPS[] = {
	{ADD, 0, 0, 8, 0, ANY, "add F0[0,8)@0 any"},
	{ADD, 1, 0, 4, 2, ANY, "add F1[0,4)@2 any"},
	{COPYNEW, 0, 0, 0, 0, ANY, "copy to a new image"},
	{ADD, 1, 4, 2, 3, CR1, "add F1[4,6)@3 cr3=1"},
	{RMF, 0, 0, 0, 0, ANY, "remove F0 any"},
	{RMA, 0, 0, 0, 0, CR1, "remove cr3=1"},
	{READ, 0, 0, 0, 5, ANY, "read @5"},
	{CACHED, 0, 0, 0, 0, ANY, "add cached 0 any"},
	{ADD, 0, 1, 5, 6, CR1, "add F0[1,6)@6 cr3=1"},
	{ADD, 1, 2, 100, 4, CR2, "add F1[2,..)@4 cr3=2"},
	{CACHED, 1, 0, 0, 0, CR1, "add cached 1 cr3=1"},
	{CACHED, 2, 0, 0, 0, CV, "add cached 2 cr3=1 vmcs=5"},
	{ADD, 0, 3, 3, 1, VM1, "add F0[3,6)@1 vmcs=5"},
	{COPYONTO, 1, 0, 5, 2, ANY, "copy onto an image with F1[0,5)@2 any"},
	{RMF, 1, 0, 0, 0, CR1, "remove F1 cr3=1"},
	{RMF, 1, 0, 0, 0, VM1, "remove F1 vmcs=5"},
	{RMA, 0, 0, 0, 0, CR2, "remove cr3=2"},
	{RMA, 0, 0, 0, 0, ANY, "remove any"},
	{COPYSELF, 0, 0, 0, 0, ANY, "copy onto itself"},
	{CB, 1, 0, 0, 0, ANY, "set callback"},
	{CB, 0, 0, 0, 0, ANY, "remove callback"},
	{READ, 0, 0, 0, 2, CR1, "read @2 cr3=1"},
	{BADFILE, 0, 0, 8, 2, ANY, "add a missing file"},
	{BADOFF, 0, 8, 1, 2, ANY, "add with offset at the end of the file"},
	{BADISID, 0, 0, 0, 0, ANY, "add a bad isid"},
	/* only where files are that big */
	{BIG, 0, 0, 0, 0, ANY, "add F0[0,4G+8)@-4G any"},
	{BIG, 1, 0, 0, 0, CR1, "add F1[0,4G+8)@-4G cr3=1"},
};
static const int NOPS = sizeof(OPS) / sizeof(*OPS) - 2, CORE = 8;

static std::string show(const std::vector<int> &s)
{
	std::string r = fmt("[layout %d] ", LAY);
	bool first = true;
	for (int i : s) {
		r += std::string(first ? "" : "; ") + OPS[i].name;
		first = false;
	}
	return r;
}

static int rd(struct pt_image *im, int *id, uint8_t *buf, int n, As as, int at)
{
	struct pt_asid u = uasid(as);
	return pt_image_read(im, id, buf, (uint16_t)n, &u, B + at);
}

static bool want(const Model &m, As as, int at, const uint8_t *buf, int size, int rc, int id)
{
	bool any = false;
	for (auto &x : m.p) {
		if (!match(x.as, as) || at < x.lo || x.hi <= at)
			continue;
		any = true;
		int rem = (int)std::min((int64_t)size, x.hi - at);
		if (rc < rem || rc > size || id != x.isid)
			continue;
		bool ok = true;
		for (int i = 0; i < rem; i++)
			ok = ok && buf[i] == fbyte(x.f, x.off + at - x.lo + i);
		if (ok && rc == rem)
			return true;
	}
	if (any)
		return false;
	if (m.cb && at >= -2 && at < WIN - 2)
		return rc == std::min(size, WIN - 2 - at) && id == 0 && buf[0] == 0x90 && buf[rc - 1] == 0x90;
	return rc == -pte_nomap;
}


static void observe(struct pt_image *im, const Model &m, const std::vector<int> &seq)
{
	uint64_t h = 1469598103934665603ull;
	for (const As &as : AS)
		for (int at = -2; at < WIN - 2; at++)
			for (int size : {1, 4, 15}) {
				uint8_t buf[16];
				memset(buf, 0xee, sizeof(buf));
				int id = -7;
				int rc = rd(im, &id, buf, size, as, at);
				count("evaluations");
				if (!want(m, as, at, buf, size, rc, id) || buf[size] != 0xee) {
					viol("read", fmt("after: %s\nread %d bytes at %d cr3=%llx vmcs=%llx: rc=%s isid=%d bytes %s",
						show(seq).c_str(), size, at, (unsigned long long)as.cr3, (unsigned long long)as.vmcs,
						ename(rc), id, hex(buf, size).c_str()));
					return;
				}
				if (rc > 0)
					h = fnv(buf, rc, h + at);
				else
					h = h * 31 + at;
			}
	distinct(h);
}

/* Read through a decoder: it caches the section and must notice what it may not use. */
static void observe_decoder(struct pt_image *im, const Model &m, const std::vector<int> &seq)
{
	for (int qi = 0; qi < 5; qi++) {
		As as = AS[qi];
		for (int at = 0; at < WIN - 2; at += 3) {
			Bytes t;
			auto put = [&](ref::Pk p) { auto e = ref::encode(p); t.insert(t.end(), e.begin(), e.end()); };
			ref::Pk p;
			p = ref::Pk();
			p.type = ppt_psb;
			put(p);
			if (as.cr3 != NO) {
				p = ref::Pk();
				p.type = ppt_pip;
				p.f[0] = as.cr3;
				put(p);
			}
			if (as.vmcs != NO) {
				p = ref::Pk();
				p.type = ppt_vmcs;
				p.f[0] = as.vmcs;
				put(p);
			}
			t.insert(t.end(), {0x99, 0x01});
			t.push_back(0xdd);
			for (int i = 0; i < 8; i++)
				t.push_back((B + at) >> (8 * i));
			t.insert(t.end(), {0x02, 0x23});
			struct pt_config c;
			pt_config_init(&c);
			c.begin = t.data();
			c.end = t.data() + t.size();
			struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
			if (!d || pt_insn_set_image(d, im) < 0) {
				errors.push_back("decoder");
				return;
			}
			int st = pt_insn_sync_forward(d), pos = at;
			for (int i = 0; i < 40 && st >= 0; i++) {
				count("evaluations");
				while (st >= 0 && (st & pts_event_pending)) {
					struct pt_event ev;
					st = pt_insn_event(d, &ev, sizeof(ev));
				}
				if (st < 0)
					break;
				struct pt_insn in;
				memset(&in, 0, sizeof(in));
				st = pt_insn_next(d, &in, sizeof(in));
				bool ok;
				std::vector<const Piece *> c;
				for (auto &x : m.p)
					if (match(x.as, as) && pos >= x.lo && pos < x.hi)
						c.push_back(&x);
				/* Where the lookup is ambiguous (a wildcard query), any of the matching sections will do. */
				if (in.size == 0) {
					ok = c.empty() && !(m.cb && pos < WIN - 2) && st == -pte_nomap;
				} else {
					ok = in.ip == B + pos && in.size == 1;
					bool one = false;
					for (auto *x : c)
						one = one || (in.raw[0] == fbyte(x->f, x->off + pos - x->lo) && in.isid == x->isid);
					if (c.empty())
						one = m.cb && pos < WIN - 2 && in.raw[0] == 0x90 && in.isid == 0;
					ok = ok && one;
				}
				if (!ok) {
					viol("decode", fmt("after: %s\ndecode from %d, at %d, cr3=%llx vmcs=%llx: ip=%llx size=%d raw=%02x isid=%d st=%s",
						show(seq).c_str(), at, pos, (unsigned long long)as.cr3, (unsigned long long)as.vmcs,
						(unsigned long long)in.ip, in.size, in.raw[0], in.isid, ename(st)));
					pt_insn_free_decoder(d);
					return;
				}
				pos++;
			}
			pt_insn_free_decoder(d);
		}
	}
}

/* the history of one image under test, with a decoder-free observer */
static void run(const std::vector<int> &seq, bool deep)
{
	long b0 = env::st.blocks, m0 = env::st.maps, f0 = env::st.fds;
	struct pt_image *im = pt_image_alloc("im");
	Model m;
	for (size_t i = 0; i < seq.size(); i++) {
		const Op &o = OPS[seq[i]];
		const As oas = AS[o.as];
		struct pt_asid u = uasid(oas);
		const struct pt_asid *up = (o.as == ANY && (i & 1)) ? NULL : &u;
		int rc = 0, exp = 0;
		count("operations");
		switch (o.k) {
		case ADD:
			rc = pt_image_add_file(im, F[o.f].c_str(), FO + o.off, o.n, up, B + o.at);
			m.add(o.at, std::min(o.n, (int64_t)FSZ[o.f] - o.off), oas, o.f, o.off, 0);
			break;
		case CACHED:
			rc = pt_image_add_cached(im, isc, isid[o.f], up);
			m.add(ISC[o.f].at, ISC[o.f].n, oas, ISC[o.f].f, ISC[o.f].off, isid[o.f]);
			break;
		case RMF:
			rc = pt_image_remove_by_filename(im, F[o.f].c_str(), up) > 0;
			exp = m.remove(o.f, oas);
			break;
		case RMA:
			rc = pt_image_remove_by_asid(im, up) > 0;
			exp = m.remove(-1, oas);
			break;
		case COPYNEW: {
			struct pt_image *n = pt_image_alloc(NULL);
			rc = pt_image_copy(n, im);
			Model d;
			m.copy_to(d);
			m = d;
			pt_image_free(im);
			im = n;
			break;
		}
		case COPYSELF:
			rc = pt_image_copy(im, im);
			break;
		case COPYONTO: {
			struct pt_image *n = pt_image_alloc("onto");
			Model d;
			rc = pt_image_add_file(n, F[o.f].c_str(), FO + o.off, o.n, NULL, B + o.at);
			d.add(o.at, o.n, AS[ANY], o.f, o.off, 0);
			if (!rc)
				rc = pt_image_copy(n, im);
			m.copy_to(d);
			m = d;
			pt_image_free(im);
			im = n;
			break;
		}
		case CB:
			rc = pt_image_set_callback(im, o.f ? callback : NULL, (void *)0x77);
			m.cb = o.f;
			break;
		case READ: {
			uint8_t buf[16];
			int id = -7;
			int r = rd(im, &id, buf, 4, oas, o.at);
			if (!want(m, oas, o.at, buf, 4, r, id))
				viol("read", fmt("in: %s\nread %d: %s", show(seq).c_str(), (int)i, ename(r)));
			break;
		}
		case BADFILE:
			rc = pt_image_add_file(im, F[2].c_str(), 0, o.n, up, B + o.at);
			exp = -pte_bad_file;
			break;
		case BADOFF:
			rc = pt_image_add_file(im, F[0].c_str(), FO + o.off, o.n, up, B + o.at);
			exp = -pte_invalid;
			break;
		case BIG:
			rc = pt_image_add_file(im, F[o.f].c_str(), 0, ~0ull >> 1, up, B + o.at - FO);
			m.add(o.at - (int64_t)FO, FO + FSZ[o.f], oas, o.f, -(int64_t)FO, 0);
			break;
		case BADISID: {
			exp = -pte_bad_image;
			for (int b : {0, -1, 4, 0x7fff, 0xffff, -0x7fffffff - 1})
				if (pt_image_add_cached(im, isc, b, up) != exp)
					rc = b ? b : 1;
			if (!rc)
				rc = exp;
			break;
		}
		}
		if (rc != exp)
			viol(fmt("op:%d", o.k), fmt("history: %s\noperation %d returned %s, expected %s", show(seq).c_str(), (int)i,
				ename(rc), ename(exp)));
		if (strcmp(pt_image_name(im) ? pt_image_name(im) : "-", "x") == 0)
			break;
	}
	observe(im, m, seq);
	if (deep)
		observe_decoder(im, m, seq);
	/* once more: looking things up may not change the answers */
	if (deep)
		observe(im, m, seq);
	pt_image_free(im);
	if (env::st.blocks != b0 || env::st.maps != m0 || env::st.fds != f0)
		viol("leak", fmt("history: %s\nafter freeing the image: %s, before: blocks=%ld maps=%ld fds=%ld", show(seq).c_str(),
			env::outstanding().c_str(), b0, m0, f0));
	count("histories");
	if (want_sample())
		sample(show(seq));
}

int main(int argc, char **argv)
{
	init(argc, argv);
	uint64_t idx = 0;
	for (int l = 0; l < 3; l++) {
		layout(l);
		/* One name is the beginning of the other. */
		for (int f = 0; f < 3; f++) {
			F[f] = opt.scratch + fmt("/l%d", l) + std::string(f, 'x');
			if (f == 2)
				break;
			FILE *o = fopen(F[f].c_str(), "wb");
			fseeko(o, FO, SEEK_SET);
			for (int i = 0; i < FSZ[f]; i++)
				fputc(fbyte(f, i), o);
			fclose(o);
		}
		isc = pt_iscache_alloc("isc");
		pt_iscache_set_limit(isc, 4096 * 2);
		for (int i = 0; i < 3; i++) {
			isid[i] = pt_iscache_add_file(isc, F[ISC[i].f].c_str(), FO + ISC[i].off, ISC[i].n, B + ISC[i].at);
			if (isid[i] != i + 1)
				viol("iscache", fmt("isid %d: %d", i, isid[i]));
		}
		/* keep the cached sections mapped, so that the baseline does not move */
		for (int i = 0; i < 3; i++) {
			uint8_t b[4];
			pt_iscache_read(isc, b, 1, isid[i], B + ISC[i].at);
		}
		pt_iscache_set_limit(isc, 0);
		auto all = [&](int nops, int depth, int from, bool deep) {
			for (int len = from; len <= depth; len++) {
				std::vector<int> s(len, 0);
				for (;;) {
					if (mine(idx++) && !late()) {
						cur("image history: " + show(s));
						run(s, deep);
					}
					int j = 0;
					while (j < len && ++s[j] == nops)
						s[j++] = 0;
					if (j == len)
						break;
				}
			}
		};
		all(NOPS + (l == 1 ? 2 : 0), 3, 1, true);
		all(CORE, opt.thorough ? 6 : 4, 4, true);
		if (opt.thorough)
			all(NOPS, 4, 4, false);
	}
	maxi("depth_full_alphabet", opt.thorough ? 4 : 3);
	maxi("depth_core_alphabet", opt.thorough ? 6 : 4);
	counters["states"] = distincts.size();
	return finish();
}
