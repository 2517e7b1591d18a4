// C18: failing allocations, files and mappings.
//
// Each scenario is a list of API calls.  Every allocation, file and mapping operation made by the library in
// the course of it is a fault point; every single one and every pair of them is made to fail in turn.  A call
// that reports an error is repeated; in the end, all results must be those of the fault-free run, and nothing
// may be left behind.
#include "env.hpp"
#include <threads.h>
#include "env18.hpp"
#include "decs.hpp"
using namespace vf;
typedef std::vector<uint8_t> Bytes;
extern "C" {
int pt_image_read(struct pt_image *, int *, uint8_t *, uint16_t, const struct pt_asid *, uint64_t);
}

static std::string F[4];

struct Ctx {
	struct pt_image *im[3] = {};
	struct pt_image_section_cache *isc = NULL;
	int isid[6] = {};
	struct pt_encoder *enc = NULL;
	struct pt_packet_decoder *pkt = NULL;
	struct pt_event_decoder *evt = NULL;
	struct pt_query_decoder *qry = NULL;
	struct pt_insn_decoder *insn = NULL;
	struct pt_block_decoder *blk = NULL;
	std::string out; /* of the call, if it succeeds */
	bool unchanged = true; /* the call must leave the images alone if it fails */
	~Ctx()
	{
		pt_free_encoder(enc);
		pt_pkt_free_decoder(pkt);
		pt_evt_free_decoder(evt);
		pt_qry_free_decoder(qry);
		pt_insn_free_decoder(insn);
		pt_blk_free_decoder(blk);
		for (auto i : im)
			pt_image_free(i);
		pt_iscache_free(isc);
	}
};
struct Step {
	const char *name;
	std::function<int(Ctx &)> f;
	bool dump; /* may be followed by a look at the images */
};

static Bytes psbp(uint64_t ip)
{
	Bytes t;
	for (int i = 0; i < 8; i++)
		t.insert(t.end(), {0x02, 0x82});
	t.insert(t.end(), {0x99, 0x01, 0x7d});
	for (int i = 0; i < 6; i++)
		t.push_back((uint8_t)(ip >> (8 * i)));
	t.insert(t.end(), {0x02, 0x23});
	return t;
}
static Bytes *trace_;
static struct pt_config cfg()
{
	if (!trace_) {
		trace_ = new Bytes(psbp(0x1000));
		trace_->insert(trace_->end(), {0x06, 0x06, 0x04, 0x2d, 0x00, 0x18, 0x06, 0x06});
	}
	struct pt_config c;
	pt_config_init(&c);
	c.begin = trace_->data();
	c.end = trace_->data() + trace_->size();
	return c;
}

static int alloc_image(Ctx &c, int i, const char *name)
{
	c.im[i] = pt_image_alloc(name);
	if (!c.im[i])
		return -pte_nomem;
	const char *n = pt_image_name(c.im[i]);
	if (!n || strcmp(n, name))
		c.out = fmt("the name is %s", n ? n : "lost");
	return 0;
}
static struct pt_asid as(int i)
{
	struct pt_asid a;
	pt_asid_init(&a);
	if (i)
		a.cr3 = (uint64_t)i << 12;
	return a;
}
static int add(Ctx &c, int i, int f, uint64_t off, uint64_t n, int a, uint64_t at)
{
	struct pt_asid s = as(a);
	return pt_image_add_file(c.im[i], F[f].c_str(), off, n, a ? &s : NULL, at);
}
/* Read @n bytes at @at. */
static int rd(Ctx &c, int i, int a, uint64_t at, uint16_t n)
{
	uint8_t b[256];
	struct pt_asid s = as(a);
	int isid = -7;
	int fired = env::st.fired;
	int k = pt_image_read(c.im[i], &isid, b, n, &s, at);
	if (k < 0 && (k != -pte_nomap || env::st.fired != fired))
		return k;
	c.out += fmt(" %d:", isid) + (k < 0 ? "nomap" : hex(b, (size_t)k));
	return 0;
}
static std::string contents(struct pt_image *im)
{
	std::string r;
	if (!im)
		return "-";
	static const uint64_t at[] = {0x0ff0, 0x1000, 0x17f0, 0x1800, 0x18f8, 0x1920, 0x1930, 0x1a00, 0x2200, 0x2380, 0x2400, 0x5000,
				      0x9000, 0x9100, 0xa380};
	for (int a = 0; a < 3; a++)
		for (uint64_t x : at) {
			uint8_t b[16];
			int isid = 0;
			struct pt_asid s = as(a);
			int k = pt_image_read(im, &isid, b, sizeof(b), &s, x);
			r += k < 0 ? "x" : hex(b, 4) + fmt("/%d/%d", k, isid);
			r += " ";
		}
	return r;
}
template <class D>
static int flow(Ctx &c, D *, int i);
static int insn_flow(Ctx &c, int i, bool again)
{
	int st = pt_insn_set_image(c.insn, c.im[i]);
	if (st < 0)
		return st;
	st = pt_insn_sync_set(c.insn, 0);
	int errs = 0;
	for (int n = 0; n < 200; n++) {
		while (st >= 0 && (st & pts_event_pending)) {
			struct pt_event e;
			st = pt_insn_event(c.insn, &e, sizeof(e));
			if (st >= 0)
				c.out += fmt(" e%d", e.type);
		}
		if (st < 0)
			break;
		struct pt_insn in;
		memset(&in, 0, sizeof(in));
		st = pt_insn_next(c.insn, &in, sizeof(in));
		if (st < 0) {
			if (again && st != -pte_eos && errs++ < 2 && env::st.fired) {
				/* The same call again. */
				st = pt_insn_next(c.insn, &in, sizeof(in));
				if (st < 0)
					break;
			} else
				break;
		}
		c.out += fmt(" %llx/%d", (unsigned long long)in.ip, in.isid);
	}
	if (st == -pte_eos || (st == -pte_nomap && !env::st.fired))
		c.out += fmt(" end %d", st);
	else
		return st < 0 ? st : -pte_internal;
	return 0;
}
static int blk_flow(Ctx &c, int i)
{
	int st = pt_blk_set_image(c.blk, c.im[i]);
	if (st < 0)
		return st;
	st = pt_blk_sync_set(c.blk, 0);
	for (int n = 0; n < 200; n++) {
		while (st >= 0 && (st & pts_event_pending)) {
			struct pt_event e;
			st = pt_blk_event(c.blk, &e, sizeof(e));
			if (st >= 0)
				c.out += fmt(" e%d", e.type);
		}
		if (st < 0)
			break;
		struct pt_block b;
		memset(&b, 0, sizeof(b));
		st = pt_blk_next(c.blk, &b, sizeof(b));
		if (b.ninsn)
			c.out += fmt(" %llx-%llx/%d/%d", (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.ninsn, b.isid);
		if (st < 0)
			break;
	}
	if (st == -pte_eos)
		c.out += fmt(" end %d", st);
	else
		return st < 0 ? st : -pte_internal;
	return 0;
}

static std::vector<std::pair<std::string, std::vector<Step>>> scenarios()
{
	std::vector<std::pair<std::string, std::vector<Step>>> s;
#define S(n, ...) {n, [](Ctx &c) -> int { (void)c; __VA_ARGS__ }, true}
#define SX(n, ...) {n, [](Ctx &c) -> int { (void)c; __VA_ARGS__ }, false}
	s.push_back({"images",
		     {S("alloc image", return alloc_image(c, 0, "first");), S("add F0@1000", return add(c, 0, 0, 0, 5000, 1, 0x1000);),
		      S("read", return rd(c, 0, 1, 0x1ff8, 64);), S("add F1@1800 inside", return add(c, 0, 1, 0, 300, 1, 0x1800);),
		      S("add F0+100@18f8 over both", return add(c, 0, 0, 100, 64, 0, 0x18f8);), S("alloc image 2", return alloc_image(c, 1, "second");),
		      SX("copy", return pt_image_copy(c.im[1], c.im[0]) ? -pte_nomem : 0;),
		      S("add F2@2380 to the copy", return add(c, 1, 2, 16, 4000, 2, 0x2380);),
		      S("read across", return rd(c, 1, 1, 0x1930, 100);),
		      S("remove F1", c.out = fmt("%d", pt_image_remove_by_filename(c.im[1], F[1].c_str(), NULL)); return 0;),
		      S("replace everything", return add(c, 0, 3, 0, 100000, 0, 0x0000);), S("read", return rd(c, 0, 2, 0x1000, 16);),
		      S("remove asid 1", auto a = as(1); c.out = fmt("%d", pt_image_remove_by_asid(c.im[1], &a)); return 0;)}});
	s.push_back({"cache",
		     {S("alloc cache", c.isc = pt_iscache_alloc("cache"); if (!c.isc) return -pte_nomem;
			const char *n = pt_iscache_name(c.isc); if (!n || strcmp(n, "cache")) c.out = "the name is lost"; return 0;),
		      S("add F0@1000", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 5000, 0x1000); if (k < 0) return k; c.isid[0] = k; c.out = fmt("%d", k); return 0;),
		      S("add it again", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 5000, 0x1000); if (k < 0) return k; c.out = fmt("%d", k); return 0;),
		      S("add F0@9000", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 5000, 0x9000); if (k < 0) return k; c.isid[1] = k; c.out = fmt("%d", k); return 0;),
		      S("limit 6000", return pt_iscache_set_limit(c.isc, 6000);),
		      S("read it", uint8_t b[32]; int k = pt_iscache_read(c.isc, b, 32, c.isid[1], 0x9010); if (k < 0) return k; c.out = hex(b, (size_t)k); return 0;),
		      S("add F1@1800", int k = pt_iscache_add_file(c.isc, F[1].c_str(), 0, 300, 0x1800); if (k < 0) return k; c.isid[2] = k; c.out = fmt("%d", k); return 0;),
		      S("add F1+50@9000", int k = pt_iscache_add_file(c.isc, F[1].c_str(), 50, 300, 0x9000); if (k < 0) return k; c.isid[3] = k; c.out = fmt("%d", k); return 0;),
		      S("read F1", uint8_t b[32]; int k = pt_iscache_read(c.isc, b, 32, c.isid[2], 0x1810); if (k < 0) return k; c.out = hex(b, (size_t)k); return 0;),
		      S("alloc image", return alloc_image(c, 0, "first");),
		      S("add cached", return pt_image_add_cached(c.im[0], c.isc, c.isid[0], NULL);),
		      S("add cached", auto a = as(1); return pt_image_add_cached(c.im[0], c.isc, c.isid[2], &a);),
		      S("read", return rd(c, 0, 1, 0x17f0, 64);), S("read", return rd(c, 0, 1, 0x1800, 64);),
		      S("limit 0", return pt_iscache_set_limit(c.isc, 0);),
		      S("read it", uint8_t b[32]; int k = pt_iscache_read(c.isc, b, 32, c.isid[3], 0x9010); if (k < 0) return k; c.out = hex(b, (size_t)k); return 0;),
		      S("limit 100000", return pt_iscache_set_limit(c.isc, 100000);),
		      S("read it", uint8_t b[32]; int k = pt_iscache_read(c.isc, b, 32, c.isid[0], 0x1010); if (k < 0) return k; c.out = hex(b, (size_t)k); return 0;),
		      S("read", return rd(c, 0, 1, 0x1800, 64);)}});
	s.push_back({"many",
		     {S("alloc cache", c.isc = pt_iscache_alloc(NULL); return c.isc ? 0 : -pte_nomem;), S("alloc image", return alloc_image(c, 0, "many");),
		      S("limit 9000", return pt_iscache_set_limit(c.isc, 9000);),
		      S("add F0, too large, @1000", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 100000, 0x1000); if (k < 0) return k; c.isid[0] = k; c.out = fmt("%d", k); return 0;),
		      S("add cached", return pt_image_add_cached(c.im[0], c.isc, c.isid[0], NULL);),
		      S("read", return rd(c, 0, 1, 0x1ff8, 64);),
		      S("add F0, too large, @9000", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 200000, 0x9000); if (k < 0) return k; c.isid[1] = k; c.out = fmt("%d", k); return 0;),
		      S("add F0, too large, @9000 again", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 300000, 0x9000); if (k < 0) return k; c.out = fmt("%d", k); return 0;),
		      S("add 8 more", for (int i = (int)c.isid[5]; i < 8; i++) {
			      int k = pt_iscache_add_file(c.isc, F[i % 4].c_str(), 16 * (uint64_t)i, 200, 0x20000 + 0x1000 * (uint64_t)i);
			      if (k < 0)
				      return k;
			      c.isid[5] = i + 1;
			      c.isid[4] = k;
		      } c.out = fmt("%d", c.isid[4]); return 0;),
		      S("add cached", auto a = as(2); return pt_image_add_cached(c.im[0], c.isc, c.isid[1], &a);),
		      S("add cached", return pt_image_add_cached(c.im[0], c.isc, c.isid[4], NULL);),
		      S("read", return rd(c, 0, 2, 0x9020, 16);), S("read", return rd(c, 0, 2, 0x27000, 16);),
		      S("read it", uint8_t b[32]; int k = pt_iscache_read(c.isc, b, 32, c.isid[4], 0x27010); if (k < 0) return k; c.out = hex(b, (size_t)k); return 0;),
		      S("read F0", uint8_t b[32]; int k = pt_iscache_read(c.isc, b, 32, c.isid[0], 0x2010); if (k < 0) return k; c.out = hex(b, (size_t)k); return 0;),
		      S("add what is not there", int k = pt_image_add_file(c.im[0], (F[0] + "x").c_str(), 0, 16, NULL, 0);
			if (k >= 0) return -pte_internal; k = pt_iscache_add_file(c.isc, F[0].c_str(), 5000, 16, 0);
			if (k >= 0) return -pte_internal; k = pt_image_add_cached(c.im[0], c.isc, 99, NULL);
			if (k >= 0) return -pte_internal; return 0;),
		      S("alloc image 2", return alloc_image(c, 1, "second");), SX("copy", return pt_image_copy(c.im[1], c.im[0]) ? -pte_nomem : 0;),
		      S("read", return rd(c, 1, 2, 0x27000, 16);), S("remove by asid", auto a = as(2); c.out = fmt("%d", pt_image_remove_by_asid(c.im[1], &a)); return 0;)}});
	auto dec = [](bool cached, bool again) {
		std::vector<Step> v = {
			S("alloc encoder", auto f = cfg(); c.enc = pt_alloc_encoder(&f); return c.enc ? 0 : -pte_nomem;),
			S("alloc packet decoder", auto f = cfg(); c.pkt = pt_pkt_alloc_decoder(&f); return c.pkt ? 0 : -pte_nomem;),
			S("alloc event decoder", auto f = cfg(); c.evt = pt_evt_alloc_decoder(&f); return c.evt ? 0 : -pte_nomem;),
			S("alloc query decoder", auto f = cfg(); c.qry = pt_qry_alloc_decoder(&f); return c.qry ? 0 : -pte_nomem;),
			S("alloc insn decoder", auto f = cfg(); c.insn = pt_insn_alloc_decoder(&f); return c.insn ? 0 : -pte_nomem;),
			S("alloc block decoder", auto f = cfg(); c.blk = pt_blk_alloc_decoder(&f); return c.blk ? 0 : -pte_nomem;),
			S("alloc image", return alloc_image(c, 0, "code");)};
		if (cached) {
			std::vector<Step> w = {
				S("alloc cache", c.isc = pt_iscache_alloc(NULL); return c.isc ? 0 : -pte_nomem;),
				S("limit 5500", return pt_iscache_set_limit(c.isc, 5500);),
				S("add F0@1000", int k = pt_iscache_add_file(c.isc, F[0].c_str(), 0, 5000, 0x1000); if (k < 0) return k; c.isid[0] = k; return 0;),
				S("add F1@1800", int k = pt_iscache_add_file(c.isc, F[1].c_str(), 0, 300, 0x1800); if (k < 0) return k; c.isid[2] = k; return 0;),
				S("add cached", return pt_image_add_cached(c.im[0], c.isc, c.isid[0], NULL);),
				S("add cached", return pt_image_add_cached(c.im[0], c.isc, c.isid[2], NULL);)};
			v.insert(v.end(), w.begin(), w.end());
		} else {
			std::vector<Step> w = {S("add F0@1000", return add(c, 0, 0, 0, 5000, 0, 0x1000);),
					       S("add F1@1800", return add(c, 0, 1, 0, 300, 0, 0x1800);)};
			v.insert(v.end(), w.begin(), w.end());
		}
		std::vector<Step> w;
		if (again)
			w = {SX("decode, repeating calls", return insn_flow(c, 0, true);), SX("decode blocks", return blk_flow(c, 0);)};
		else
			w = {SX("decode blocks", return blk_flow(c, 0);), SX("decode", return insn_flow(c, 0, false);), SX("decode blocks", return blk_flow(c, 0);)};
		v.insert(v.end(), w.begin(), w.end());
		return v;
	};
	s.push_back({"decode", dec(false, false)});
	s.push_back({"decode cached", dec(true, false)});
	s.push_back({"decode, repeating", dec(false, true)});
	s.push_back({"decode cached, repeating", dec(true, true)});
	return s;
}

struct Res {
	std::vector<std::string> out;
	long ops = 0;
	bool bad = false;
};
static Res go(const std::string &name, const std::vector<Step> &st, long f1, long f2, long f3, const Res *ref, bool dumps)
{
	Res r;
	long b0 = env::st.blocks, m0 = env::st.maps, d0 = env::st.fds;
	long x0 = env18::mtxs;
	std::string why;
	auto bad = [&](const char *key, std::string t) {
		r.bad = true;
		viol(key, fmt("scenario %s, operation %ld%s fails (%s): %s", name.c_str(), f1, ((f2 >= 0 ? fmt(" and %ld", f2) : "") + (f3 >= 0 ? fmt(" and %ld", f3) : "")).c_str(),
			      env::st.what, t.c_str()));
	};
	env::reset(f1, f2, f3);
	count("evaluations");
	{
		Ctx c;
		for (size_t i = 0; i < st.size() && !r.bad; i++) {
			cur(fmt("scenario %s faults %ld %ld %ld step %s", name.c_str(), f1, f2, f3, st[i].name));
			std::string before;
			int rc = 0;
			for (int tr = 0; tr < 5; tr++) {
				if (dumps && st[i].dump)
					before = contents(c.im[0]) + contents(c.im[1]);
				c.out.clear();
				int fired = env::st.fired;
				{
					env::Arm a;
					rc = st[i].f(c);
				}
				if (rc >= 0)
					break;
				if (env::st.fired == fired) {
					bad("error", fmt("%s: %s without a failing operation (or after it)", st[i].name, pt_errstr(pt_errcode(rc))));
					break;
				}
				if (rc == -pte_internal || !pt_errstr(pt_errcode(rc)))
					bad("code", fmt("%s returns %d (%s)", st[i].name, rc, pt_errstr(pt_errcode(rc)) ?: "?"));
				if (dumps && st[i].dump) {
					std::string after = contents(c.im[0]) + contents(c.im[1]);
					if (after != before)
						bad("changed", fmt("%s fails with %s, but changes the memory\nbefore %s\nafter  %s", st[i].name,
								   pt_errstr(pt_errcode(rc)), before.c_str(), after.c_str()));
				}
			}
			r.out.push_back(rc < 0 ? fmt("error %d", rc) : c.out);
			if (ref && !r.bad && r.out.back() != ref->out[i])
				bad("result", fmt("%s gives '%s'; without the fault '%s'", st[i].name, r.out.back().c_str(), ref->out[i].c_str()));
		}
		r.out.push_back(contents(c.im[0]) + contents(c.im[1]));
		if (ref && !r.bad && r.out.back() != ref->out.back())
			bad("memory", fmt("in the end memory is %s; without the fault %s", r.out.back().c_str(), ref->out.back().c_str()));
		r.ops = env::st.ops;
		if (ref && !r.bad)
			distinct(fnv(env::st.what, strlen(env::st.what), (uint64_t)r.ops * 31 + (uint64_t)f1));
	}
	if (!r.bad && (env::st.blocks != b0 || env::st.maps != m0 || env::st.fds != d0 || env18::mtxs != x0))
		bad("leak", fmt("left behind: %ld allocations, %ld mappings, %ld descriptors, %ld mutexes", env::st.blocks - b0,
				env::st.maps - m0, env::st.fds - d0, env18::mtxs - x0));
	return r;
}

int main(int argc, char **argv)
{
	init(argc, argv);
	for (int f = 0; f < 4; f++) {
		F[f] = opt.scratch + fmt("/f%d", f);
		FILE *o = fopen(F[f].c_str(), "wb");
		for (int i = 0; i < (f == 0 ? 5000 : f == 1 ? 300 : 9000); i++) {
			static const uint8_t code[] = {0x90, 0x75, 0x01, 0x90, 0x74, 0x01, 0x90, 0x75, 0x10, 0xff, 0xe0, 0x90};
			fputc(f < 2 ? code[(size_t)i % sizeof(code)] : 0x90 + f, o);
		}
		fclose(o);
	}
	auto sc = scenarios();
	uint64_t id = 0;
	for (auto &s : sc) {
		Res ref = go(s.first, s.second, -1, -1, -1, NULL, false);
		for (auto &o : ref.out)
			if (o.compare(0, 5, "error") == 0) {
				errors.push_back(fmt("scenario %s: %s", s.first.c_str(), o.c_str()));
				return finish();
			}
		maxi("fault_points", (uint64_t)ref.ops);
		if (want_sample()) {
			std::string t = s.first + ":";
			for (auto &st : s.second)
				t += std::string(" ") + st.name + ";";
			sample(t + fmt(" %ld fault points", ref.ops));
		}
		for (long f1 = 0; f1 < ref.ops; f1++) {
			Res one = go(s.first, s.second, f1, -1, -1, &ref, false);
			if (one.bad)
				continue;
			if (mine(id++))
				go(s.first, s.second, f1, -1, -1, &ref, true);
			count("single_faults");
			for (long f2 = f1 + 1; f2 < one.ops; f2++) {
				if (!mine(id++))
					continue;
				if (late())
					return finish();
				Res two = go(s.first, s.second, f1, f2, -1, &ref, id & 1);
				count("pairs");
				for (long f3 = f2 + 1; f3 < two.ops && !two.bad; f3++) {
					if (!opt.thorough && f3 > f2 + 8)
						break;
					if (late())
						return finish();
					go(s.first, s.second, f1, f2, f3, &ref, false);
					count("triples");
				}
			}
		}
	}
	return finish();
}
