// C25: the PSB segment finder.  The real ptseg runs in this process on enumerated traces, for every offset, and on
// enumerated command lines.
#include "common.hpp"
using namespace vf;
typedef std::vector<uint8_t> Bytes;
typedef std::vector<std::string> Strs;
extern "C" {
int ptseg_main(int argc, char **argv);
FILE *__real_fopen(const char *, const char *);
}

static std::map<std::string, const Bytes *> mem;
extern "C" FILE *__wrap_fopen(const char *name, const char *mode)
{
	auto it = mem.find(name);
	if (it == mem.end())
		return __real_fopen(name, mode);
	return fmemopen((void *)it->second->data(), it->second->size(), "rb");
}

struct Run {
	int rc = 0;
	std::string out, err;
};
static Run seg(const Strs &args)
{
	Run r;
	char *ob = 0, *eb = 0;
	size_t on = 0, en = 0;
	FILE *so = stdout, *se = stderr;
	Strs a = args;
	std::vector<char *> av;
	a.insert(a.begin(), "ptseg");
	for (auto &s : a)
		av.push_back(&s[0]);
	av.push_back(0);
	stdout = open_memstream(&ob, &on);
	stderr = open_memstream(&eb, &en);
	r.rc = ptseg_main((int)a.size(), av.data());
	fclose(stdout);
	fclose(stderr);
	stdout = so;
	stderr = se;
	r.out.assign(ob, on);
	r.err.assign(eb, en);
	free(ob);
	free(eb);
	return r;
}

/* Sync points: the last 16 bytes of every maximal (02 82)* run of at least 16 bytes. */
static std::vector<uint64_t> points(const Bytes &t)
{
	std::vector<uint64_t> s;
	size_t n = t.size();
	for (size_t i = 0; i + 16 <= n; i++) {
		bool m = true;
		for (int k = 0; k < 16 && m; k++)
			m = t[i + k] == ((k & 1) ? 0x82 : 0x02);
		if (m && !(i + 18 <= n && t[i + 16] == 0x02 && t[i + 17] == 0x82))
			s.push_back(i);
	}
	return s;
}

static void check(const Bytes &t)
{
	auto s = points(t);
	uint64_t n = t.size();
	mem["@pt"] = &t;
	count("traces");
	for (uint64_t o = 0; o <= n + 2; o++) {
		std::string a = fmt(o & 1 ? "@pt:%llu" : "@pt:0x%llx", (unsigned long long)o);
		std::string id = fmt("ptseg %s on %s", a.c_str(), hex(t).c_str());
		cur(id);
		Run r = seg({a});
		count("evaluations");
		if (o > n) {
			if (!r.rc || r.err.empty() || !r.out.empty())
				viol("outside", id + fmt(": status %d, prints \"%s\" and \"%s\"; should fail with a message", r.rc,
							 r.out.c_str(), r.err.c_str()));
			continue;
		}
		/* The segment that contains the offset; the end of the trace belongs to the last one. */
		uint64_t b = 0, e = n;
		for (uint64_t x : s)
			if (x <= o)
				b = x;
			else {
				e = x;
				break;
			}
		unsigned long long gb = 1, ge = 2, go = 3, gs = 4;
		int k = sscanf(r.out.c_str(), " 0x%llx-0x%llx (offset: 0x%llx, size: 0x%llx)", &gb, &ge, &go, &gs);
		distinct(fnv(r.out.data(), r.out.size(), n));
		if (k != 4 || r.rc || !r.err.empty() || gb != b || ge != e || go != o - b || gs != e - b)
			viol("segment", id + fmt(": status %d, \"%s\" \"%s\"; expected 0x%llx-0x%llx (offset: 0x%llx, size: 0x%llx)",
						 r.rc, r.out.c_str(), r.err.c_str(), (unsigned long long)b, (unsigned long long)e,
						 (unsigned long long)(o - b), (unsigned long long)(e - b)));
	}
}

static void segments()
{
	Bytes psb;
	for (int i = 0; i < 8; i++)
		psb.push_back(0x02), psb.push_back(0x82);
	std::vector<Bytes> tok = {psb, {0x02, 0x82}, {0x02}, {0x82}, {0x00}, {0x02, 0x23}, {0x0e}, {0x99, 0x01},
				  {0x6d, 1, 2, 3, 4, 5, 6}, {0xff}, Bytes(psb.begin(), psb.begin() + 14),
				  Bytes(psb.begin() + 1, psb.end()), {0x02, 0xc3, 0x88, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82}};
	int depth = opt.thorough ? 5 : 4;
	std::function<void(const Bytes &, int)> go = [&](const Bytes &t, int d) {
		if (t.size())
			if (mine(fnv(t.data(), t.size()) >> 8))
				check(t);
		if (d == depth)
			return;
		for (auto &x : tok) {
			Bytes u = t;
			u.insert(u.end(), x.begin(), x.end());
			go(u, d + 1);
		}
	};
	go(Bytes(), 0);
}

static void args()
{
	Bytes t;
	for (int i = 0; i < 8; i++)
		t.push_back(0x02), t.push_back(0x82);
	t.push_back(0);
	mem["@pt"] = &t;
	mem["@a:b"] = &t;
	/* what it is: 0 usage error, 1 help or version, 2 a segment */
	struct A {
		const char *s;
		int k;
	} A[] = {{"@pt:0", 2}, {"@pt:17", 2}, {"@pt:18", 0}, {"@pt:0x11", 2}, {"@pt:021", 2}, {"@a:b:3", 2}, {"@pt", 0},
		 {":0", 0}, {"@pt:1x", 0}, {"@pt:08", 0}, {"@pt:0x10000000000000000", 0},
		 {"@pt:0xffffffffffffffff", 0}, {"@pt:0x8000000000000000", 0}, {"@no:0", 0}, {"--help", 1}, {"-h", 1},
		 {"--version", 1}, {"--hel", 0}, {"-x", 0}, {"--", 0}, {"", 0}, {"@pt:99999999999999999999", 0}};
	int n = sizeof(A) / sizeof(*A);
	for (int i = -1; i < n; i++)
		for (int j = -1; j < n; j++) {
			if (i < 0 && j >= 0)
				continue;
			Strs v;
			if (i >= 0)
				v.push_back(A[i].s);
			if (j >= 0)
				v.push_back(A[j].s);
			std::string id = "ptseg";
			for (auto &s : v)
				id += " \"" + s + "\"";
			cur(id);
			Run r = seg(v);
			count("evaluations");
			distinct(fnv(r.out.data(), r.out.size(), fnv(r.err.data(), r.err.size(), r.rc != 0)));
			int k = i < 0 ? 0 : A[i].k;
			if (k == 2 && j >= 0)
				k = 0;
			if (k ? r.rc || r.out.empty() || !r.err.empty() : !r.rc || (r.err.empty() && r.out.empty()))
				viol("args", id + fmt(": status %d, prints \"%s\" and \"%s\"", r.rc, r.out.c_str(), r.err.c_str()));
		}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	if (opt.part == "segments")
		segments();
	else if (!opt.shard)
		args();
	return finish();
}
