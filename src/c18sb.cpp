// C18, sideband: a failing operation is reported, and nothing leaks.
#include "env18.hpp"
extern "C" {
#include "libipt-sb.h"
int pt_image_read(struct pt_image *, int *, uint8_t *, uint16_t, const struct pt_asid *, uint64_t);
}
using namespace vf;
typedef std::vector<uint8_t> Bytes;
static std::string F[4], P[2];
static void put(Bytes &b, uint64_t v, int n)
{
	for (int i = 0; i < n; i++)
		b.push_back((uint8_t)(v >> (8 * i)));
}
static void rec(Bytes &b, uint32_t type, uint16_t misc, const Bytes &body, const std::string &str, uint32_t pid, uint64_t time)
{
	size_t at = b.size();
	put(b, type, 4), put(b, misc, 2), put(b, 0, 2);
	b.insert(b.end(), body.begin(), body.end());
	if (!str.empty()) {
		b.insert(b.end(), str.begin(), str.end());
		b.push_back(0);
		while (b.size() % 8)
			b.push_back(0);
	}
	put(b, pid, 4), put(b, pid, 4), put(b, time, 8);
	b[at + 6] = (uint8_t)(b.size() - at);
	b[at + 7] = (uint8_t)((b.size() - at) >> 8);
}
static Bytes w(std::initializer_list<uint32_t> l)
{
	Bytes b;
	for (auto v : l)
		put(b, v, 4);
	return b;
}
static Bytes mm(uint32_t pid, uint64_t at, uint64_t n, uint64_t off)
{
	Bytes b = w({pid, pid});
	put(b, at, 8), put(b, n, 8), put(b, off, 8);
	return b;
}
static uint64_t ntimes;
static void mkfiles()
{
	for (int f = 0; f < 4; f++) {
		F[f] = opt.scratch + fmt("/f%d", f);
		FILE *o = fopen(F[f].c_str(), "wb");
		for (int i = 0; i < 1200; i++) {
			static const uint8_t elf[7] = {0x7f, 'E', 'L', 'F', 2, 1, 1};
			fputc(f == 1 && i < 7 ? elf[i] : (i * 7 + f * 31) & 0xff, o);
		}
		fclose(o);
	}
	Bytes p, s;
	uint64_t t = 1;
	auto F24 = [](uint32_t pid, uint32_t ppid) {
		Bytes b = w({pid, ppid, pid, ppid});
		put(b, 0, 8);
		return b;
	};
	rec(p, 12, 0, w({1, 1}), "", 1, t++);				/* START 1 */
	rec(p, 1, 2, mm(1, 0x1000, 0x300, 0), F[1], 1, t++);		/* MMAP */
	rec(s, 1, 2, mm(1, 0x1100, 0x100, 0x80), F[2], 1, t++);	/* MMAP over it */
	rec(p, 1, 2, mm(1, 0x7000, 0x100, 0), "[vdso]", 1, t++);	/* vdso */
	rec(s, 7, 0, F24(2, 1), "", 1, t++);				/* FORK 2 */
	rec(s, 1, 2, mm(2, 0x1180, 0x200, 0x10), F[0], 2, t++);	/* MMAP in the child */
	rec(p, 14, 2, {}, "", 2, t++);					/* SWITCH to 2 */
	rec(p, 3, 0x2002, w({1, 1}), "exec", 1, t++);			/* EXEC 1 */
	rec(s, 1, 2, mm(1, 0x2000, 0x200, 0x10), F[2], 1, t++);	/* MMAP */
	rec(p, 15, 0x2002, w({1, 1}), "", 2, t++);			/* next 1 */
	ntimes = t;
	for (int k = 0; k < 2; k++) {
		P[k] = opt.scratch + fmt("/p%d", k);
		FILE *o = fopen(P[k].c_str(), "wb");
		fwrite(k ? s.data() : p.data(), 1, k ? s.size() : p.size(), o);
		fclose(o);
	}
}
static std::vector<int> notes;
static int on_error(int code, const char *, uint64_t, void *)
{
	notes.push_back(code);
	return 0;
}
static std::string contents(struct pt_image *im)
{
	std::string r;
	struct pt_asid a;
	pt_asid_init(&a);
	for (uint64_t x : {0x1000, 0x1110, 0x1190, 0x1220, 0x1350, 0x2010, 0x7000, 0x9000}) {
		uint8_t b[4];
		int id, k = pt_image_read(im, &id, b, 4, &a, x);
		r += k < 0 ? " x" : " " + hex(b, (size_t)k);
	}
	return r;
}
struct Res {
	std::string out;
	long ops = 0;
	bool bad = false;
};
static Res go(int kind, long f1, long f2, const Res *ref)
{
	Res r;
	long b0 = env::st.blocks, m0 = env::st.maps, d0 = env::st.fds, x0 = env18::mtxs;
	std::string what = fmt("sideband %d, operation %ld%s fails", kind, f1, f2 >= 0 ? fmt(" and %ld", f2).c_str() : "");
	cur(what);
	count("evaluations");
	auto bad = [&](const char *key, const std::string &t) {
		if (!r.bad)
			viol(key, what + fmt(" (%s): ", env::st.what) + t);
		r.bad = true;
	};
	env::reset(f1, f2, -1);
	notes.clear();
	bool lost = false;
	auto call = [&](const char *n, const std::function<int()> &f, bool again) {
		for (int tr = 0; tr < 4 && !r.bad; tr++) {
			int fired = env::st.fired, rc;
			size_t nn = notes.size();
			{
				env::Arm a;
				rc = f();
			}
			if (rc >= 0 && env::st.fired && notes.size() != nn)
				lost = true;
			for (size_t i = nn; i < notes.size(); i++)
				if (notes[i] == -pte_internal || (notes[i] < 0 && !pt_errstr(pt_errcode(notes[i]))))
					bad("code", fmt("%s: error %d is diagnosed", n, notes[i]));
			if (rc >= 0)
				return;
			if (env::st.fired == fired)
				return bad("error", fmt("%s fails with %s without a failing operation (or after it)", n, ename(rc)));
			if (rc == -pte_internal)
				return bad("code", fmt("%s: internal error", n));
			if (!again)
				return bad("error", fmt("%s fails with %s", n, ename(rc)));
		}
	};
	struct pt_image_section_cache *isc = NULL;
	struct pt_sb_session *ss = NULL;
	struct pt_image *own = NULL, *im;
	if (kind) {
		call("pt_iscache_alloc", [&] { return (isc = pt_iscache_alloc(NULL)) ? 0 : -pte_nomem; }, true);
		call("pt_iscache_set_limit", [&] { return pt_iscache_set_limit(isc, 0x400); }, true);
	}
	call("pt_image_alloc", [&] { return (own = pt_image_alloc(NULL)) ? 0 : -pte_nomem; }, true);
	call("pt_sb_alloc", [&] { return (ss = pt_sb_alloc(isc)) ? 0 : -pte_nomem; }, true);
	pt_sb_notify_error(ss, on_error, NULL);
	call("adding the kernel", [&] { return pt_image_add_file(pt_sb_kernel_image(ss), F[3].c_str(), 0, 0x100, NULL, 0x9000); }, true);
	for (int k = 0; k < 2; k++) {
		struct pt_sb_pevent_config c;
		memset(&c, 0, sizeof(c));
		c.size = sizeof(c);
		c.filename = P[k].c_str();
		c.vdso_x64 = F[3].c_str();
		c.sysroot = "";
		c.sample_type = 6;
		c.time_mult = 1;
		c.kernel_start = 1ull << 63;
		c.primary = !k;
		call("pt_sb_alloc_pevent_decoder", [&] { return pt_sb_alloc_pevent_decoder(ss, &c); }, true);
	}
	call("pt_sb_init_decoders", [&] { return pt_sb_init_decoders(ss); }, true);
	im = own;
	for (uint64_t t = 0; t < ntimes + 1; t++) {
		struct pt_event e;
		memset(&e, 0, sizeof(e));
		e.type = ptev_tick;
		e.ip_suppressed = 1;
		e.tsc = t;
		call("pt_sb_event", [&] { return pt_sb_event(ss, &im, &e, sizeof(e), NULL, 0); }, false);
		if (!lost && !r.bad)
			r.out += fmt("%llu:", (unsigned long long)t) + contents(im) + "\n";
	}
	for (uint32_t pid = 1; pid < 4 && !r.bad; pid++) {
		struct pt_sb_context *c = NULL;
		call("pt_sb_get_context_by_pid", [&] { return pt_sb_get_context_by_pid(&c, ss, pid); }, true);
		if (!r.bad)
			r.out += fmt("process %u:", pid) + contents(pt_sb_ctx_image(c)) + "\n";
	}
	r.ops = env::st.ops;
	pt_sb_free(ss);
	pt_image_free(own);
	if (isc)
		pt_iscache_free(isc);
	if (ref && !lost && !r.bad && r.out != ref->out)
		bad("result", "nothing is diagnosed, but the result is\n" + r.out + "instead of\n" + ref->out);
	if (!r.bad && (env::st.blocks != b0 || env::st.maps != m0 || env::st.fds != d0 || env18::mtxs != x0))
		bad("leak", fmt("left behind: %ld allocations, %ld mappings, %ld descriptors, %ld mutexes", env::st.blocks - b0,
				env::st.maps - m0, env::st.fds - d0, env18::mtxs - x0));
	if (ref && !r.bad)
		distinct(fnv(env::st.what, strlen(env::st.what), (uint64_t)r.ops * 31 + (uint64_t)f1));
	return r;
}
int main(int argc, char **argv)
{
	init(argc, argv);
	mkfiles();
	uint64_t id = 0;
	for (int kind = 0; kind < 2; kind++) {
		Res ref = go(kind, -1, -1, NULL);
		if (ref.bad || !notes.empty() || ref.out.find("process 3: x x x x x x x") == std::string::npos) {
			errors.push_back("the fault-free run fails\n" + ref.out);
			return finish();
		}
		sample(ref.out);
		maxi("fault_points", (uint64_t)ref.ops);
		for (long f1 = 0; f1 < ref.ops; f1++) {
			if (!mine(id++))
				continue;
			Res one = go(kind, f1, -1, &ref);
			count("single_faults");
			for (long f2 = f1 + 1; f2 < one.ops && !one.bad; f2++) {
				if (late())
					return finish();
				go(kind, f1, f2, &ref);
				count("pairs");
			}
		}
	}
	return finish();
}
