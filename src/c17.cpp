// C17: threads that share a section cache get the results they would get alone.
//
// The threads are fibers under a controlled scheduler: ld --wrap replaces the mutex functions, and the accesses to
// block cache entries are scheduling points, too.  All schedules with at most a given number of preemptions are
// explored by depth-first search with replay.  In the "race" part the library is built with the thread sanitizer,
// which sees the happens-before relation of the modelled mutexes but not the scheduler's switches.
#include "env.hpp"
#include <threads.h>
#include <ucontext.h>
#include <functional>
using vf::fmt;
typedef uint64_t u64;

#if defined(RACE)
extern "C" {
void *__tsan_get_current_fiber(void);
void *__tsan_create_fiber(unsigned flags);
void __tsan_switch_to_fiber(void *fiber, unsigned flags);
void __tsan_acquire(void *addr);
void __tsan_release(void *addr);
void AnnotateIgnoreReadsBegin(const char *, int);
void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int);
void AnnotateIgnoreWritesEnd(const char *, int);
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count,
			   int *loc_count, int *mutex_count, int *thread_count, int *unique_tid_count,
			   void **sleep_trace, unsigned long trace_size);
}
/* What the harness itself does is not to be reported. */
struct Quiet {
	Quiet() { AnnotateIgnoreReadsBegin("", 0), AnnotateIgnoreWritesBegin("", 0); }
	~Quiet() { AnnotateIgnoreReadsEnd("", 0), AnnotateIgnoreWritesEnd("", 0); }
};
#else
struct Quiet {
	Quiet() {}
};
static void *__tsan_get_current_fiber(void) { return 0; }
static void *__tsan_create_fiber(unsigned) { return 0; }
static void __tsan_switch_to_fiber(void *, unsigned) {}
static void __tsan_acquire(void *) {}
static void __tsan_release(void *) {}
#endif

/* ---------------------------------------------------------------- the scheduler */

static const int MAXT = 3;
struct Fiber {
	ucontext_t ctx;
	void *tsan = 0;
	char *stack = 0;
	enum { IDLE, READY, BLOCKED, DONE } state = IDLE;
	const void *wait = 0;
	std::function<void()> fn;
	char endmark;
};
static Fiber *fib[MAXT];
static int nth, cur = -1; /* -1: the main fiber */
static ucontext_t mainctx;
static void *maintsan;
static char startmark;

static std::vector<int> prefix;          /* decisions to replay */
static std::vector<std::pair<int, int>> taken; /* (decision, alternatives) */
static std::vector<int> sched;           /* the fiber after each decision, for reports */
static int bound, preemptions;
static bool unlockpoints;                /* also preempt after unlocking */
static std::string problem, pkey;
static u64 transitions, switches;

static void bad(const std::string &key, const std::string &why)
{
	if (problem.empty())
		pkey = key, problem = why;
}
static void go(int to)
{
	int from = cur;
	if (from == to)
		return;
	switches++;
	cur = to;
	ucontext_t *f = from < 0 ? &mainctx : &fib[from]->ctx, *t = to < 0 ? &mainctx : &fib[to]->ctx;
	__tsan_switch_to_fiber(to < 0 ? maintsan : fib[to]->tsan, 1 /* no synchronization */);
	swapcontext(f, t);
}
/* Decide who runs next. */
static void schedule()
{
	Quiet q;
	int c[MAXT], n = 0;
	bool mine = cur >= 0 && fib[cur]->state == Fiber::READY;
	if (mine)
		c[n++] = cur;
	if (!mine || preemptions < bound)
		for (int i = 0; i < nth; i++)
			if (i != cur && fib[i]->state == Fiber::READY)
				c[n++] = i;
	transitions++;
	if (!n) {
		for (int i = 0; i < nth; i++)
			if (fib[i]->state != Fiber::DONE)
				bad("deadlock", fmt("thread %d waits for a lock forever", i));
		go(-1);
		return;
	}
	int d = 0;
	if (n > 1) {
		size_t k = taken.size();
		if (k < prefix.size())
			d = prefix[k];
		if (d >= n) {
			vf::errors.push_back("the replay of a schedule diverged");
			d = 0;
		}
		taken.push_back({d, n});
		sched.push_back(c[d]);
		if (mine && d)
			preemptions++;
	}
	go(c[d]);
}
static void point()
{
	if (cur >= 0)
		schedule();
}
static void body()
{
	for (;;) {
		Fiber *f = fib[cur];
		__tsan_acquire(&startmark);
		f->fn();
		__tsan_release(&f->endmark);
		f->state = Fiber::DONE;
		schedule();
	}
}
static void newfiber(int i)
{
	/* after a deadlock, the old one is abandoned */
	Fiber *f = fib[i] = new Fiber;
	const size_t sz = 256 << 10;
	f->stack = (char *)__real_mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	f->tsan = __tsan_create_fiber(0);
	getcontext(&f->ctx);
	f->ctx.uc_stack.ss_sp = f->stack;
	f->ctx.uc_stack.ss_size = sz;
	f->ctx.uc_link = 0;
	makecontext(&f->ctx, body, 0);
}

/* ---------------------------------------------------------------- mutexes and block cache entries */

struct Mtx {
	const void *a;
	int owner; /* -2: free */
};
static Mtx mtxs[256];
static int nmtx;
static Mtx *mfind(const void *a)
{
	for (int i = nmtx; i--;)
		if (mtxs[i].a == a)
			return &mtxs[i];
	return 0;
}
extern "C" {
int __wrap_mtx_init(mtx_t *m, int)
{
	memset((void *)m, 0, sizeof(*m));
	if (env::fail("mtx_init"))
		return thrd_error;
	if (mfind(m) || nmtx >= 256)
		bad("mutex", "a mutex is initialized twice");
	else
		mtxs[nmtx++] = {m, -2};
	return thrd_success;
}
void __wrap_mtx_destroy(mtx_t *m)
{
	Mtx *x = mfind(m);
	if (!x)
		bad("mutex", "destroys a mutex that is not initialized");
	else {
		if (x->owner != -2)
			bad("mutex", "destroys a locked mutex");
		*x = mtxs[--nmtx];
	}
}
int __wrap_mtx_lock(mtx_t *m)
{
	point();
	for (;;) {
		Mtx *x = mfind(m);
		if (!x) {
			bad("mutex", "locks a mutex that is not initialized");
			return thrd_error;
		}
		if (x->owner == -2) {
			x->owner = cur;
			break;
		}
		if (cur < 0) {
			bad("deadlock", "a lock is not released");
			return thrd_error;
		}
		fib[cur]->state = Fiber::BLOCKED;
		fib[cur]->wait = m;
		schedule();
	}
	__tsan_acquire(m);
	return thrd_success;
}
int __wrap_mtx_trylock(mtx_t *m)
{
	point();
	Mtx *x = mfind(m);
	if (!x || x->owner != -2)
		return thrd_busy;
	x->owner = cur;
	__tsan_acquire(m);
	return thrd_success;
}
int __wrap_mtx_unlock(mtx_t *m)
{
	Mtx *x = mfind(m);
	if (!x || x->owner != cur) {
		bad("mutex", "unlocks a mutex it does not hold");
		return thrd_error;
	}
	__tsan_release(m);
	x->owner = -2;
	for (int i = 0; i < nth; i++)
		if (fib[i] && fib[i]->state == Fiber::BLOCKED && fib[i]->wait == m)
			fib[i]->state = Fiber::READY;
	if (unlockpoints)
		point();
	return thrd_success;
}

struct pt_block_cache;
struct bce {
	u64 v;
};
__attribute__((weak)) int __real_pt_bcache_add(struct pt_block_cache *, u64, struct bce);
__attribute__((weak)) int __real_pt_bcache_lookup(struct bce *, struct pt_block_cache *, u64);
__attribute__((weak)) struct pt_block_cache *__real_pt_bcache_alloc(u64);
__attribute__((weak)) void __real_pt_bcache_free(struct pt_block_cache *);
static long nbcache; /* bytes of block caches in memory */
static std::map<void *, long> bcsize;
#if !defined(RACE)
int __wrap_pt_bcache_add(struct pt_block_cache *c, u64 i, struct bce e)
{
	point();
	return __real_pt_bcache_add(c, i, e);
}
int __wrap_pt_bcache_lookup(struct bce *e, struct pt_block_cache *c, u64 i)
{
	point();
	return __real_pt_bcache_lookup(e, c, i);
}
#else
/* All atomic operations of the library. */
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
#define ATOMICS(T, n) \
	T __real___tsan_atomic##n##_load(const volatile T *, int); \
	void __real___tsan_atomic##n##_store(volatile T *, T, int); \
	T __real___tsan_atomic##n##_exchange(volatile T *, T, int); \
	T __real___tsan_atomic##n##_fetch_add(volatile T *, T, int); \
	T __real___tsan_atomic##n##_fetch_sub(volatile T *, T, int); \
	int __real___tsan_atomic##n##_compare_exchange_strong(volatile T *, T *, T, int, int); \
	T __wrap___tsan_atomic##n##_load(const volatile T *a, int m) \
	{ point(); return __real___tsan_atomic##n##_load(a, m); } \
	void __wrap___tsan_atomic##n##_store(volatile T *a, T v, int m) \
	{ point(); __real___tsan_atomic##n##_store(a, v, m); } \
	T __wrap___tsan_atomic##n##_exchange(volatile T *a, T v, int m) \
	{ point(); return __real___tsan_atomic##n##_exchange(a, v, m); } \
	T __wrap___tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) \
	{ point(); return __real___tsan_atomic##n##_fetch_add(a, v, m); } \
	T __wrap___tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) \
	{ point(); return __real___tsan_atomic##n##_fetch_sub(a, v, m); } \
	int __wrap___tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) \
	{ point(); return __real___tsan_atomic##n##_compare_exchange_strong(a, e, v, m, f); }
ATOMICS(a8, 8)
ATOMICS(a16, 16)
ATOMICS(a32, 32)
ATOMICS(a64, 64)
#endif
struct pt_block_cache *__wrap_pt_bcache_alloc(u64 n)
{
	struct pt_block_cache *c = __real_pt_bcache_alloc(n);
	Quiet q;
	if (c)
		nbcache += bcsize[c] = (long)env::st.last;
	return c;
}
void __wrap_pt_bcache_free(struct pt_block_cache *c)
{
	{
		Quiet q;
		if (c)
			nbcache -= bcsize[c];
	}
	__real_pt_bcache_free(c);
}
#if defined(RACE)
void __tsan_on_report(void *r)
{
	const char *d = 0;
	int n[8];
	void *st = 0;
	__tsan_get_report_data(r, &d, &n[0], &n[1], &n[2], &n[3], &n[4], &n[5], &n[6], &st, 0);
	bad("race", fmt("the thread sanitizer reports: %s", d ? d : "?"));
}
#endif
}

/* ---------------------------------------------------------------- the world */

static const int SZ = 64; /* bytes in each of the sections */
static std::string fa, fb, fc;
static uint8_t ca[SZ], cb[SZ], cc[SZ];
static struct pt_image_section_cache *isc;
static struct pt_image *master[MAXT];
static std::vector<uint8_t> trace;

static void prepare()
{
	memset(ca, 0x90, SZ);
	memset(cb, 0x90, SZ);
	for (int i = 0; i < SZ; i++)
		cc[i] = (uint8_t)(i * 7 + 1);
	auto put = [](uint8_t *p, std::initializer_list<int> l) {
		for (int b : l)
			*p++ = (uint8_t)b;
	};
	put(ca, {0x90, 0x74, 0x01, 0x90, 0xe8, 0xf7, 0x0f, 0x00, 0x00, 0x75, 0xf5, 0xff, 0xe0}); /* call 0x2000 */
	put(cb, {0x90, 0x74, 0x01, 0x90, 0xc3});
	auto wr = [](const char *n, const uint8_t *b) {
		std::string f = vf::opt.scratch + "/" + n;
		FILE *p = fopen(f.c_str(), "wb");
		if (!p || fwrite(b, 1, SZ, p) != (size_t)SZ || fclose(p))
			exit(3);
		return f;
	};
	fa = wr("a", ca), fb = wr("b", cb), fc = wr("c", cc);
	for (int b : {0x02, 0x82, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82, 0x02, 0x82,
		      0x99, 0x01, 0x02, 0x23, 0x71, 0x00, 0x10, 0, 0, 0, 0, /* TIP.PGE 0x1000 */
		      0x3e, /* je T, je T, ret (compressed), jne T: 1 1 1 1 */
		      0x0e, /* je T, je T */
		      0x2d, 0x09, 0x10, /* ret */
		      0x04, /* jne N */
		      0x01}) /* TIP.PGD */
		trace.push_back((uint8_t)b);
}
static std::string insns(struct pt_image *im)
{
	struct pt_config c;
	pt_config_init(&c);
	c.begin = trace.data();
	c.end = trace.data() + trace.size();
	struct pt_insn_decoder *d = pt_insn_alloc_decoder(&c);
	if (!d)
		return "no decoder";
	pt_insn_set_image(d, im);
	std::string s;
	int st = pt_insn_sync_forward(d);
	for (int n = 0; n < 100 && st >= 0; n++) {
		if (st & pts_event_pending) {
			struct pt_event e;
			st = pt_insn_event(d, &e, sizeof(e));
			s += fmt("e%d ", st < 0 ? 0 : (int)e.type);
			continue;
		}
		struct pt_insn i;
		memset(&i, 0, sizeof(i));
		st = pt_insn_next(d, &i, sizeof(i));
		if (i.size)
			s += fmt("%llx/%d/%d/%d ", (unsigned long long)i.ip, i.size, i.isid, i.iclass);
	}
	s += vf::ename(st);
	pt_insn_free_decoder(d);
	return s;
}
static std::string blocks(struct pt_image *im, int fl)
{
	struct pt_config c;
	pt_config_init(&c);
	c.begin = trace.data();
	c.end = trace.data() + trace.size();
	c.flags.variant.block.end_on_call = fl & 1;
	struct pt_block_decoder *d = pt_blk_alloc_decoder(&c);
	if (!d)
		return "no decoder";
	pt_blk_set_image(d, im);
	std::string s;
	int st = pt_blk_sync_forward(d);
	for (int n = 0; n < 100 && st >= 0; n++) {
		if (st & pts_event_pending) {
			struct pt_event e;
			st = pt_blk_event(d, &e, sizeof(e));
			s += fmt("e%d ", st < 0 ? 0 : (int)e.type);
			continue;
		}
		struct pt_block b;
		memset(&b, 0, sizeof(b));
		st = pt_blk_next(d, &b, sizeof(b));
		/* how the flow is cut into blocks, and the class, may depend on the block cache */
		u64 ip = b.ip;
		for (int k = 0; k < b.ninsn; k++) {
			s += fmt("%llx/%d ", (unsigned long long)ip, b.isid);
			if (k + 1 == b.ninsn && ip != b.end_ip)
				s += fmt("(%llx) ", (unsigned long long)b.end_ip);
			const uint8_t *p = ip - 0x1000 < SZ ? &ca[ip - 0x1000] : ip - 0x2000 < SZ ? &cb[ip - 0x2000] : 0;
			if (!p)
				break;
			ip += *p == 0x74 || *p == 0x75 ? 2 : *p == 0xe8 ? 0x1000 - 4 : 1;
		}
	}
	s += vf::ename(st);
	pt_blk_free_decoder(d);
	return s;
}
static std::string rd(int isid, u64 a, const uint8_t *want)
{
	uint8_t b[SZ];
	int n = pt_iscache_read(isc, b, SZ, isid, a);
	if (n != SZ)
		return fmt("read %d: %s", isid, vf::ename(n));
	return memcmp(b, want, SZ) ? "wrong bytes" : "ok";
}

/* The first three identifiers are there from the start; other ones must name one section each. */
static std::map<std::string, int> newid;
static std::string added(const char *what, int id)
{
	Quiet q;
	if (id <= 3)
		return id < 0 ? fmt("error %s", vf::ename(id)) : fmt("identifier %d", id);
	auto it = newid.find(what);
	if (it != newid.end() && it->second != id)
		return fmt("identifiers %d and %d", it->second, id);
	for (auto &p : newid)
		if (p.second == id && p.first != what)
			return "identifier of " + p.first;
	newid[what] = id;
	return "ok";
}
static std::string cached(std::function<std::string(struct pt_image *)> f)
{
	struct pt_image *im = pt_image_alloc(0);
	int a = pt_image_add_cached(im, isc, 1, 0), b = pt_image_add_cached(im, isc, 2, 0);
	std::string s = a < 0 || b < 0 ? fmt("add_cached: %s %s", vf::ename(a), vf::ename(b)) : f(im);
	pt_image_free(im);
	return s;
}

struct Op {
	const char *name;
	std::function<std::string(int)> f;
	long limit; /* the limit set, or -1 */
};
static std::vector<Op> ops;
static int oid(const char *n)
{
	for (size_t i = 0; i < ops.size(); i++)
		if (!strcmp(ops[i].name, n))
			return (int)i;
	exit(3);
}
static void operations()
{
	ops = {
		{"add-same", [](int) { return fmt("%d", pt_iscache_add_file(isc, fa.c_str(), 0, SZ, 0x1000)); }, -1},
		{"add-truncated", [](int) { return fmt("%d", pt_iscache_add_file(isc, fa.c_str(), 0, 9999, 0x1000)); }, -1},
		{"add-new", [](int) { return added("new", pt_iscache_add_file(isc, fc.c_str(), 0, SZ, 0x7000)); }, -1},
		{"add-new-truncated", [](int) {
			 return added("new", pt_iscache_add_file(isc, fc.c_str(), 0, 1000, 0x7000)); }, -1},
		{"add-elsewhere", [](int) {
			 return added("elsewhere", pt_iscache_add_file(isc, fa.c_str(), 0, SZ, 0x9000)); }, -1},
		{"add-and-read", [](int) {
			 int id = pt_iscache_add_file(isc, fc.c_str(), 0, SZ, 0x7000);
			 std::string s = added("new", id);
			 return s == "ok" ? rd(id, 0x7000, cc) : s; }, -1},
		{"add-private", [](int t) {
			 int id = pt_iscache_add_file(isc, fc.c_str(), 0, SZ, 0x10000u * (unsigned)(t + 1));
			 std::string s = added(t == 0 ? "p0" : t == 1 ? "p1" : "p2", id);
			 return s == "ok" ? rd(id, 0x10000u * (unsigned)(t + 1), cc) : s; }, -1},
		{"read", [](int) { return rd(1, 0x1000, ca); }, -1},
		{"read-other", [](int) { return rd(2, 0x2000, cb); }, -1},
		{"limit-0", [](int) { return fmt("%d", pt_iscache_set_limit(isc, 0)); }, 0},
		{"limit-1", [](int) { return fmt("%d", pt_iscache_set_limit(isc, SZ)); }, SZ},
		{"limit-2", [](int) { return fmt("%d", pt_iscache_set_limit(isc, 2 * SZ + 700)); }, 2 * SZ + 700},
		{"insn", [](int) { return cached(insns); }, -1},
		{"blk", [](int) { return cached([](struct pt_image *i) { return blocks(i, 0); }); }, -1},
		{"blk-calls", [](int) { return cached([](struct pt_image *i) { return blocks(i, 1); }); }, -1},
		{"copy", [](int) {
			 struct pt_image *im = pt_image_alloc(0), *im2 = pt_image_alloc(0);
			 pt_image_add_cached(im, isc, 1, 0);
			 int n = pt_image_copy(im2, im);
			 pt_image_free(im);
			 n = n ? n : pt_image_remove_by_filename(im2, fa.c_str(), 0);
			 pt_image_free(im2);
			 return fmt("%d", n); }, -1},
		{"master", [](int t) { return insns(master[t]); }, -1},
		{"master-blk", [](int t) { return blocks(master[t], 0); }, -1},
	};
}

typedef std::vector<std::vector<int>> Prog; /* the operations of each thread */
static std::vector<std::vector<std::string>> result;
static u64 startlimit;

static std::string progname(const Prog &p)
{
	std::string s;
	for (auto &t : p) {
		s += s.empty() ? "" : " || ";
		for (size_t i = 0; i < t.size(); i++)
			s += std::string(i ? "; " : "") + ops[(size_t)t[i]].name;
	}
	return s;
}
static bool masters;
static void setup()
{
	newid.clear();
	isc = pt_iscache_alloc(0);
	pt_iscache_set_limit(isc, startlimit);
	if (pt_iscache_add_file(isc, fa.c_str(), 0, SZ, 0x1000) != 1 ||
	    pt_iscache_add_file(isc, fb.c_str(), 0, SZ, 0x2000) != 2 ||
	    pt_iscache_add_file(isc, fa.c_str(), 0, SZ, 0x3000) != 3)
		vf::errors.push_back("setting up the cache failed");
	if (masters) {
		struct pt_image *m = pt_image_alloc(0);
		pt_image_add_file(m, fa.c_str(), 0, SZ, 0, 0x1000);
		pt_image_add_file(m, fb.c_str(), 0, SZ, 0, 0x2000);
		for (int i = 0; i < MAXT; i++) {
			master[i] = pt_image_alloc(0);
			pt_image_copy(master[i], m);
		}
		pt_image_free(m);
	}
}
static long memory() { return env::st.mapbytes + nbcache; }
static void teardown(const Prog &p)
{
	/* All images are gone: what is left in memory is what the cache keeps. */
	if (masters)
		for (int i = 0; i < MAXT; i++)
			pt_image_free(master[i]);
	u64 limit = 0;
	bool set = false;
	for (auto &t : p)
		for (size_t i = t.size(); i--;)
			if (ops[(size_t)t[i]].limit >= 0) {
				limit = std::max(limit, (u64)ops[(size_t)t[i]].limit);
				set = true;
				break; /* the last one of this thread, or one of another thread */
			}
	if (!set)
		limit = startlimit;
	if ((u64)memory() > limit)
		bad("limit", fmt("%ld bytes in memory with a limit of %llu", memory(), (unsigned long long)limit));
	int rc = pt_iscache_set_limit(isc, (u64)memory());
	if (rc < 0)
		bad("account", fmt("setting the limit to the %ld bytes in memory: %s", memory(), vf::ename(rc)));
	rc = pt_iscache_set_limit(isc, 0);
	if (rc < 0 || memory())
		bad("account", fmt("setting the limit to zero: %s, %ld bytes are left", vf::ename(rc), memory()));
	pt_iscache_free(isc);
	if (env::st.blocks || env::st.maps || env::st.fds || nbcache)
		bad("leak", "left behind: " + env::outstanding());
	if (nmtx)
		bad("leak", fmt("%d mutexes are not destroyed", nmtx));
	env::st.blocks = env::st.maps = env::st.mapbytes = env::st.fds = nbcache = 0;
	nmtx = 0;
}

/* What an operation answers alone. */
static std::vector<std::string> alone;
static void solo()
{
	masters = true;
	for (size_t i = 0; i < ops.size(); i++) {
		setup();
		alone.push_back(ops[i].f(0));
		teardown({{(int)i}});
		if (problem.size()) {
			vf::viol("alone-" + pkey, std::string(ops[i].name) + ": " + problem);
			problem = "";
		}
	}
}

static void once(const Prog &p)
{
	taken.clear();
	sched.clear();
	preemptions = 0;
	nth = (int)p.size();
	setup();
	result.assign(p.size(), {});
	for (int t = 0; t < nth; t++) {
		if (!fib[t])
			newfiber(t);
		fib[t]->state = Fiber::READY;
		fib[t]->fn = [t, &p]() {
			for (int o : p[(size_t)t])
				result[(size_t)t].push_back(ops[(size_t)o].f(t));
		};
	}
	__tsan_release(&startmark);
	schedule();
	bool dead = false;
	for (int t = 0; t < nth; t++) {
		if (fib[t]->state != Fiber::DONE) {
			fib[t] = 0;
			dead = true;
		} else
			__tsan_acquire(&fib[t]->endmark);
	}
	if (dead) {
		env::st.blocks = env::st.maps = env::st.mapbytes = env::st.fds = nbcache = 0;
		nmtx = 0;
	} else {
		for (int t = 0; t < nth; t++)
			for (size_t i = 0; i < p[(size_t)t].size(); i++) {
				const std::string &r = result[(size_t)t][i], &w = alone[(size_t)p[(size_t)t][i]];
				if (r != w)
					bad("result", fmt("thread %d, %s: ", t, ops[(size_t)p[(size_t)t][i]].name) + r +
							      "\n  alone: " + w);
			}
		if (problem.empty())
			teardown(p);
		else {
			env::st.blocks = env::st.maps = env::st.mapbytes = env::st.fds = nbcache = 0;
			nmtx = 0;
		}
	}
}
static u64 scenarios, schedules;
static void explore(const Prog &p, int pb, u64 lim, bool nommap)
{
	static u64 unit;
	if (!vf::mine((unit++ * 2654435761u) >> 7) || vf::capped)
		return;
	if (vf::now() - vf::t_start > vf::opt.deadline) {
		vf::capped = true;
		return;
	}
	bound = pb;
	startlimit = lim;
	env::st.nommap = nommap;
	masters = false;
	for (auto &t : p)
		for (int o : t)
			masters |= !strncmp(ops[(size_t)o].name, "master", 6);
	std::string nm = progname(p) + fmt(" (limit %lld%s)", (long long)lim, nommap ? ", no mmap" : "");
	scenarios++;
	prefix.clear();
	u64 n = 0, h = 0;
	for (;;) {
		vf::cur(nm);
		once(p);
		n++;
		schedules++;
		vf::count("evaluations");
		if (!(n & 63) && vf::now() - vf::t_start > vf::opt.deadline)
			vf::capped = true;
		if (problem.size()) {
			std::string s;
			for (int x : sched)
				s += fmt("%d", x);
			vf::viol(pkey, nm + ": " + problem + "\n  schedule (" + fmt("%d preemptions", preemptions) +
					       "): " + s);
			problem = "";
			break;
		}
		h = vf::fnv(taken.data(), taken.size() * sizeof(taken[0]), h);
		/* the next one */
		while (taken.size() && taken.back().first + 1 >= taken.back().second)
			taken.pop_back();
		if (taken.empty() || vf::capped)
			break;
		prefix.clear();
		for (auto &t : taken)
			prefix.push_back(t.first);
		prefix.back()++;
	}
	vf::maxi("schedules_of_one_program", n);
	vf::distinct(vf::fnv(&h, 8, n));
	if (getenv("C17V"))
		fprintf(stderr, "%llu %s\n", (unsigned long long)n, nm.c_str());
}

int main(int argc, char **argv)
{
	vf::init(argc, argv);
	maintsan = __tsan_get_current_fiber();
	prepare();
	env::st.mapbytes = env::st.maps = env::st.blocks = env::st.fds = 0;
	operations();
	for (int m = 0; m < 2; m++) {
		env::st.nommap = m;
		startlimit = ~0ull;
		std::vector<std::string> a = alone;
		alone.clear();
		solo();
		if (m && a != alone)
			vf::viol("alone", "the results differ without mmap");
	}
	for (size_t i = 0; i < alone.size(); i++)
		vf::sample(std::string(ops[i].name) + ": " + alone[i]);
	bool th = vf::opt.thorough;
	const std::string &part = vf::opt.part;
	int N = (int)ops.size();
	const u64 lims[] = {~0ull, SZ + 16, 0};
	unlockpoints = part == "pairs";
	if (part == "pairs" || part == "race") {
		for (int pb = 1; pb <= (th ? 3 : 2); pb++)
			for (u64 l : lims)
				for (int m = 0; m < 2; m++)
					for (int a = 0; a < N; a++)
						for (int b = a; b < N; b++)
							if (th || pb < 2 || (part == "race" ? !m && l == lims[1] :
								  !m || l == ~0ull))
								explore({{a}, {b}}, pb, l, m);
	} else if (part == "sequences") {
		static const char *const A[] = {"add-new", "add-new-truncated", "add-elsewhere", "read", "limit-0",
						"limit-1", "insn", "blk"};
		for (u64 l : lims)
			for (auto a : A)
				for (auto b : A)
					for (auto c : A)
						for (auto d : A)
							explore({{oid(a), oid(b)}, {oid(c), oid(d)}}, th ? 2 : 1, l,
								false);
	} else if (part == "triples") {
		for (u64 l : lims)
			for (int a = 0; a < N; a++)
				for (int b = a; b < N; b++)
					for (int c = b; c < N; c++)
						explore({{a}, {b}, {c}}, th ? 2 : 1, l, false);
	}
	vf::count("states", schedules);
	vf::count("transitions", transitions);
	vf::count("schedules", schedules);
	vf::count("programs", scenarios);
	vf::count("switches", switches);
	vf::count("traces_validated_against_impl", schedules);
	return vf::finish();
}
