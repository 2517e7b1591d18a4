// C20: perf event records are written and read as the format defines them.
#include "common.hpp"
extern "C" {
#include "pevent.h"
}
using namespace vf;
typedef std::vector<uint8_t> Bytes;

/* The format. */
struct Field {
	const char *name;
	int off, width;
	std::function<uint64_t(const struct pev_event &)> get;
};
struct Type {
	uint32_t type;
	const char *name;
	int fixed;
	bool str;
	std::vector<Field> f;
	std::function<void(struct pev_event &, const void *)> set;
	std::function<const void *(const struct pev_event &)> ptr;
};
static std::vector<Type> T;
#define F(r, x, o) {#x, o, (int)sizeof(((struct pev_record_##r *)0)->x), [](const struct pev_event &e) -> uint64_t { return e.record.r->x; }}
#define ACC(r)                                                                                                         \
	[](struct pev_event &e, const void *p) { e.record.r = (const struct pev_record_##r *)p; },                         \
		[](const struct pev_event &e) -> const void * { return e.record.r; }
static void format()
{
	T = {
		{1, "MMAP", 32, true, {F(mmap, pid, 0), F(mmap, tid, 4), F(mmap, addr, 8), F(mmap, len, 16), F(mmap, pgoff, 24)}, ACC(mmap)},
		{2, "LOST", 16, false, {F(lost, id, 0), F(lost, lost, 8)}, ACC(lost)},
		{3, "COMM", 8, true, {F(comm, pid, 0), F(comm, tid, 4)}, ACC(comm)},
		{4, "EXIT", 24, false, {F(exit, pid, 0), F(exit, ppid, 4), F(exit, tid, 8), F(exit, ptid, 12), F(exit, time, 16)}, ACC(exit)},
		{5, "THROTTLE", 24, false, {F(throttle, time, 0), F(throttle, id, 8), F(throttle, stream_id, 16)}, ACC(throttle)},
		{6, "UNTHROTTLE", 24, false, {F(throttle, time, 0), F(throttle, id, 8), F(throttle, stream_id, 16)}, ACC(throttle)},
		{7, "FORK", 24, false, {F(fork, pid, 0), F(fork, ppid, 4), F(fork, tid, 8), F(fork, ptid, 12), F(fork, time, 16)}, ACC(fork)},
		{10, "MMAP2", 64, true,
		 {F(mmap2, pid, 0), F(mmap2, tid, 4), F(mmap2, addr, 8), F(mmap2, len, 16), F(mmap2, pgoff, 24), F(mmap2, maj, 32),
		  F(mmap2, min, 36), F(mmap2, ino, 40), F(mmap2, ino_generation, 48), F(mmap2, prot, 56), F(mmap2, flags, 60)}, ACC(mmap2)},
		{11, "AUX", 24, false, {F(aux, aux_offset, 0), F(aux, aux_size, 8), F(aux, flags, 16)}, ACC(aux)},
		{12, "ITRACE_START", 8, false, {F(itrace_start, pid, 0), F(itrace_start, tid, 4)}, ACC(itrace_start)},
		{13, "LOST_SAMPLES", 8, false, {F(lost_samples, lost, 0)}, ACC(lost_samples)},
		{14, "SWITCH", 0, false, {}, [](struct pev_event &, const void *) {}, [](const struct pev_event &) -> const void * { return NULL; }},
		{15, "SWITCH_CPU_WIDE", 8, false, {F(switch_cpu_wide, next_prev_pid, 0), F(switch_cpu_wide, next_prev_tid, 4)}, ACC(switch_cpu_wide)},
	};
}
/* Sample fields in the order in which they appear. */
static const uint64_t ST[6] = {1ull << 1, 1ull << 2, 1ull << 6, 1ull << 9, 1ull << 7, 1ull << 16};
static const char *SN[6] = {"tid", "time", "id", "stream_id", "cpu", "identifier"};
static uint64_t stype(int subset)
{
	uint64_t t = 0;
	for (int i = 0; i < 6; i++)
		if (subset >> i & 1)
			t |= ST[i];
	return t;
}
static int pad8(size_t n) { return (int)((n + 7) / 8 * 8); }
static void put(Bytes &b, uint64_t v, int n)
{
	for (int i = 0; i < n; i++)
		b.push_back((uint8_t)(v >> (8 * i)));
}
static uint64_t get(const uint8_t *b, int n)
{
	uint64_t v = 0;
	for (int i = 0; i < n; i++)
		v |= (uint64_t)b[i] << (8 * i);
	return v;
}
struct Samp {
	uint32_t pid = 0xa1a2a3a4, tid = 0xb1b2b3b4;
	uint64_t time = 0x1122334455ull, id = 0x1d1d1d1d2d2d2d2dull, stream = 0x5757575758585858ull;
	uint32_t cpu = 0xc1c2c3c4;
	uint64_t ident = 0x1de01de11de21de3ull;
};
/* The record body: distinct non-zero bytes, then the string. */
static Bytes body(const Type &t, size_t slen, int fill)
{
	Bytes b;
	for (int i = 0; i < t.fixed; i++)
		b.push_back((uint8_t)(fill + i * 3) | 1);
	if (t.str) {
		for (size_t i = 0; i < slen; i++)
			b.push_back((uint8_t)('A' + i % 26));
		b.push_back(0);
	}
	return b;
}
static Bytes record(const Type &t, uint16_t misc, const Bytes &bd, int subset, const Samp &s)
{
	Bytes b;
	size_t n = 8 + (size_t)t.fixed + (t.str ? (size_t)pad8(bd.size() - (size_t)t.fixed) : 0);
	for (int i = 0; i < 6; i++)
		if (subset >> i & 1)
			n += 8;
	put(b, t.type, 4);
	put(b, misc, 2);
	put(b, n, 2);
	b.insert(b.end(), bd.begin(), bd.end());
	while (t.str && (b.size() - 8 - (size_t)t.fixed) % 8)
		b.push_back(0);
	if (subset & 1) {
		put(b, s.pid, 4);
		put(b, s.tid, 4);
	}
	if (subset & 2)
		put(b, s.time, 8);
	if (subset & 4)
		put(b, s.id, 8);
	if (subset & 8)
		put(b, s.stream, 8);
	if (subset & 16) {
		put(b, s.cpu, 4);
		put(b, 0, 4);
	}
	if (subset & 32)
		put(b, s.ident, 8);
	return b;
}
/* A heap buffer of exactly the given size. */
struct Heap {
	uint8_t *p;
	size_t n;
	explicit Heap(size_t k, int fill = 0x5c) : p((uint8_t *)malloc(k ? k : 1)), n(k)
	{
		memset(p, fill, k ? k : 1);
		if (!k)
			p += 1; /* nothing may be accessed */
	}
	Heap(const Bytes &b) : Heap(b.size()) { memcpy(p, b.data(), b.size()); }
	~Heap() { free(n ? p : p - 1); }
	Heap(const Heap &) = delete;
};
static struct pev_config config(uint64_t st)
{
	struct pev_config c;
	pev_config_init(&c);
	c.sample_type = st;
	c.time_mult = 3;
	c.time_shift = 1;
	c.time_zero = 0;
	return c;
}
static bool isneg(int r) { return r < 0 && pt_errstr((enum pt_error_code) - r) && strcmp(pt_errstr((enum pt_error_code) - r), "internal error") != 0; }

/* Check what was read from @h at @o against the format. */
static std::string compare(const struct pev_event &e, const Type &t, uint16_t misc, const Bytes &bd, int subset, const Samp &s,
			   const uint8_t *begin, size_t n, uint64_t tsc)
{
	auto in = [&](const void *p, size_t k) { return (const uint8_t *)p >= begin && (const uint8_t *)p + k <= begin + n; };
	if (e.type != t.type || e.misc != misc)
		return fmt("type %u misc %x", e.type, e.misc);
	if (t.fixed || t.str) {
		const void *p = t.ptr(e);
		if (!in(p, bd.size()))
			return "the record is outside of the buffer";
		for (auto &f : t.f) {
			uint64_t v = f.get(e), w = get(bd.data() + f.off, f.width);
			if (v != w)
				return fmt("%s is %llx instead of %llx", f.name, (unsigned long long)v, (unsigned long long)w);
		}
		if (memcmp(p, bd.data(), bd.size()))
			return "the record's bytes differ";
	} else {
		/* No record. */
	}
#define CK(bit, field, val)                                                                                            \
	if (subset & bit) {                                                                                                \
		if (!e.sample.field || !in(e.sample.field, sizeof(*e.sample.field)))                                           \
			return "sample " #field " is missing or outside of the buffer";                                            \
		if (*e.sample.field != val)                                                                                    \
			return fmt("sample " #field " is %llx", (unsigned long long)*e.sample.field);                              \
	} else if (e.sample.field)                                                                                         \
		return "there is a sample " #field;
	CK(1, pid, s.pid)
	CK(1, tid, s.tid)
	CK(2, time, s.time)
	CK(4, id, s.id)
	CK(8, stream_id, s.stream)
	CK(16, cpu, s.cpu)
	CK(32, identifier, s.ident)
	if (subset & 2 && e.sample.tsc != tsc)
		return fmt("tsc is %llx instead of %llx", (unsigned long long)e.sample.tsc, (unsigned long long)tsc);
	return "";
}
static uint64_t tsc_of(uint64_t time, const struct pev_config &c)
{
	if (!time)
		return 0;
	return (uint64_t)(((unsigned __int128)(time - c.time_zero) << c.time_shift) / c.time_mult);
}
static void fill_event(struct pev_event &e, const Type &t, uint16_t misc, const Bytes &bd, int subset, const Samp &s)
{
	pev_event_init(&e);
	e.type = t.type;
	e.misc = misc;
	t.set(e, bd.data());
	if (subset & 1) {
		e.sample.pid = &s.pid;
		e.sample.tid = &s.tid;
	}
	if (subset & 2)
		e.sample.time = &s.time;
	if (subset & 4)
		e.sample.id = &s.id;
	if (subset & 8)
		e.sample.stream_id = &s.stream;
	if (subset & 16)
		e.sample.cpu = &s.cpu;
	if (subset & 32)
		e.sample.identifier = &s.ident;
}
static std::string dsc(const Type &t, size_t slen, int subset)
{
	std::string r = fmt("%s%s", t.name, t.str ? fmt(" string of %zu", slen).c_str() : "");
	for (int i = 0; i < 6; i++)
		if (subset >> i & 1)
			r += std::string(" ") + SN[i];
	return r;
}

static void write1(const Type &t, size_t slen, int subset, int fill, bool allrooms, const struct pev_config &cfg, const char *how)
{
	Samp s;
	s.time += (uint64_t)fill;
	uint16_t misc = (uint16_t)(fill * 0x101);
	Bytes bd = body(t, slen, fill), want = record(t, misc, bd, subset, s);
	struct pev_event e;
	fill_event(e, t, misc, bd, subset, s);
	size_t n = want.size(), res = subset & 16 ? n - 4 - (subset & 32 ? 8 : 0) : ~(size_t)0;
	bool fits16 = n <= 65535;
	for (size_t room = allrooms ? 0 : (n > 2 ? n - 2 : 0); room <= n + 2; room++) {
		count("evaluations");
		count("writes");
		Heap h(room);
		cur(fmt("write %s into %zu bytes (%s)", dsc(t, slen, subset).c_str(), room, how));
		int r = pev_write(&e, h.p, h.p + room, &cfg);
		if (room < n || !fits16) {
			if (!isneg(r))
				viol("write-room", fmt("writing %s (%zu bytes) into %zu bytes gives %d", dsc(t, slen, subset).c_str(), n, room, r));
			continue;
		}
		if (r != (int)n) {
			viol("write", fmt("writing %s into %zu bytes gives %d instead of %zu (%s)", dsc(t, slen, subset).c_str(), room, r, n, how));
			continue;
		}
		Bytes got(h.p, h.p + n);
		for (size_t i = res; i < n && i < res + 4; i++)
			got[i] = 0; /* reserved */
		if (got != want)
			viol("write-bytes", fmt("writing %s gives\n%s instead of\n%s", dsc(t, slen, subset).c_str(), hex(got).substr(0, 2000).c_str(),
						hex(want).substr(0, 2000).c_str()));
		for (size_t i = n; i < room; i++)
			if (h.p[i] != 0x5c)
				viol("write-more", fmt("writing %s changes byte %zu", dsc(t, slen, subset).c_str(), i));
		if (room == n) {
			/* And read it back. */
			struct pev_event x;
			r = pev_read(&x, h.p, h.p + n, &cfg);
			std::string why = r != (int)n ? fmt("pev_read returns %d", r) : compare(x, t, misc, bd, subset, s, h.p, n, tsc_of(s.time, cfg));
			if (!why.empty())
				viol("roundtrip", fmt("reading %s after writing it: %s", dsc(t, slen, subset).c_str(), why.c_str()));
		}
	}
	distinct(fnv(want.data(), want.size()));
}

/* Read @b, of which @avail bytes are there; @claim is the size in the header. */
static void read1(const Type &t, size_t slen, int subset, int fill, size_t avail, long claim, int follow, bool nonul)
{
	count("evaluations");
	count("reads");
	Samp s;
	uint16_t misc = (uint16_t)(fill * 0x101);
	Bytes bd = body(t, slen, fill), b = record(t, misc, bd, subset, s);
	size_t n = b.size();
	if (nonul)
		for (size_t i = 8 + bd.size() - 1; i < n; i++)
			if (!b[i])
				b[i] = 'x';
	if (claim >= 0) {
		b[6] = (uint8_t)claim;
		b[7] = (uint8_t)(claim >> 8);
	}
	while (b.size() < avail)
		b.push_back((uint8_t)follow);
	b.resize(avail);
	Heap h(b);
	struct pev_config cfg = config(stype(subset));
	struct pev_event e;
	cur(fmt("read %s, %zu bytes there, header says %ld", dsc(t, slen, subset).c_str(), avail, claim));
	int r = pev_read(&e, h.p, h.p + avail, &cfg);
	/* What does it say? */
	bool ok = false;
	size_t size = 0;
	if (avail >= 8) {
		size = get(b.data() + 6, 2);
		if (size >= 8 && size <= avail) {
			size_t need = 8 + (size_t)t.fixed;
			ok = true;
			if (t.str) {
				size_t k = need;
				while (k < size && b[k])
					k++;
				if (k >= size)
					ok = false;
				else {
					slen = k - need;
					need += (size_t)pad8(k + 1 - need);
				}
			}
			for (int i = 0; i < 6; i++)
				if (subset >> i & 1)
					need += 8;
			if (need != size)
				ok = false;
		}
	}
	std::string w = fmt("%s of %zu bytes; %zu bytes there; the header says %zu: %s", dsc(t, slen, subset).c_str(), n, avail, size, hex(b).c_str());
	if (!ok) {
		if (r >= 0)
			viol("accepted", fmt("%s: is read as %d bytes", w.c_str(), r));
		return;
	}
	if (r != (int)size) {
		viol("size", fmt("%s: returns %d", w.c_str(), r));
		return;
	}
	count("readable");
	if (size == n && !nonul) {
		std::string why = compare(e, t, misc, bd, subset, s, h.p, size, tsc_of(s.time, cfg));
		if (!why.empty())
			viol("value", w + ": " + why);
	}
}

static std::vector<uint64_t> edges()
{
	std::set<uint64_t> s;
	for (int i = 0; i < 64; i++)
		for (int d = -2; d <= 2; d++)
			s.insert((1ull << i) + (uint64_t)d);
	for (uint64_t m : {3ull, 7ull, 1000ull, 0x7fffffffull, 0xffffffffull, 0x123456789abcull})
		for (uint64_t k = 1; k < 40; k++)
			s.insert(m * k);
	return std::vector<uint64_t>(s.begin(), s.end());
}

int main(int argc, char **argv)
{
	init(argc, argv);
	format();
	uint64_t id = 0;
	if (opt.part == "records") {
		int maxs = opt.thorough ? 40 : 17;
		for (auto &t : T)
			for (int subset = 0; subset < 64; subset++)
				for (int slen = 0; slen <= (t.str ? maxs : 0); slen++) {
					if (!mine(id++))
						continue;
					if (late())
						return finish();
					size_t n = record(t, 0, body(t, (size_t)slen, 1), subset, Samp()).size();
					auto cfg = config(stype(subset));
					for (int fill : {1, 0x80, 0xff})
						write1(t, (size_t)slen, subset, fill, fill == 1, cfg, "sample_type");
					for (size_t avail = 0; avail <= n + 1; avail++)
						read1(t, (size_t)slen, subset, 0x11, avail, -1, 0x77, false);
					for (long claim = 0; claim <= (long)n + 24; claim++)
						for (int follow : {0, 0x77}) {
							read1(t, (size_t)slen, subset, 0x11, n + 24, claim, follow, false);
							read1(t, (size_t)slen, subset, 0x11, std::max((size_t)claim, (size_t)8), claim, follow, false);
							read1(t, (size_t)slen, subset, 0x11, n + 24, claim, follow, true);
						}
					for (long claim : {0x8000l, 0xffffl, 0xfff8l})
						read1(t, (size_t)slen, subset, 0x11, n + 24, claim, 0, false);
					if (want_sample())
						sample(dsc(t, (size_t)slen, subset) + fmt(": %zu bytes, written into every room, read with every truncation and claimed size", n));
				}
		/* The longest strings. */
		for (auto &t : T)
			if (t.str)
				for (int subset : {0, 1, 32, 63})
					for (size_t slen = 65528 - 72 - 64; slen <= 65560; slen += opt.thorough || slen > 65528 - 72 - 24 ? 1 : 4) {
						if (!mine(id++))
							continue;
						auto cfg = config(stype(subset));
						write1(t, slen, subset, 1, false, cfg, "long");
					}
		/* Unknown types. */
		for (uint32_t type : {0u, 8u, 9u, 16u, 17u, 64u, 0x80000001u, 0xffffffffu})
			for (size_t n = 8; n < 40; n++)
				for (size_t avail = 0; avail <= n; avail++) {
					count("evaluations");
					Bytes b;
					put(b, type, 4);
					put(b, 0x1234, 2);
					put(b, n, 2);
					b.resize(n, 0x33);
					b.resize(avail);
					Heap h(b);
					struct pev_event e;
					auto cfg = config(stype(63));
					int r = pev_read(&e, h.p, h.p + avail, &cfg);
					bool ok = type && avail == n;
					if (ok ? r != (int)n : r >= 0)
						viol("unknown", fmt("a record of type %u with %zu of %zu bytes gives %d", type, avail, n, r));
					pev_event_init(&e);
					e.type = type;
					uint8_t room[64];
					if (pev_write(&e, room, room + 64, &cfg) != -pte_bad_opc)
						viol("unknown-write", fmt("a record of type %u can be written", type));
				}
	}
	if (opt.part == "config") {
		/* The configuration: sample types by identifier. */
		for (auto &t : T)
			for (int subset = 0; subset < 64; subset++) {
				if (!mine(id++))
					continue;
				Samp s;
				/* Up to three sample types in every order; the record's own one may be among them. */
				for (int ns = 0; ns <= 3; ns++)
					for (int combo = 0, all = 1 << (2 * ns); combo < all; combo++)
						for (int def = 0; def < 4; def++) {
							count("evaluations");
							struct pev_sample_config *sc = (struct pev_sample_config *)malloc(
								sizeof(struct pev_sample_config) + (size_t)ns * sizeof(struct pev_sample_type));
							memset(sc, 0, sizeof(*sc));
							sc->nstypes = (uint8_t)ns;
							uint64_t st = stype(subset), eff = 0;
							bool found = false, bad = false;
							/* Without a matching identifier, the default counts. */
							uint64_t deft = def == 0 ? st : def == 1 ? stype(subset ^ 4) : def == 2 ? stype(63) : 0;
							for (int i = 0; i < ns; i++) {
								int k = combo >> (2 * i) & 3;
								struct pev_sample_type x;
								memset(&x, 0, sizeof(x));
								x.identifier = k & 1 ? s.ident : s.ident + 1 + (uint64_t)i;
								x.sample_type = k & 2 ? stype(subset | 32) : stype((subset ^ 8) & 31);
								memcpy(&sc->stypes[i], &x, sizeof(x));
								if (subset & 32 && x.identifier == s.ident && !found) {
									found = true;
									eff = x.sample_type;
									bad = !(eff & ST[5]);
								}
							}
							if (!found)
								eff = deft;
							bool ok = !bad && eff == st;
							Bytes bd = body(t, 5, 9), b = record(t, 7, bd, subset, s);
							/* The last eight bytes of the record are taken for the identifier. */
							struct pev_config *cfg = (struct pev_config *)malloc(sizeof(*cfg));
							*cfg = config(deft);
							cfg->sample_config = sc;
							struct pev_event e;
							Heap h(b);
							cur(fmt("%s ns %d combo %x def %d", dsc(t, 5, subset).c_str(), ns, combo, def));
							int r = pev_read(&e, h.p, h.p + b.size(), cfg);
							int bits = __builtin_popcountll(eff), want = __builtin_popcountll(st);
							if (ok) {
								std::string why = r != (int)b.size() ? fmt("pev_read returns %d", r)
												     : compare(e, t, 7, bd, subset, s, h.p, b.size(), tsc_of(s.time, *cfg));
								if (!why.empty())
									viol("by-identifier", fmt("%s with %d sample types (%x, default %d): %s", dsc(t, 5, subset).c_str(), ns,
												  combo, def, why.c_str()));
							} else if (r >= 0 && (bad || bits != want))
								viol("by-identifier-accepted", fmt("%s with %d sample types (%x, default %d): accepted as %d bytes",
												   dsc(t, 5, subset).c_str(), ns, combo, def, r));
							fill_event(e, t, 7, bd, subset, s);
							Heap o(b.size());
							r = pev_write(&e, o.p, o.p + b.size(), cfg);
							if (ok ? r != (int)b.size() : r != -pte_bad_config)
								viol("by-identifier-write", fmt("%s with %d sample types (%x, default %d): writing gives %d",
												dsc(t, 5, subset).c_str(), ns, combo, def, r));
							free(sc);
							free(cfg);
						}
				/* The wrong sample type. */
				for (int other = 0; other < 64; other++) {
					count("evaluations");
					auto cfg = config(stype(other));
					Bytes bd = body(t, 5, 9), b = record(t, 7, bd, subset, s);
					struct pev_event e;
					fill_event(e, t, 7, bd, subset, s);
					Heap o(b.size()), h(b);
					int r = pev_write(&e, o.p, o.p + b.size(), &cfg);
					if (other == subset ? r != (int)b.size() : r != -pte_bad_config)
						viol("sample-type", fmt("%s with sample type %llx gives %d", dsc(t, 5, subset).c_str(), (unsigned long long)stype(other), r));
					r = pev_read(&e, h.p, h.p + b.size(), &cfg);
					if (__builtin_popcount((unsigned)other) == __builtin_popcount((unsigned)subset) ? r != (int)b.size() : r >= 0)
						viol("sample-type-read", fmt("%s with sample type %llx gives %d", dsc(t, 5, subset).c_str(),
									     (unsigned long long)stype(other), r));
				}
				/* Old configurations. */
				for (size_t cs = 0; cs <= sizeof(struct pev_config); cs++) {
					count("evaluations");
					Heap ch(cs < sizeof(size_t) ? sizeof(size_t) : cs);
					auto cfg = config(stype(subset));
					memcpy(ch.p, &cfg, ch.n);
					memcpy(ch.p, &cs, sizeof(cs));
					Bytes bd = body(t, 5, 9), b = record(t, 7, bd, subset, s);
					Heap h(b);
					struct pev_event e;
					cur(fmt("%s config size %zu", dsc(t, 5, subset).c_str(), cs));
					int r = pev_read(&e, h.p, h.p + b.size(), (struct pev_config *)ch.p);
					bool ok = cs >= offsetof(struct pev_config, sample_type) + 8;
					if (subset & 2)
						ok = ok && cs >= offsetof(struct pev_config, time_zero) + 8;
					if (ok ? r != (int)b.size() : r != -pte_bad_config)
						viol("config-size", fmt("%s with a configuration of %zu bytes gives %d", dsc(t, 5, subset).c_str(), cs, r));
				}
			}
		/* Two records in a row. */
		for (auto &t : T)
			for (auto &u : T)
				for (int subset : {0, 1, 2, 32, 35, 63}) {
					if (!mine(id++))
						continue;
					Samp s, s2;
					s2.pid++, s2.tid++, s2.time++, s2.id++, s2.stream++, s2.cpu++, s2.ident++;
					for (size_t l = 0; l < 9; l++) {
						count("evaluations");
						Bytes b1 = body(t, l, 3), b2 = body(u, 8 - l, 5);
						Bytes r1 = record(t, 1, b1, subset, s), r2 = record(u, 2, b2, subset, s2), b = r1;
						b.insert(b.end(), r2.begin(), r2.end());
						Heap h(b);
						auto cfg = config(stype(subset));
						struct pev_event e;
						int r = pev_read(&e, h.p, h.p + b.size(), &cfg);
						std::string why;
						if (r != (int)r1.size())
							why = fmt("the first one has %d bytes", r);
						if (why.empty())
							why = compare(e, t, 1, b1, subset, s, h.p, r1.size(), tsc_of(s.time, cfg));
						if (why.empty()) {
							r = pev_read(&e, h.p + r1.size(), h.p + b.size(), &cfg);
							why = r != (int)r2.size() ? fmt("the second one has %d bytes", r)
										  : compare(e, u, 2, b2, subset, s2, h.p + r1.size(), r2.size(), tsc_of(s2.time, cfg));
						}
						if (!why.empty())
							viol("stream", dsc(t, l, subset) + ", " + dsc(u, 8 - l, subset) + ": " + why);
					}
				}
		/* Time. */
		auto E = edges();
		for (int shift : {0, 1, 2, 5, 10, 20, 30, 31, 32})
			for (uint32_t mult : {0u, 1u, 2u, 3u, 7u, 1000u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu})
				for (uint64_t zero : {0ull, 1ull, 1000ull, 1ull << 40, ~0ull - 5}) {
					if (!mine(id++))
						continue;
					struct pev_config c = config(0);
					c.time_shift = (uint16_t)shift;
					c.time_mult = mult;
					c.time_zero = zero;
					for (uint64_t v : E) {
						count("evaluations");
						count("times");
						uint64_t o = 0x77;
						std::string w = fmt("shift %d mult %u zero %llx value %llx", shift, mult, (unsigned long long)zero, (unsigned long long)v);
						cur(w);
						int r = pev_time_to_tsc(&o, v, &c);
						if (!v) {
							if (r || o)
								viol("time", fmt("%s: time 0 is not TSC 0 (%d %llx)", w.c_str(), r, (unsigned long long)o));
						} else if (!mult) {
							if (r != -pte_bad_config)
								viol("time-config", w + fmt(": %d", r));
						} else {
							unsigned __int128 x = ((unsigned __int128)(v - zero) << shift) / mult;
							if (x >> 64 == 0 && (r || o != (uint64_t)x))
								viol("time", fmt("%s: TSC %llx instead of %llx (%d)", w.c_str(), (unsigned long long)o, (unsigned long long)x, r));
						}
						r = pev_time_from_tsc(&o, v, &c);
						if (!mult) {
							if (r != -pte_bad_config)
								viol("time-config", w + fmt(": %d", r));
						} else {
							unsigned __int128 x = ((unsigned __int128)v * mult) >> shift;
							if (x >> 64 == 0 && (r || o != zero + (uint64_t)x))
								viol("tsc", fmt("%s: time %llx instead of %llx (%d)", w.c_str(), (unsigned long long)o,
										(unsigned long long)(zero + (uint64_t)x), r));
						}
					}
				}
	}
	return finish();
}
