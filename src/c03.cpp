// C03: synchronisation visits exactly the PSB sync points of the trace, in both directions,
// in every decoder, for every arrangement of PSBs, look-alikes and alignments.
#include "decs.hpp"
#include "refpkt.hpp"
using namespace vf;

static Guard *G;
typedef std::vector<uint8_t> Bytes;

/* Sync points: the last 16 bytes of every maximal (02 82)* run of at least 16 bytes. */
static std::vector<size_t> points(const Bytes &t)
{
	std::vector<size_t> s;
	size_t n = t.size();
	for (size_t i = 0; i + 16 <= n; i++) {
		bool m = true;
		for (int k = 0; k < 16 && m; k++)
			m = t[i + k] == ((k & 1) ? 0x82 : 0x02);
		if (!m)
			continue;
		if (i + 18 <= n && t[i + 16] == 0x02 && t[i + 17] == 0x82)
			continue; /* the run goes on */
		s.push_back(i);
	}
	return s;
}

/* The end of the PSB+ at @s: behind its PSBEND. */
static size_t header_end(const Bytes &t, size_t s)
{
	for (size_t i = s + 16; i + 2 <= t.size(); i++)
		if (t[i] == 0x02 && t[i + 1] == 0x23)
			return i + 2;
	return t.size();
}

static std::string sstr(const std::vector<size_t> &s)
{
	std::string r;
	for (size_t x : s)
		r += fmt("%zu ", x);
	return r;
}

static void check_trace(const Bytes &t, bool wellformed, int al)
{
	const std::vector<size_t> S = points(t), &SS = S;
	static uint8_t raw[4096 + 16];
	uint8_t *b = (uint8_t *)((((uintptr_t)raw + 7) & ~(uintptr_t)7) + al);
	/* Alternate between an aligned copy at a chosen alignment and a guard-page copy. */
	if (al == 8)
		b = G->right(t.data(), t.size());
	else if (al == 9)
		b = G->left(t.data(), t.size());
	else {
		memset(raw, 0x5c, sizeof(raw));
		/* what lies outside of the buffer must not matter */
		for (size_t i = 0; i < t.size() + 200 && b + i + 1 < raw + sizeof(raw); i += 2) {
			b[i] = 0x02;
			b[i + 1] = 0x82;
		}
		memcpy(b, t.data(), t.size());
	}
	struct pt_config c;
	pt_config_init(&c);
	c.begin = b;
	c.end = b + t.size();
	count("traces");
	std::string id = fmt("trace %s align=%d", hex(t).c_str(), al);
	for (int ki = 0; ki < dec::NKIND; ki++) {
		dec::Kind k = (dec::Kind)ki;
		bool exact = k == dec::PKT || wellformed;
		const char *nm = dec::NAME[ki];
		/* forward sweep */
		{
			dec::D d(k, &c);
			std::vector<size_t> got;
			uint64_t o, ahead = 0;
			int rc = 0, i;
			if (d.soff(&o) != -pte_nosync || d.off(&o) != -pte_nosync)
				viol(fmt("%s-unsynced", nm), id + ": offset available before sync");
			for (i = 0; i < 64; i++) {
				count("evaluations");
				rc = d.fwd();
				if (rc == -pte_eos)
					break;
				if (rc < 0 && exact) {
					viol(fmt("%s-fwd-err", nm), fmt("%s: forward sync %d: %s", id.c_str(), i, ename(rc)));
					break;
				}
				if (d.soff(&o) == 0)
					got.push_back(o);
				/* The instruction decoder has already read the events that follow
				 * the sync point; PSB+ without events are behind it. */
				uint64_t p;
				if (k == dec::INS && d.off(&p) == 0)
					ahead = p;
			}
			bool mono = true;
			std::vector<size_t> S = SS;
			if (k == dec::INS)
				for (size_t j = 0; j < S.size();)
					if (S[j] <= ahead && std::find(got.begin(), got.end(), S[j]) == got.end())
						S.erase(S.begin() + j);
					else
						j++;
			for (size_t j = 0; j < got.size(); j++)
				if ((j && got[j] <= got[j - 1]) || std::find(S.begin(), S.end(), got[j]) == S.end())
					mono = false;
			if (i >= 64 || !mono || (exact && got != S))
				viol(fmt("%s-fwd", nm), fmt("%s: forward sync visits %s, sync points are %s", id.c_str(),
					sstr(got).c_str(), sstr(S).c_str()));
		}
		/* backward sweep */
		{
			dec::D d(k, &c);
			std::vector<size_t> got;
			uint64_t o;
			int i;
			bool repeat = false;
			for (i = 0; i < 64; i++) {
				count("evaluations");
				uint64_t was = 0;
				d.off(&was);
				d.ip = 0;
				int rc = d.bwd();
				if (rc == -pte_eos)
					break;
				if (rc < 0 && exact) {
					viol(fmt("%s-bwd-err", nm), fmt("%s: backward sync %d: %s", id.c_str(), i, ename(rc)));
					break;
				}
				if (d.soff(&o) == 0) {
					if (k == dec::INS && got.size() && got.back() == o && was > header_end(t, o)) {
						viol("insn-bwd-repeat", fmt("%s: repeated backward sync stays at %llu", id.c_str(),
							(unsigned long long)o));
						repeat = true;
						break;
					}
					got.push_back(o);
					/* the same place looks the same from either direction */
					dec::D e(k, &c);
					e.ip = 0;
					uint64_t p = 0, q = 0;
					int r2 = e.set(o);
					if (r2 != rc || e.ip != d.ip || e.off(&p) != d.off(&q) || p != q)
						viol(fmt("%s-bwd-state", nm), fmt("%s: backward sync to %llu: status %d ip %llx offset %llu; sync_set: "
							"status %d ip %llx offset %llu", id.c_str(), (unsigned long long)o, rc, (unsigned long long)d.ip,
							(unsigned long long)q, r2, (unsigned long long)e.ip, (unsigned long long)p));
				}
			}
			if (repeat)
				continue;
			std::vector<size_t> R(S.rbegin(), S.rend());
			/* A PSB+ that ends the trace has nothing to decode and may be skipped. */
			if (!R.empty() && k != dec::PKT && got.size() + 1 == R.size() && t.size() >= 18 &&
			    t[t.size() - 2] == 0x02 && t[t.size() - 1] == 0x23)
				R.erase(R.begin());
			bool mono = true;
			for (size_t j = 0; j < got.size(); j++)
				if ((j && got[j] >= got[j - 1]) || std::find(S.begin(), S.end(), got[j]) == S.end())
					mono = false;
			if (i >= 64 || !mono || (exact && got != R))
				viol(fmt("%s-bwd", nm), fmt("%s: backward sync visits %s, sync points are %s", id.c_str(),
					sstr(got).c_str(), sstr(R).c_str()));
		}
		if (!wellformed)
			continue;
		/* set to each sync point, then walk both ways, with a turn-around */
		for (size_t i = 0; i < S.size(); i++)
			for (int dir = 0; dir < 4; dir++) {
				dec::D d(k, &c);
				uint64_t o = 0, q = 0;
				count("evaluations");
				int rc = d.set(S[i]);
				if (rc < 0 || d.soff(&o) != 0 || o != S[i]) {
					viol(fmt("%s-set", nm), fmt("%s: sync_set(%zu): %s", id.c_str(), S[i], ename(rc)));
					continue;
				}
				if (d.off(&q) != 0 || q < S[i] || q > t.size())
					viol(fmt("%s-set-off", nm), fmt("%s: sync_set(%zu): offset %llu", id.c_str(), S[i], (unsigned long long)q));
				long at = (long)i;
				static const char *const mv[] = {"ff", "bb", "fb", "bf"};
				for (int s = 0; s < 2; s++) {
					bool f = mv[dir][s] == 'f';
					uint64_t was = 0;
					d.off(&was);
					rc = f ? d.fwd() : d.bwd();
					long nx = at + (f ? 1 : -1);
					if (k == dec::INS && rc >= 0 && !f && d.soff(&o) == 0 && o == S[at] &&
					    was > header_end(t, o)) {
						viol("insn-bwd-repeat", fmt("%s: set %zu then %.*s: backward sync stays", id.c_str(), S[i],
							s + 1, mv[dir]));
						break;
					}
					if (k == dec::INS && f && was > S[at] + 16) {
						/* what has been read already is behind */
						while (nx < (long)S.size() && S[nx] <= was && !(rc >= 0 && d.soff(&o) == 0 && o == S[nx]))
							nx++;
					}
					if (nx < 0 || nx >= (long)S.size()) {
						if (rc != -pte_eos)
							viol(fmt("%s-turn", nm), fmt("%s: set %zu then %s: %s, expected eos", id.c_str(), S[i],
								mv[dir], ename(rc)));
						break;
					}
					at = nx;
					if (rc < 0 || d.soff(&o) != 0 || o != S[at]) {
						viol(fmt("%s-turn", nm), fmt("%s: set %zu then %.*s: %s at %llu, expected %zu", id.c_str(),
							S[i], s + 1, mv[dir], ename(rc), (unsigned long long)o, S[at]));
						break;
					}
				}
			}
		/* set elsewhere is refused by all but the packet decoder */
		if (k != dec::PKT)
			for (size_t p = 0; p <= t.size() + 1; p++) {
				if (std::find(S.begin(), S.end(), p) != S.end())
					continue;
				/* inside of a long run every even position looks like a PSB */
				bool look = p + 16 <= t.size();
				for (int x = 0; look && x < 16; x++)
					look = t[p + x] == ((x & 1) ? 0x82 : 0x02);
				if (look)
					continue;
				/* padding in front of a sync point is skipped */
				size_t z = p;
				while (z < t.size() && !t[z])
					z++;
				if (z > p && std::find(S.begin(), S.end(), z) != S.end())
					continue;
				dec::D d(k, &c);
				count("evaluations");
				int rc = d.set(p);
				if (rc >= 0 || (rc != -pte_nosync && rc != -pte_bad_packet && rc != -pte_bad_opc &&
						rc != -pte_eos))
					viol(fmt("%s-setbad", nm), fmt("%s: sync_set(%zu): %s", id.c_str(), p, ename(rc)));
			}
	}
	/* packet decoder: set anywhere, then search */
	for (size_t p = 0; p <= t.size(); p++)
		for (int f = 0; f < 2; f++) {
			dec::D d(dec::PKT, &c);
			count("evaluations");
			uint64_t o = 0;
			if (d.set(p) != 0 || d.off(&o) != 0 || o != p) {
				viol("pkt-set", fmt("%s: pkt sync_set(%zu)", id.c_str(), p));
				continue;
			}
			int rc = f ? d.fwd() : d.bwd();
			std::set<long> ok; /* -1: eos */
			if (f) {
				/* first sync point after p; it may have started up to 15 bytes before the
				 * position following a PSB at p */
				long r = -1;
				for (size_t x : S)
					if (x > p) {
						r = x;
						break;
					}
				ok.insert(r);
			} else {
				/* last one that ends at or before p; one that p cuts through is optional */
				long r = -1;
				for (size_t x : S) {
					if (x + 16 <= p)
						r = x;
					else if (x < p)
						ok.insert(x);
				}
				ok.insert(r);
			}
			long g = -2;
			if (rc == -pte_eos)
				g = -1;
			else if (rc >= 0 && d.soff(&o) == 0)
				g = o;
			if (!ok.count(g))
				viol(f ? "pkt-set-fwd" : "pkt-set-bwd", fmt("%s: sync_set(%zu) then %s: %s at %ld, expected %ld", id.c_str(), p,
					f ? "forward" : "backward", ename(rc), g, *ok.begin()));
		}
	/* packet decoder: decode some packets, possibly into the next PSB, then search */
	for (int f = 0; f < 2; f++)
		for (int n = 1; n < 12; n++) {
			dec::D d(dec::PKT, &c);
			uint64_t pos = 0, sync = 0, o = 0;
			if (d.fwd() < 0)
				break;
			d.soff(&sync);
			struct pt_packet pk;
			int i;
			for (i = 0; i < n && pt_pkt_next((struct pt_packet_decoder *)d.p, &pk, sizeof(pk)) >= 0; i++)
				;
			if (i < n)
				break;
			count("evaluations");
			d.off(&pos);
			int rc = f ? d.fwd() : d.bwd();
			std::set<long> ok;
			if (f) {
				long r = -1;
				for (size_t x : S)
					if (x > sync && x + 15 >= pos) {
						r = x;
						break;
					}
				ok.insert(r);
			} else {
				long r = -1;
				for (size_t x : S) {
					if (x + 16 <= pos)
						r = x;
					else if (x < pos)
						ok.insert(x);
				}
				ok.insert(r);
			}
			long g = -2;
			if (rc == -pte_eos)
				g = -1;
			else if (rc >= 0 && d.soff(&o) == 0)
				g = o;
			if (!ok.count(g))
				viol(f ? "pkt-next-fwd" : "pkt-next-bwd", fmt("%s: sync, decode %d packets up to %llu, then %s: %s at %ld, expected %ld",
					id.c_str(), n, (unsigned long long)pos, f ? "forward" : "backward", ename(rc), g, *ok.begin()));
		}
	{
		dec::D d(dec::PKT, &c);
		for (uint64_t p : {(uint64_t)t.size() + 1, (uint64_t)t.size() + 4096, ~(uint64_t)0, (uint64_t)1 << 63})
			if (d.set(p) != -pte_eos)
				viol("pkt-set-oob", fmt("%s: sync_set(%llu) accepted", id.c_str(), (unsigned long long)p));
	}
	distinct(fnv(S.data(), S.size() * sizeof(size_t), t.size() * 16 + al));
	if (want_sample())
		sample(id + " sync points: " + sstr(S));
}

int main(int argc, char **argv)
{
	init(argc, argv);
	G = new Guard(1);
	auto rep = [](uint8_t a, uint8_t b, int n) {
		Bytes r;
		for (int i = 0; i < n; i++)
			r.push_back((i & 1) ? b : a);
		return r;
	};
	auto cat = [](std::vector<Bytes> v) {
		Bytes r;
		for (auto &x : v)
			r.insert(r.end(), x.begin(), x.end());
		return r;
	};
	Bytes PSB = rep(2, 0x82, 16), END = {2, 0x23};
	struct Tok { const char *n; Bytes b; bool ok; };
	Bytes corrupt = PSB;
	corrupt[15] = 0x83;
	Bytes corrupt0 = PSB;
	corrupt0[0] = 0x03;
	std::vector<Tok> T = {
		{"psb psbend", cat({PSB, END}), true},
		{"psb mode fup psbend", cat({PSB, {0x99, 1}, {0x7d, 0x00, 0x10, 0x40, 0, 0, 0}, END}), true},
		{"pad", {0}, true},
		{"mnt(0282..)", cat({{2, 0xc3, 0x88}, rep(2, 0x82, 8)}), true},
		{"mnt(8202..)", cat({{2, 0xc3, 0x88}, rep(0x82, 2, 8)}), true},
		{"mwait(0282)x2", cat({{2, 0xc2}, rep(2, 0x82, 8), {2, 0xc2}, rep(0x82, 2, 8)}), false},
		{"tsc", {0x19, 2, 0x82, 2, 0x82, 2, 0x82, 2}, true},
		{"psb mwait? tsc psbend", cat({PSB, {0x19, 0x82, 2, 0x82, 2, 0x82, 2, 0x82}, END}), true},
		/* damaged */
		{"raw psb", PSB, false},
		{"8x", rep(2, 0x82, 8), false},
		{"8y", rep(0x82, 2, 8), false},
		{"2x", rep(2, 0x82, 2), false},
		{"02", {2}, false},
		{"82", {0x82}, false},
		{"psb-1", Bytes(PSB.begin(), PSB.end() - 1), false},
		{"psb+1", Bytes(PSB.begin() + 1, PSB.end()), false},
		{"corrupt end", corrupt, false},
		{"corrupt begin", corrupt0, false},
		{"junk", {0x99, 0x00, 0x59}, false},
		/* cut off: the following PSB is taken for the payload */
		{"mtc-", {0x59}, false},
		{"tsc-", {0x19}, false},
		{"mnt-", {2, 0xc3, 0x88}, false},
		{"evd-", {2, 0x53}, false},
	};
	size_t ntok = T.size();
	int depth = opt.thorough ? 4 : 3;
	uint64_t idx = 0;
	for (int len = 1; len <= depth; len++) {
		std::vector<size_t> i(len, 0);
		for (;;) {
			if (mine(idx++) && !late()) {
				Bytes t;
				bool wf = true;
				for (size_t x : i) {
					t.insert(t.end(), T[x].b.begin(), T[x].b.end());
					wf = wf && T[x].ok;
				}
				/* trailing PSB+ must be terminated for decoders above packets */
				curhex("sync trace ", t.data(), t.size());
				for (int al = 0; al < 10; al++)
					check_trace(t, wf, al);
			}
			int j = 0;
			while (j < len && ++i[j] == ntok)
				i[j++] = 0;
			if (j == len)
				break;
		}
	}
	/* long distances: every gap length around the search word size */
	for (int gap = 0; gap < 40; gap++)
		for (int pre = 0; pre < 20; pre++) {
			if (!mine(idx++))
				continue;
			Bytes t(pre, 0);
			Bytes s = T[(gap & 1)].b;
			t.insert(t.end(), s.begin(), s.end());
			t.insert(t.end(), gap, 0);
			t.insert(t.end(), s.begin(), s.end());
			t.insert(t.end(), (gap + pre) % 11, 0);
			curhex("sync trace ", t.data(), t.size());
			for (int al = 0; al < 10; al++)
				check_trace(t, true, al);
		}
	return finish();
}
