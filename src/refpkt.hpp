// Independent model of the Intel PT packet format (SDM vol. 3, "Intel Processor Trace", packet
// definitions).  Table driven; shares no code with the library.
#pragma once
#include "common.hpp"

namespace ref {

enum Kind { K_NONE, K_TNT8, K_TNT64, K_IP, K_MODE, K_PIP, K_TSC, K_CBR, K_TMA, K_MTC, K_CYC, K_VMCS,
	    K_MNT, K_EXSTOP, K_MWAIT, K_PWRE, K_PWRX, K_PTW, K_CFE, K_EVD, K_TRIG, K_PSB };

/* A flattened packet: type + up to six fields. */
struct Pk {
	int type = ppt_invalid;
	int size = 0;
	uint64_t f[6] = {0, 0, 0, 0, 0, 0};
	bool same(const Pk &o) const
	{
		return type == o.type && size == o.size && !memcmp(f, o.f, sizeof(f));
	}
	std::string str() const
	{
		return vf::fmt("type=%d size=%d f=%llx,%llx,%llx,%llx,%llx,%llx", type, size,
			       (unsigned long long)f[0], (unsigned long long)f[1],
			       (unsigned long long)f[2], (unsigned long long)f[3],
			       (unsigned long long)f[4], (unsigned long long)f[5]);
	}
};

struct Desc {
	const char *name;
	int type;
	Kind kind;
	int nopc;	    /* opcode bytes */
	uint8_t opc[3];	    /* opcode value */
	uint8_t mask[3];    /* opcode mask */
	int payload;	    /* fixed payload size, -1: computed */
};

static const Desc TAB[] = {
	{"pad", ppt_pad, K_NONE, 1, {0x00}, {0xff}, 0},
	{"mode", ppt_mode, K_MODE, 1, {0x99}, {0xff}, 1},
	{"tsc", ppt_tsc, K_TSC, 1, {0x19}, {0xff}, 7},
	{"mtc", ppt_mtc, K_MTC, 1, {0x59}, {0xff}, 1},
	{"trig", ppt_trig, K_TRIG, 1, {0xd9}, {0xff}, -1},
	{"psb", ppt_psb, K_PSB, 2, {0x02, 0x82}, {0xff, 0xff}, 14},
	{"psbend", ppt_psbend, K_NONE, 2, {0x02, 0x23}, {0xff, 0xff}, 0},
	{"ovf", ppt_ovf, K_NONE, 2, {0x02, 0xf3}, {0xff, 0xff}, 0},
	{"stop", ppt_stop, K_NONE, 2, {0x02, 0x83}, {0xff, 0xff}, 0},
	{"cbr", ppt_cbr, K_CBR, 2, {0x02, 0x03}, {0xff, 0xff}, 2},
	{"tma", ppt_tma, K_TMA, 2, {0x02, 0x73}, {0xff, 0xff}, 5},
	{"pip", ppt_pip, K_PIP, 2, {0x02, 0x43}, {0xff, 0xff}, 6},
	{"vmcs", ppt_vmcs, K_VMCS, 2, {0x02, 0xc8}, {0xff, 0xff}, 5},
	{"tnt64", ppt_tnt_64, K_TNT64, 2, {0x02, 0xa3}, {0xff, 0xff}, 6},
	{"exstop", ppt_exstop, K_EXSTOP, 2, {0x02, 0x62}, {0xff, 0x7f}, 0},
	{"mwait", ppt_mwait, K_MWAIT, 2, {0x02, 0xc2}, {0xff, 0xff}, 8},
	{"pwre", ppt_pwre, K_PWRE, 2, {0x02, 0x22}, {0xff, 0xff}, 2},
	{"pwrx", ppt_pwrx, K_PWRX, 2, {0x02, 0xa2}, {0xff, 0xff}, 5},
	{"cfe", ppt_cfe, K_CFE, 2, {0x02, 0x13}, {0xff, 0xff}, 2},
	{"evd", ppt_evd, K_EVD, 2, {0x02, 0x53}, {0xff, 0xff}, 9},
	{"ptw", ppt_ptw, K_PTW, 2, {0x02, 0x12}, {0xff, 0x1f}, -1},
	{"mnt", ppt_mnt, K_MNT, 3, {0x02, 0xc3, 0x88}, {0xff, 0xff, 0xff}, 8},
	{"fup", ppt_fup, K_IP, 1, {0x1d}, {0x1f}, -1},
	{"tip", ppt_tip, K_IP, 1, {0x0d}, {0x1f}, -1},
	{"tip.pge", ppt_tip_pge, K_IP, 1, {0x11}, {0x1f}, -1},
	{"tip.pgd", ppt_tip_pgd, K_IP, 1, {0x01}, {0x1f}, -1},
	{"cyc", ppt_cyc, K_CYC, 1, {0x03}, {0x03}, -1},
	{"tnt8", ppt_tnt_8, K_TNT8, 1, {0x00}, {0x01}, 0},
};
static const int NTAB = sizeof(TAB) / sizeof(*TAB);

inline const Desc *desc_of(int type)
{
	for (int i = 0; i < NTAB; i++)
		if (TAB[i].type == type)
			return &TAB[i];
	return 0;
}

inline uint64_t le(const uint8_t *p, int n)
{
	uint64_t v = 0;
	for (int i = n - 1; i >= 0; i--)
		v = v << 8 | p[i];
	return v;
}
inline int ip_bytes(int ipc)
{
	static const int s[8] = {0, 2, 4, 6, 6, -1, 8, -1};
	return s[ipc];
}

/* Outcome classes for a decode: R_OK or a set of acceptable error codes. */
struct Out {
	bool ok = false;
	bool unknown = false;	/* no packet has this opcode */
	std::set<int> err;	/* acceptable errors if !ok && !unknown */
	Pk pk;
};

/* Decode one packet from p[0..n).  */
inline Out decode(const uint8_t *p, size_t n)
{
	Out o;
	if (n == 0) {
		o.err.insert(-pte_eos);
		return o;
	}
	/* the opcode itself may be cut off */
	if (p[0] == 0x02 && n < 2) {
		o.err.insert(-pte_eos);
		return o;
	}
	if (p[0] == 0x02 && p[1] == 0xc3 && n < 3) {
		o.err.insert(-pte_eos);
		return o;
	}
	const Desc *d = 0;
	for (int i = 0; i < NTAB && !d; i++) {
		bool m = true;
		for (int k = 0; k < TAB[i].nopc; k++)
			if ((size_t)k >= n || (p[k] & TAB[i].mask[k]) != TAB[i].opc[k])
				m = false;
		/* 0x02 always introduces a two-byte opcode; it is not a TNT. */
		if (m && TAB[i].kind == K_TNT8 && p[0] == 0x02)
			m = false;
		if (m)
			d = &TAB[i];
	}
	if (!d) {
		o.unknown = true;
		return o;
	}
	const uint8_t *q = p + d->nopc;
	size_t av = n - d->nopc;
	int pl = d->payload;
	Pk k;
	k.type = d->type;
	bool bad = false;
	switch (d->kind) {
	case K_IP: {
		int ipc = p[0] >> 5;
		pl = ip_bytes(ipc);
		if (pl < 0) {
			o.err.insert(-pte_bad_packet);
			return o;
		}
		break;
	}
	case K_TRIG:
		pl = 2;
		if (av >= 1 && (q[0] & 0x40))
			pl = 4;
		break;
	case K_PTW:
		switch ((p[1] >> 5) & 3) {
		case 0: pl = 4; break;
		case 1: pl = 8; break;
		default:
			o.err.insert(-pte_bad_packet);
			return o;
		}
		break;
	case K_CYC: {
		/* continuation bytes: bit 0 says another byte follows */
		pl = 0;
		bool ext = p[0] & 4;
		uint64_t v = p[0] >> 3;
		int sh = 5;
		while (ext) {
			if ((size_t)pl >= av) {
				/* cut off, or possibly oversized already */
				o.err.insert(-pte_eos);
				if (bad)
					o.err.insert(-pte_bad_packet);
				return o;
			}
			uint64_t b = q[pl] >> 1;
			ext = q[pl] & 1;
			pl++;
			if (sh < 64) {
				v |= b << sh;
				if (sh > 57 && (b >> (64 - sh)))
					bad = true;
			} else if (b)
				bad = true;
			sh += 7;
			/* the format allows at most fifteen bytes */
			if (pl > 14)
				bad = true;
			if (bad && pl > 14)
				break;
		}
		k.f[0] = v;
		if (bad) {
			o.err.insert(-pte_bad_packet);
			return o;
		}
		/* Sizes the value does not need are legal or not depending on how strictly
		 * the decoder limits the width: handled by the caller via f[5]. */
		break;
	}
	default:
		break;
	}
	if (av < (size_t)pl) {
		o.err.insert(-pte_eos);
		/* A payload that is wrong already in its visible part may be called bad. */
		if (d->kind == K_PSB) {
			for (size_t i = 0; i < av; i++)
				if (q[i] != ((i & 1) ? 0x82 : 0x02))
					o.err.insert(-pte_bad_packet);
		}
		return o;
	}
	switch (d->kind) {
	case K_NONE:
	case K_CYC:
		break;
	case K_PSB:
		for (int i = 0; i < 14; i++)
			if (q[i] != ((i & 1) ? 0x82 : 0x02))
				bad = true;
		break;
	case K_TNT8:
	case K_TNT64: {
		uint64_t v = d->kind == K_TNT8 ? (uint64_t)(p[0] >> 1) : le(q, 6);
		if (v <= 1) {
			bad = true;
			break;
		}
		int top = 63;
		while (!(v >> top & 1))
			top--;
		k.f[0] = top;
		k.f[1] = v & ~(1ull << top);
		break;
	}
	case K_IP:
		k.f[0] = p[0] >> 5;
		k.f[1] = le(q, pl);
		break;
	case K_MODE:
		switch (q[0] >> 5) {
		case 0:
			k.f[0] = 0;
			k.f[1] = q[0] & 1;	    /* CS.L */
			k.f[2] = q[0] >> 1 & 1;  /* CS.D */
			k.f[3] = q[0] >> 2 & 1;  /* IF */
			break;
		case 1:
			k.f[0] = 0x20;
			k.f[1] = q[0] & 1;
			k.f[2] = q[0] >> 1 & 1;
			break;
		default:
			bad = true;
		}
		break;
	case K_PIP:
		k.f[0] = (le(q, 6) >> 1) << 5;
		k.f[1] = q[0] & 1;
		break;
	case K_TSC:
		k.f[0] = le(q, 7);
		break;
	case K_CBR:
		k.f[0] = q[0];
		break;
	case K_TMA:
		k.f[0] = le(q, 2);
		k.f[1] = le(q + 3, 2);
		if (q[2] || (k.f[1] & ~0x1ffull))
			bad = true;
		break;
	case K_MTC:
		k.f[0] = q[0];
		break;
	case K_VMCS:
		k.f[0] = le(q, 5) << 12;
		break;
	case K_MNT:
		k.f[0] = le(q, 8);
		break;
	case K_EXSTOP:
		k.f[0] = p[1] >> 7;
		break;
	case K_MWAIT:
		k.f[0] = le(q, 4);
		k.f[1] = le(q + 4, 4);
		break;
	case K_PWRE:
		k.f[0] = q[1] >> 4;
		k.f[1] = q[1] & 15;
		k.f[2] = q[0] >> 3 & 1;
		break;
	case K_PWRX:
		k.f[0] = q[0] >> 4;
		k.f[1] = q[0] & 15;
		k.f[2] = q[1] & 1;
		k.f[3] = q[1] >> 2 & 1;
		k.f[4] = q[1] >> 3 & 1;
		break;
	case K_PTW:
		k.f[0] = le(q, pl);
		k.f[1] = p[1] >> 5 & 3;
		k.f[2] = p[1] >> 7;
		break;
	case K_CFE:
		k.f[0] = q[0] & 0x1f;
		k.f[1] = q[1];
		k.f[2] = q[0] >> 7;
		break;
	case K_EVD:
		k.f[0] = q[0] & 0x1f;
		k.f[1] = le(q + 1, 8);
		break;
	case K_TRIG:
		k.f[0] = q[0] >> 7;
		k.f[1] = q[0] >> 6 & 1;
		k.f[2] = q[0] >> 5 & 1;
		k.f[3] = q[1];
		k.f[4] = (q[0] & 0x40) ? le(q + 2, 2) : 0;
		break;
	}
	if (bad) {
		o.err.insert(-pte_bad_packet);
		return o;
	}
	k.size = d->nopc + pl;
	o.ok = true;
	o.pk = k;
	return o;
}

typedef std::vector<uint8_t> Bytes;

inline void put(Bytes &b, uint64_t v, int n)
{
	for (int i = 0; i < n; i++, v >>= 8)
		b.push_back((uint8_t)v);
}

/* Encode a packet whose fields fit the format. */
inline Bytes encode(const Pk &k)
{
	Bytes b;
	const Desc *d = desc_of(k.type);
	if (!d)
		return b;
	for (int i = 0; i < d->nopc; i++)
		b.push_back(d->opc[i]);
	const uint64_t *f = k.f;
	switch (d->kind) {
	case K_NONE:
		break;
	case K_PSB:
		for (int i = 0; i < 7; i++) {
			b.push_back(0x02);
			b.push_back(0x82);
		}
		break;
	case K_TNT8:
		b[0] = (uint8_t)((f[1] | 1ull << f[0]) << 1);
		break;
	case K_TNT64:
		put(b, f[1] | 1ull << f[0], 6);
		break;
	case K_IP:
		b[0] |= (uint8_t)(f[0] << 5);
		put(b, f[1], ip_bytes((int)f[0]));
		break;
	case K_MODE:
		if (f[0] == 0)
			put(b, f[1] | f[2] << 1 | f[3] << 2, 1);
		else
			put(b, 0x20 | f[1] | f[2] << 1, 1);
		break;
	case K_PIP:
		put(b, (f[0] >> 5) << 1 | f[1], 6);
		break;
	case K_TSC:
		put(b, f[0], 7);
		break;
	case K_CBR:
		put(b, f[0], 2);
		break;
	case K_TMA:
		put(b, f[0], 2);
		put(b, 0, 1);
		put(b, f[1], 2);
		break;
	case K_MTC:
		put(b, f[0], 1);
		break;
	case K_CYC: {
		uint64_t v = f[0] >> 5;
		b[0] |= (uint8_t)((f[0] & 31) << 3);
		if (v)
			b[0] |= 4;
		while (v) {
			uint8_t x = (uint8_t)((v & 127) << 1);
			v >>= 7;
			if (v)
				x |= 1;
			b.push_back(x);
		}
		break;
	}
	case K_VMCS:
		put(b, f[0] >> 12, 5);
		break;
	case K_MNT:
		put(b, f[0], 8);
		break;
	case K_EXSTOP:
		b[1] |= (uint8_t)(f[0] << 7);
		break;
	case K_MWAIT:
		put(b, f[0], 4);
		put(b, f[1], 4);
		break;
	case K_PWRE:
		put(b, f[2] << 3, 1);
		put(b, f[0] << 4 | f[1], 1);
		break;
	case K_PWRX:
		put(b, f[0] << 4 | f[1], 1);
		put(b, f[2] | f[3] << 2 | f[4] << 3, 1);
		put(b, 0, 3);
		break;
	case K_PTW:
		b[1] |= (uint8_t)(f[1] << 5 | f[2] << 7);
		put(b, f[0], f[1] ? 8 : 4);
		break;
	case K_CFE:
		put(b, f[0] | f[2] << 7, 1);
		put(b, f[1], 1);
		break;
	case K_EVD:
		put(b, f[0], 1);
		put(b, f[1], 8);
		break;
	case K_TRIG:
		put(b, f[0] << 7 | f[1] << 6 | f[2] << 5, 1);
		put(b, f[3], 1);
		if (f[1])
			put(b, f[4], 2);
		break;
	}
	return b;
}

/* Flatten the library's packet. */
inline Pk flat(const struct pt_packet &p)
{
	Pk k;
	k.type = p.type;
	k.size = p.size;
	const Desc *d = desc_of(p.type);
	if (!d)
		return k;
	uint64_t *f = k.f;
	switch (d->kind) {
	case K_NONE:
	case K_PSB:
		break;
	case K_TNT8:
	case K_TNT64:
		f[0] = p.payload.tnt.bit_size;
		f[1] = p.payload.tnt.payload;
		break;
	case K_IP:
		f[0] = p.payload.ip.ipc;
		f[1] = p.payload.ip.ip;
		break;
	case K_MODE:
		f[0] = p.payload.mode.leaf;
		if (p.payload.mode.leaf == pt_mol_exec) {
			f[1] = p.payload.mode.bits.exec.csl;
			f[2] = p.payload.mode.bits.exec.csd;
			f[3] = p.payload.mode.bits.exec.iflag;
		} else {
			f[1] = p.payload.mode.bits.tsx.intx;
			f[2] = p.payload.mode.bits.tsx.abrt;
		}
		break;
	case K_PIP:
		f[0] = p.payload.pip.cr3;
		f[1] = p.payload.pip.nr;
		break;
	case K_TSC:
		f[0] = p.payload.tsc.tsc;
		break;
	case K_CBR:
		f[0] = p.payload.cbr.ratio;
		break;
	case K_TMA:
		f[0] = p.payload.tma.ctc;
		f[1] = p.payload.tma.fc;
		break;
	case K_MTC:
		f[0] = p.payload.mtc.ctc;
		break;
	case K_CYC:
		f[0] = p.payload.cyc.value;
		break;
	case K_VMCS:
		f[0] = p.payload.vmcs.base;
		break;
	case K_MNT:
		f[0] = p.payload.mnt.payload;
		break;
	case K_EXSTOP:
		f[0] = p.payload.exstop.ip;
		break;
	case K_MWAIT:
		f[0] = p.payload.mwait.hints;
		f[1] = p.payload.mwait.ext;
		break;
	case K_PWRE:
		f[0] = p.payload.pwre.state;
		f[1] = p.payload.pwre.sub_state;
		f[2] = p.payload.pwre.hw;
		break;
	case K_PWRX:
		f[0] = p.payload.pwrx.last;
		f[1] = p.payload.pwrx.deepest;
		f[2] = p.payload.pwrx.interrupt;
		f[3] = p.payload.pwrx.store;
		f[4] = p.payload.pwrx.autonomous;
		break;
	case K_PTW:
		f[0] = p.payload.ptw.payload;
		f[1] = p.payload.ptw.plc;
		f[2] = p.payload.ptw.ip;
		break;
	case K_CFE:
		f[0] = p.payload.cfe.type;
		f[1] = p.payload.cfe.vector;
		f[2] = p.payload.cfe.ip;
		break;
	case K_EVD:
		f[0] = p.payload.evd.type;
		f[1] = p.payload.evd.payload;
		break;
	case K_TRIG:
		f[0] = p.payload.trig.ip;
		f[1] = p.payload.trig.icntv;
		f[2] = p.payload.trig.mult;
		f[3] = p.payload.trig.trbv;
		f[4] = p.payload.trig.icntv ? p.payload.trig.icnt : 0;
		break;
	}
	return k;
}

inline void unflat(const Pk &k, struct pt_packet &p)
{
	memset(&p, 0, sizeof(p));
	p.type = (enum pt_packet_type)k.type;
	const Desc *d = desc_of(k.type);
	if (!d)
		return;
	const uint64_t *f = k.f;
	switch (d->kind) {
	case K_NONE:
	case K_PSB:
		break;
	case K_TNT8:
	case K_TNT64:
		p.payload.tnt.bit_size = (uint8_t)f[0];
		p.payload.tnt.payload = f[1];
		break;
	case K_IP:
		p.payload.ip.ipc = (enum pt_ip_compression)f[0];
		p.payload.ip.ip = f[1];
		break;
	case K_MODE:
		p.payload.mode.leaf = (enum pt_mode_leaf)f[0];
		if (f[0] == 0) {
			p.payload.mode.bits.exec.csl = f[1];
			p.payload.mode.bits.exec.csd = f[2];
			p.payload.mode.bits.exec.iflag = f[3];
		} else {
			p.payload.mode.bits.tsx.intx = f[1];
			p.payload.mode.bits.tsx.abrt = f[2];
		}
		break;
	case K_PIP:
		p.payload.pip.cr3 = f[0];
		p.payload.pip.nr = f[1];
		break;
	case K_TSC:
		p.payload.tsc.tsc = f[0];
		break;
	case K_CBR:
		p.payload.cbr.ratio = (uint8_t)f[0];
		break;
	case K_TMA:
		p.payload.tma.ctc = (uint16_t)f[0];
		p.payload.tma.fc = (uint16_t)f[1];
		break;
	case K_MTC:
		p.payload.mtc.ctc = (uint8_t)f[0];
		break;
	case K_CYC:
		p.payload.cyc.value = f[0];
		break;
	case K_VMCS:
		p.payload.vmcs.base = f[0];
		break;
	case K_MNT:
		p.payload.mnt.payload = f[0];
		break;
	case K_EXSTOP:
		p.payload.exstop.ip = f[0];
		break;
	case K_MWAIT:
		p.payload.mwait.hints = (uint32_t)f[0];
		p.payload.mwait.ext = (uint32_t)f[1];
		break;
	case K_PWRE:
		p.payload.pwre.state = (uint8_t)f[0];
		p.payload.pwre.sub_state = (uint8_t)f[1];
		p.payload.pwre.hw = f[2];
		break;
	case K_PWRX:
		p.payload.pwrx.last = (uint8_t)f[0];
		p.payload.pwrx.deepest = (uint8_t)f[1];
		p.payload.pwrx.interrupt = f[2];
		p.payload.pwrx.store = f[3];
		p.payload.pwrx.autonomous = f[4];
		break;
	case K_PTW:
		p.payload.ptw.payload = f[0];
		p.payload.ptw.plc = (uint8_t)f[1];
		p.payload.ptw.ip = f[2];
		break;
	case K_CFE:
		p.payload.cfe.type = (enum pt_cfe_type)f[0];
		p.payload.cfe.vector = (uint8_t)f[1];
		p.payload.cfe.ip = f[2];
		break;
	case K_EVD:
		p.payload.evd.type = (enum pt_evd_type)f[0];
		p.payload.evd.payload = f[1];
		break;
	case K_TRIG:
		p.payload.trig.ip = f[0];
		p.payload.trig.icntv = f[1];
		p.payload.trig.mult = f[2];
		p.payload.trig.trbv = (uint8_t)f[3];
		p.payload.trig.icnt = (uint16_t)f[4];
		break;
	}
}

} // namespace ref
