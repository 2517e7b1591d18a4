// Instruction length and class from the x86 encoding (Intel SDM vol. 2, opcode maps), independent of
// libipt's tables.
#pragma once
#include <cstdint>
#include <cstring>
extern "C" {
#include "intel-pt.h"
}
namespace refild {
enum Status { ok, undef, more, toolong };
enum Bind { b_none = 0, b_cr3 = 1, b_vmcs = 2, b_iret = 4, b_vmentry = 8, b_uiret = 16 };
struct Ref {
	Status st = undef;
	int len = 0;                 /* valid if st is ok */
	enum pt_insn_class cls = ptic_other;
	bool clsknown = true;
	bool direct = false;         /* near branch with a displacement, relative to the end */
	int64_t disp = 0;
	bool far = false;
	int bind = 0;
};
enum { M16, M32, M64 };

struct D {
	const uint8_t *b;
	int n, p = 0;
	int mode;
	bool osz = false, asz = false, lock = false, f2 = false, f3 = false;
	uint8_t rex = 0;
	int vex = 0; /* 1 VEX, 2 EVEX */
	bool rex2 = false, w = false, r = false;
	int map = 0;
	uint8_t op = 0, modrm = 0;
	bool short_ = false;
	int at(int i)
	{
		if (i >= n) {
			short_ = true;
			return 0;
		}
		return b[i];
	}
	int mod() { return modrm >> 6; }
	int reg() { return (modrm >> 3) & 7; }
	int rm() { return modrm & 7; }
	int eosz()
	{
		if (mode == M64)
			return w ? 64 : osz ? 16 : 32;
		return (mode == M32) != osz ? 32 : 16;
	}
	int easz()
	{
		if (mode == M64)
			return asz ? 32 : 64;
		return (mode == M32) != asz ? 32 : 16;
	}
	int immz() { return eosz() == 16 ? 2 : 4; }
	/* number of bytes of ModRM, SIB, and displacement */
	int mem(bool ignore_mod = false)
	{
		modrm = (uint8_t)at(p);
		if (short_)
			return 0;
		if (mod() == 3 || ignore_mod)
			return 1;
		if (easz() == 16) {
			if (mod() == 0)
				return rm() == 6 ? 3 : 1;
			return mod() == 1 ? 2 : 3;
		}
		int k = 1, base = rm();
		if (rm() == 4) {
			base = at(p + 1) & 7;
			if (short_)
				return 0;
			k = 2;
		}
		if (mod() == 0)
			return base == 5 ? k + 4 : k;
		return mod() == 1 ? k + 1 : k + 4;
	}
	int64_t rd(int at_, int sz)
	{
		uint64_t v = 0;
		for (int i = 0; i < sz; i++)
			v |= (uint64_t)at(at_ + i) << (8 * i);
		if (sz == 1)
			return (int8_t)v;
		if (sz == 2)
			return (int16_t)v;
		if (sz == 4)
			return (int32_t)v;
		return (int64_t)v;
	}
};

static inline bool in(int x, int a, int b) { return a <= x && x <= b; }

/* Legacy maps 0 and 1, also used for REX2.  Returns false if we do not know. */
static inline bool legacy0(D &d, Ref &o, int &imm)
{
	int op = d.op;
	bool m64 = d.mode == M64;
	auto modrm = [&] { d.p += d.mem(); };
	auto rel = [&](int sz) {
		o.direct = true;
		o.disp = d.rd(d.p, sz);
		imm = sz;
	};
	int relz = m64 ? 4 : d.immz();
	if (op < 0x40) {
		switch (op & 7) {
		case 0: case 1: case 2: case 3: modrm(); break;
		case 4: imm = 1; break;
		case 5: imm = d.immz(); break;
		default:
			if (m64)
				return false; /* push/pop of segments, decimal adjust */
		}
		return true;
	}
	if (op < 0x50)
		return !m64; /* inc, dec */
	if (op < 0x60)
		return true; /* push, pop */
	if (in(op, 0x70, 0x7f)) {
		rel(1);
		o.cls = ptic_cond_jump;
		return true;
	}
	switch (op) {
	case 0x60: case 0x61: return !m64;
	case 0x62:
		modrm();
		return !m64 && d.mod() != 3;
	case 0x63: modrm(); return true;
	case 0x68: imm = d.immz(); return true;
	case 0x69: modrm(); imm = d.immz(); return true;
	case 0x6a: imm = 1; return true;
	case 0x6b: modrm(); imm = 1; return true;
	case 0x6c: case 0x6d: case 0x6e: case 0x6f: return true;
	case 0x80: case 0x83: modrm(); imm = 1; return true;
	case 0x82: modrm(); imm = 1; return !m64;
	case 0x81: modrm(); imm = d.immz(); return true;
	case 0x84: case 0x85: case 0x86: case 0x87: case 0x88: case 0x89: case 0x8a: case 0x8b: modrm(); return true;
	case 0x8c: modrm(); return d.reg() < 6;
	case 0x8e: modrm(); return d.reg() < 6 && d.reg() != 1;
	case 0x8d: modrm(); return d.mod() != 3;
	case 0x8f: modrm(); return d.reg() == 0;
	case 0x9a:
		imm = d.immz() + 2;
		o.cls = ptic_far_call;
		return !m64;
	case 0xa0: case 0xa1: case 0xa2: case 0xa3: imm = d.easz() / 8; return true;
	case 0xa8: imm = 1; return true;
	case 0xa9: imm = d.immz(); return true;
	case 0xc0: case 0xc1: modrm(); imm = 1; return true;
	case 0xc2: imm = 2; o.cls = ptic_return; return true;
	case 0xc3: o.cls = ptic_return; return true;
	case 0xc4: case 0xc5: modrm(); return !m64 && d.mod() != 3;
	case 0xc6: modrm(); imm = 1; return d.reg() == 0 || d.modrm == 0xf8;
	case 0xc7:
		modrm();
		imm = d.immz();
		return d.reg() == 0 || d.modrm == 0xf8; /* mov, xbegin */
	case 0xc8: imm = 3; return true;
	case 0xc9: return true;
	case 0xca: imm = 2; o.cls = ptic_far_return; return true;
	case 0xcb: o.cls = ptic_far_return; return true;
	case 0xcc: o.cls = ptic_far_call; return true;
	case 0xcd: imm = 1; o.cls = ptic_far_call; return true;
	case 0xce: o.cls = ptic_far_call; return !m64;
	case 0xcf: o.cls = ptic_far_return; o.bind = b_iret; return true;
	case 0xd0: case 0xd1: case 0xd2: case 0xd3: modrm(); return true;
	case 0xd4: imm = 1; return !m64;
	case 0xd5: imm = 1; return !m64;
	case 0xd6: return false;
	case 0xd8: case 0xd9: case 0xda: case 0xdb: case 0xdc: case 0xdd: case 0xde: case 0xdf: modrm(); return true;
	case 0xe0: case 0xe1: case 0xe2: case 0xe3: rel(1); o.cls = ptic_cond_jump; return true;
	case 0xe4: case 0xe5: case 0xe6: case 0xe7: imm = 1; return true;
	case 0xe8: rel(relz); o.cls = ptic_call; return true;
	case 0xe9: rel(relz); o.cls = ptic_jump; return true;
	case 0xea: imm = d.immz() + 2; o.cls = ptic_far_jump; return !m64;
	case 0xeb: rel(1); o.cls = ptic_jump; return true;
	case 0xf1: o.cls = ptic_far_call; return true;
	case 0xf6: modrm(); imm = d.reg() < 2 ? 1 : 0; return d.reg() != 1;
	case 0xf7: modrm(); imm = d.reg() < 2 ? d.immz() : 0; return d.reg() != 1;
	case 0xfe: modrm(); return d.reg() < 2;
	case 0xff:
		modrm();
		switch (d.reg()) {
		case 2: o.cls = ptic_call; return true;
		case 3: o.cls = ptic_far_call; return d.mod() != 3;
		case 4: o.cls = ptic_jump; return true;
		case 5: o.cls = ptic_far_jump; return d.mod() != 3;
		case 7: return false;
		}
		return true;
	}
	if (in(op, 0xb0, 0xb7))
		imm = 1;
	if (in(op, 0xb8, 0xbf))
		imm = d.eosz() / 8;
	if (in(op, 0x90, 0x9f) || in(op, 0xa4, 0xaf) || in(op, 0xb0, 0xbf) || op == 0xd7 || in(op, 0xec, 0xef) ||
	    op == 0xf4 || op == 0xf5 || in(op, 0xf8, 0xfd))
		return true;
	return false;
}

static inline bool legacy1(D &d, Ref &o, int &imm)
{
	int op = d.op;
	bool m64 = d.mode == M64, np = !d.osz && !d.f2 && !d.f3;
	auto modrm = [&] { d.p += d.mem(); };
	if (d.f2 && d.f3)
		o.clsknown = false;
	if (in(op, 0x80, 0x8f)) {
		int sz = m64 ? 4 : d.immz();
		o.direct = true;
		o.disp = d.rd(d.p, sz);
		imm = sz;
		o.cls = ptic_cond_jump;
		return true;
	}
	switch (op) {
	case 0x00: modrm(); return true;
	case 0x01:
		modrm();
		if (d.mod() != 3)
			return true;
		switch (d.modrm) {
		case 0xc1: o.cls = ptic_far_call; o.clsknown = np; break;
		case 0xc2: case 0xc3: o.cls = ptic_far_return; o.bind = b_vmentry | b_cr3 | b_vmcs; o.clsknown = np; break;
		case 0xca:
			if (d.f2 != d.f3) {
				o.cls = ptic_far_return;
				o.bind = b_iret;
				if (!m64 || d.osz)
					o.clsknown = false;
			} else if (!np)
				o.clsknown = false;
			break;
		case 0xec:
			if (d.f3 && !d.f2) {
				o.cls = ptic_far_return;
				o.bind = b_uiret;
			}
			if (!m64 || d.osz || d.f2 || !d.f3)
				o.clsknown = false;
			break;
		case 0xee: case 0xef: o.clsknown = np; break;
		default:
			if (in(d.modrm, 0xd8, 0xdf) || !np)
				o.clsknown = false;
		}
		return true;
	case 0x02: case 0x03: modrm(); return true;
	case 0x05: o.cls = ptic_far_call; o.clsknown = m64 && np; return true;
	case 0x07: o.cls = ptic_far_return; o.bind = b_iret; o.clsknown = m64 && np; return true;
	case 0x06: case 0x08: case 0x09: case 0x0b: return true;
	case 0x0d: modrm(); return true;
	case 0x20: case 0x21: case 0x22: case 0x23:
		d.p += d.mem(true);
		if (op == 0x22 && d.reg() == 3 && !d.r) {
			o.bind = b_cr3;
			o.clsknown = np;
		}
		if (op == 0x20 || op == 0x22) /* CR0, 2, 3, 4, 8 */
			return d.r ? d.reg() == 0 : d.reg() == 0 || in(d.reg(), 2, 4);
		return !d.r;
	case 0x30: case 0x31: case 0x32: case 0x33: case 0x37: o.clsknown = op != 0x37; return true;
	case 0x34: o.cls = ptic_far_call; o.clsknown = np; return true;
	case 0x35: o.cls = ptic_far_return; o.bind = b_iret; o.clsknown = np; return true;
	case 0x70: case 0xc2: case 0xc4: case 0xc5: case 0xc6: modrm(); imm = 1; return true;
	case 0x71: case 0x72:
		modrm();
		imm = 1;
		return d.mod() == 3 && (d.reg() == 2 || d.reg() == 4 || d.reg() == 6);
	case 0x73:
		modrm();
		imm = 1;
		return d.mod() == 3 && (d.reg() == 2 || d.reg() == 3 || d.reg() == 6 || d.reg() == 7);
	case 0x77: return true;
	case 0x78: case 0x79: modrm(); return np;
	case 0xa0: case 0xa1: case 0xa2: case 0xa8: case 0xa9: return true;
	case 0xaa: o.clsknown = false; return true; /* rsm */
	case 0xa4: case 0xac: modrm(); imm = 1; return true;
	case 0xae:
		modrm();
		if (d.reg() == 4) {
			if (np)
				return d.mod() != 3;
			if (d.f3 && !d.f2 && !d.osz) {
				o.cls = ptic_ptwrite;
				return true;
			}
			return false;
		}
		return true;
	case 0xb8: modrm(); return d.f3;
	case 0xba: modrm(); imm = 1; return d.reg() >= 4;
	case 0xc7:
		modrm();
		if (d.reg() == 6 && d.mod() != 3) {
			o.bind = np ? b_vmcs : 0;
			if (d.f2)
				o.clsknown = false;
		}
		return d.reg() != 0 && d.reg() != 2;
	}
	if (op == 0x36 || in(op, 0x38, 0x3f) || in(op, 0x24, 0x27) || op == 0x04 || op == 0x0a || op == 0x0c ||
	    op == 0x0e || op == 0x0f || op == 0x7a || op == 0x7b || op == 0xa6 || op == 0xa7 || op == 0xb9 || op == 0xff)
		return false;
	if (in(op, 0xc8, 0xcf))
		return true; /* bswap */
	modrm();
	return true;
}

static inline bool lockable(D &d)
{
	if (d.vex || d.mod() == 3)
		return false;
	int op = d.op, r = d.reg();
	if (d.map == 0) {
		if (op < 0x38 && (op & 6) == 0)
			return true;
		return ((op == 0x80 || op == 0x81 || op == 0x83) && r != 7) || op == 0x86 || op == 0x87 ||
		       ((op == 0xf6 || op == 0xf7) && (r == 2 || r == 3)) || ((op == 0xfe || op == 0xff) && r < 2);
	}
	if (d.map == 1)
		return op == 0xab || op == 0xb3 || op == 0xbb || op == 0xb0 || op == 0xb1 || op == 0xc0 || op == 0xc1 ||
		       (op == 0xba && r > 4) || (op == 0xc7 && r == 1);
	return false;
}

static inline Ref decode(const uint8_t *b, int n, int mode)
{
	Ref o;
	D d;
	d.b = b;
	d.n = n;
	d.mode = mode;
	bool m64 = mode == M64, have = false, lockref = false;
	int imm = 0;
	if (n > 15)
		d.n = n = 15;
	for (;;) {
		int c = d.at(d.p);
		if (d.short_)
			goto out;
		bool pfx = true;
		switch (c) {
		case 0x66: d.osz = true; break;
		case 0x67: d.asz = true; break;
		case 0xf0: d.lock = true; break;
		case 0xf2: d.f2 = true; break;
		case 0xf3: d.f3 = true; break;
		case 0x26: case 0x2e: case 0x36: case 0x3e: case 0x64: case 0x65: break;
		default: pfx = false;
		}
		if (pfx) {
			d.rex = 0;
			d.p++;
			continue;
		}
		if (m64 && (c & 0xf0) == 0x40) {
			d.rex = (uint8_t)c;
			d.p++;
			continue;
		}
		break;
	}
	d.op = (uint8_t)d.at(d.p);
	if (m64 && d.op == 0xd5) {
		int pl = d.at(d.p + 1), op = d.at(d.p + 2);
		if (d.short_)
			goto out;
		d.p += 3;
		d.rex2 = true;
		d.w = (pl >> 3) & 1;
		d.r = ((pl >> 2) & 1) || ((pl >> 6) & 1);
		d.map = pl >> 7;
		d.op = (uint8_t)op;
		if (d.rex)
			return o;
		if (d.map == 0) {
			if (op == 0xa1) {
				if (d.w || d.osz || d.asz || d.f2 || d.f3 || d.lock)
					return o;
				o.cls = ptic_jump;
				imm = 8;
				have = true;
				goto imm;
			}
			int row = op >> 4;
			if (row == 4 || row == 7 || row == 0xa || row == 0xe || op == 0x0f || op == 0x26 || op == 0x2e || op == 0x36 ||
			    op == 0x3e || op == 0x64 || op == 0x65 || op == 0x66 || op == 0x67 || op == 0xf0 || op == 0xf2 || op == 0xf3 ||
			    op == 0xc4 || op == 0xc5 || op == 0x62 || op == 0xd5)
				return o;
			have = legacy0(d, o, imm);
		} else {
			int row = op >> 4;
			if (row == 3 || row == 8)
				return o;
			have = legacy1(d, o, imm);
		}
		goto imm;
	}
	if (d.op == 0xc4 || d.op == 0xc5 || d.op == 0x62) {
		int p1 = d.at(d.p + 1);
		if (d.short_)
			goto out;
		if (m64 || (p1 & 0xc0) == 0xc0) {
			bool bad = d.osz || d.f2 || d.f3 || d.lock || d.rex;
			int pp, plen = d.op == 0xc5 ? 2 : d.op == 0xc4 ? 3 : 4;
			int op = d.at(d.p + plen);
			if (d.short_)
				goto out;
			if (d.op == 0xc5) {
				d.vex = 1;
				d.map = 1;
				pp = p1 & 3;
				d.w = false;
			} else if (d.op == 0xc4) {
				int p2 = d.at(d.p + 2);
				d.vex = 1;
				d.map = p1 & 0x1f;
				d.w = p2 >> 7;
				pp = p2 & 3;
			} else {
				int p2 = d.at(d.p + 2);
				d.vex = 2;
				d.map = p1 & 7;
				d.w = p2 >> 7;
				pp = p2 & 3;
			}
			if (bad)
				return o;
			d.osz = pp == 1;
			d.f3 = pp == 2;
			d.f2 = pp == 3;
			d.p += plen + 1;
			d.op = (uint8_t)op;
			auto modrm = [&] { d.p += d.mem(); };
			if (d.map == 1) {
				bool def;
				if (d.vex == 1)
					def = in(op, 0x10, 0x17) || in(op, 0x28, 0x2f) || op == 0x41 || op == 0x42 || in(op, 0x44, 0x47) ||
					      op == 0x4a || op == 0x4b || in(op, 0x50, 0x77) || in(op, 0x7c, 0x7f) || in(op, 0x90, 0x93) ||
					      op == 0x98 || op == 0x99 || op == 0xae || op == 0xc2 || in(op, 0xc4, 0xc6) || in(op, 0xd0, 0xfe);
				else
					def = in(op, 0x10, 0x17) || in(op, 0x28, 0x2f) || op == 0x51 || in(op, 0x54, 0x76) || in(op, 0x78, 0x7b) || (m64 && in(op, 0x90, 0x93)) ||
					      op == 0x7e || op == 0x7f || op == 0xc2 || in(op, 0xc4, 0xc6) || in(op, 0xd1, 0xd6) ||
					      in(op, 0xd8, 0xef) || in(op, 0xf1, 0xf7) || in(op, 0xf8, 0xfe);
				if (!def)
					return o;
				if (d.vex == 1 && op == 0x77) {
					have = true;
					goto imm;
				}
				modrm();
				if (in(op, 0x70, 0x73) || op == 0xc2 || in(op, 0xc4, 0xc6))
					imm = 1;
				have = true;
			} else if (d.map == 2) {
				modrm();
				have = true;
			} else if (d.map == 3) {
				modrm();
				imm = 1;
				have = true;
			} else if (d.map == 7 && op == 0xf8 && m64) {
				modrm();
				imm = 4;
				have = d.short_ || d.mod() == 3;
			} else if (d.vex == 2 && (d.map == 5 || d.map == 6)) {
				modrm();
				have = true;
			} else if (d.vex == 2 && d.map == 4 && m64) {
				modrm();
				have = true;
				if (op < 0x38 && (op & 7) < 4)
					;
				else if (op == 0x24 || op == 0x2c || op == 0x80 || op == 0x83 || op == 0xc0 || op == 0xc1 || op == 0x6b)
					imm = 1;
				else if (op == 0x69 || op == 0x81)
					imm = d.immz();
				else if (op == 0xf6)
					imm = d.reg() < 2 ? 1 : 0;
				else if (op == 0xf7)
					imm = d.reg() < 2 ? d.immz() : 0;
				else if (in(op, 0x40, 0x4f) || op == 0x84 || op == 0x85 || op == 0x88 || op == 0xa5 || op == 0xad || op == 0xaf ||
					 in(op, 0xd0, 0xd3) || op == 0xf4 || op == 0xf5 || op == 0xfe || op == 0xff)
					;
				else
					have = false;
			} else
				return o;
			goto imm;
		}
	}
	d.w = d.rex >> 3 & 1;
	d.r = d.rex >> 2 & 1;
	d.p++;
	if (d.op == 0x0f) {
		d.op = (uint8_t)d.at(d.p);
		if (d.short_)
			goto out;
		d.p++;
		if (d.op == 0x38 || d.op == 0x3a) {
			d.map = d.op == 0x38 ? 2 : 3;
			imm = d.map == 3;
			d.op = (uint8_t)d.at(d.p);
			if (d.short_)
				goto out;
			d.p++;
			d.p += d.mem();
			have = true;
			goto imm;
		}
		d.map = 1;
		have = legacy1(d, o, imm);
	} else
		have = legacy0(d, o, imm);
imm:
	if (d.short_)
		goto out;
	lockref = d.lock && !lockable(d);
	d.p += imm;
	if (d.p > n)
		d.short_ = true;
	else if (!have || lockref)
		return o;
out:
	if (d.short_) {
		o.st = n >= 15 ? toolong : more;
		o.len = 0;
		return o;
	}
	o.st = ok;
	o.len = d.p;
	return o;
}
} // namespace refild
