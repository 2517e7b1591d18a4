// C23: processor identification and address filter configuration.
#include "common.hpp"
extern "C" {
int pt_cpu_parse(struct pt_cpu *cpu, const char *s);
int pt_filter_addr_check(const struct pt_conf_addr_filter *filter, uint64_t addr);
}
using namespace vf;

enum { BDM70 = 1, BDM64 = 2, SKD007 = 4, SKD022 = 8, SKD010 = 16, SKL014 = 32, APL12 = 64, APL11 = 128, SKL168 = 256, SKZ84 = 512 };
/* The supported processors and the errata that they suffer from. */
static const struct {
	unsigned family;
	std::set<unsigned> models;
	int errata;
} table[] = {
	{6, {0x3d, 0x47, 0x4f, 0x56}, BDM70 | BDM64},						       /* Broadwell */
	{6, {0x4e, 0x5e, 0x8e, 0x9e, 0xa5, 0xa6}, BDM70 | SKD007 | SKD022 | SKD010 | SKL014 | SKL168}, /* Skylake to Comet Lake */
	{6, {0x55, 0x6a, 0x6c}, BDM70 | SKL014 | SKD022 | SKZ84},				       /* Skylake, Ice Lake server */
	{6, {0x8f, 0xcf, 0xad, 0xae}, BDM70 | SKD022 | SKZ84},					       /* Sapphire to Granite Rapids */
	{0x13, {0x01}, BDM70 | SKD022 | SKZ84},							       /* Diamond Rapids */
	{6, {0x66, 0x7d, 0x7e, 0x8c, 0x8d, 0xa7, 0xa8}, BDM70 | SKL014 | SKD022},		       /* Cannon, Ice, Tiger, Rocket Lake */
	{6, {0x97, 0x9a, 0xba, 0xb7, 0xbf, 0xc5, 0xc6, 0xb5, 0xaa, 0xac, 0xbd, 0xcc}, BDM70 | SKD022 | APL11}, /* Alder Lake and later */
	{6, {0x5c, 0x5f}, APL12 | APL11},							       /* Goldmont */
	{6, {0x7a, 0x86, 0x96, 0x9c, 0xb6, 0xaf, 0xdd}, APL11},					       /* Goldmont Plus and later */
};
static int want(unsigned family, unsigned model)
{
	for (auto &t : table)
		if (t.family == family && t.models.count(model))
			return t.errata;
	return -1;
}
static void errata()
{
	std::vector<uint32_t> vendors = {0, 1, 2, 3, 0x7fffffff, 0xffffffff};
	for (uint32_t vendor : vendors)
		for (unsigned family = 0; family < 65536; family++) {
			if (!mine(family))
				continue;
			bool interesting = family == 6 || family == 0x13;
			int w6[256];
			for (unsigned m = 0; m < 256; m++)
				w6[m] = vendor == pcv_intel && interesting ? want(family, m) : -1;
			for (unsigned model = 0; model < 256; model++)
				for (unsigned stepping = 0; stepping < (interesting || opt.thorough ? 256u : 3u); stepping++) {
					counters["evaluations"]++;
					struct pt_cpu c;
					memset(&c, 0, sizeof(c));
					c.vendor = (enum pt_cpu_vendor)vendor;
					c.family = (uint16_t)family;
					c.model = (uint8_t)model;
					c.stepping = (uint8_t)stepping;
					struct pt_errata e;
					memset(&e, stepping & 1 ? 0xff : 0, sizeof(e));
					int r = pt_cpu_errata(&e, &c);
					int w = w6[model];
					int got = (e.bdm70 ? BDM70 : 0) | (e.bdm64 ? BDM64 : 0) | (e.skd007 ? SKD007 : 0) | (e.skd022 ? SKD022 : 0) |
						  (e.skd010 ? SKD010 : 0) | (e.skl014 ? SKL014 : 0) | (e.apl12 ? APL12 : 0) | (e.apl11 ? APL11 : 0) |
						  (e.skl168 ? SKL168 : 0) | (e.skz84 ? SKZ84 : 0);
					if (w < 0 ? r != -pte_bad_cpu : r || got != w)
						viol("errata", fmt("vendor %u family %#x model %#x stepping %u: returns %d with errata %x instead of %d with %x", vendor,
								   family, model, stepping, r, got, w < 0 ? -pte_bad_cpu : 0, w < 0 ? 0 : w));
					if (w >= 0) {
						for (auto x : e.reserved)
							if (x)
								viol("reserved", "reserved errata are set");
						distinct(((uint64_t)family << 8 | model) << 10 | (uint64_t)got);
					}
				}
			beat();
		}
	struct pt_cpu c = {};
	struct pt_errata e;
	if (pt_cpu_errata(NULL, &c) != -pte_invalid || pt_cpu_errata(&e, NULL) != -pte_invalid)
		viol("null", "pt_cpu_errata accepts NULL");
}

/* The number at @s as written in C; -1: not a number, -2: no opinion. */
static long long number(const std::string &s)
{
	if (s.empty())
		return -1;
	if (s[0] == ' ' || s[0] == '+' || s[0] == '\t')
		return -2;
	if (s[0] == '-') /* negative, but no opinion on minus zero */
		return s[1] == '-' || number(s.substr(1)) != 0 ? -1 : -2;
	unsigned base = 10;
	size_t i = 0;
	if (s[0] == '0' && s.size() > 1) {
		base = 8;
		i = 1;
		if (s[1] == 'x' || s[1] == 'X') {
			base = 16;
			i = 2;
			if (s.size() == 2)
				return -1;
		}
	}
	long long v = 0;
	for (; i < s.size(); i++) {
		int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
		if (d >= (int)base)
			return -1;
		v = v * base + d;
		if (v > 1000000)
			v = 1000000;
	}
	return v;
}
static void parse1(const std::string &s)
{
	count("evaluations");
	std::vector<std::string> p = {""};
	for (char ch : s)
		if (ch == '/')
			p.push_back("");
		else
			p.back() += ch;
	bool ok = p.size() == 2 || p.size() == 3, opinion = true;
	long long v[3] = {0, 0, 0};
	for (size_t i = 0; i < p.size() && i < 3; i++) {
		v[i] = number(p[i]);
		if (v[i] == -2)
			opinion = false;
		if (v[i] < 0 || v[i] > (i ? 255 : 65535))
			ok = false;
	}
	struct pt_cpu c, orig;
	memset(&c, 0x5a, sizeof(c));
	orig = c;
	char *z = strdup(s.c_str());
	cur("parse '" + s + "'");
	int r = pt_cpu_parse(&c, z);
	free(z);
	if (!opinion)
		return;
	if (ok) {
		if (r || c.vendor != pcv_intel || c.family != v[0] || c.model != v[1] || c.stepping != v[2])
			viol("parse", fmt("'%s' gives %d, vendor %d %u/%u/%u instead of %lld/%lld/%lld", s.c_str(), r, c.vendor, c.family, c.model, c.stepping, v[0],
					  v[1], v[2]));
		distinct((uint64_t)v[0] << 16 | (uint64_t)v[1] << 8 | (uint64_t)v[2]);
	} else {
		if (r != -pte_invalid)
			viol("parse-accepts", fmt("'%s' gives %d, %u/%u/%u", s.c_str(), r, c.family, c.model, c.stepping));
		else if (memcmp(&c, &orig, sizeof(c)))
			viol("parse-changes", fmt("'%s' is refused, but changes the result", s.c_str()));
	}
}
static void parse()
{
	static const char A[] = "0169/xa- 8";
	size_t maxl = opt.thorough ? 8 : 7;
	uint64_t id = 0;
	std::function<void(std::string &)> rec = [&](std::string &s) {
		if (s.size() == 3 && !mine(id++))
			return;
		if (s.size() >= 3 || opt.shard == 0)
			parse1(s);
		if (s.size() == maxl || late())
			return;
		for (size_t i = 0; i < sizeof(A) - 1; i++) {
			s.push_back(A[i]);
			rec(s);
			s.pop_back();
		}
	};
	std::string s;
	rec(s);
	/* Around the limits of each number. */
	std::vector<std::string> n = {"0", "1", "6", "19", "0x13", "023", "255", "256", "0xff", "0x100", "0377", "0400", "65535", "65536", "0xffff", "0x10000", "0177777",
				      "0200000", "4294967296", "4294967302", "18446744073709551622", "99999999999999999999999", "-1", "-0", "0xFFFFFFFFFFFFFFFF",
				      "", "6x", "x6", "6 ", "0x", "08", "1e1", "6.0", "6,0", "9223372036854775807", "9223372036854775808"};
	for (auto &a : n)
		for (auto &b : n)
			for (auto &c : n)
				for (auto t : {"", "/", "/1", "x"}) {
					if (!mine(id++))
						continue;
					if (a.find('-') != std::string::npos && a == "-0")
						continue; /* no opinion on minus zero */
					if (b == "-0" || c == "-0")
						continue;
					parse1(a + "/" + b + "/" + c + t);
					parse1(a + "/" + b + t);
				}
	for (unsigned f = 0; f < 66000; f++) {
		if (!mine(f))
			continue;
		parse1(fmt("%u/%u", f, f & 255));
		parse1(fmt("%#x/%#x/%#x", f, f & 255, f >> 8));
		parse1(fmt("%#o/%#o/%u", f & 255, f >> 8, f & 511));
		parse1(fmt("6/%u/%u", f >> 8 & 255, f & 255));
	}
}

static void filter()
{
	static const uint64_t R[][2] = {{0x1000, 0x2000}, {0x1800, 0x2800}, {0x2000, 0x2000}, {0x3000, 0x1000}, {0, ~0ull}, {~0ull, ~0ull}, {0, 0},
					{0xffffffff80000000ull, 0xffffffffffffffffull}, {0x2001, 0x3000}};
	std::set<uint64_t> at;
	for (auto &r : R)
		for (uint64_t x : r)
			for (int d = -1; d <= 1; d++)
				at.insert(x + (uint64_t)d);
	std::vector<int> cfgs = {0, 1, 2, 3, 15};
	if (opt.thorough)
		cfgs = {0, 1, 2, 3, 4, 9, 10, 15};
	size_t nr = opt.thorough ? 9 : 7, nc = cfgs.size();
	uint64_t id = 0;
	uint64_t total = 1;
	for (int i = 0; i < 4; i++)
		total *= nr * nc;
	for (uint64_t k = 0; k < total; k++) {
		if ((k & 1023) == 0) {
			beat();
			if (late())
				return;
		}
		if (!mine(id++ >> 10))
			continue;
		struct pt_conf_addr_filter f;
		memset(&f, 0, sizeof(f));
		memset(f.reserved, 0xa5, sizeof(f.reserved));
		uint64_t x = k;
		int cfg[4];
		const uint64_t *r[4];
		bool skip = false;
		for (int i = 0; i < 4; i++) {
			cfg[i] = cfgs[x % nc];
			x /= nc;
			r[i] = R[x % nr];
			if (!cfg[i] && x % nr > 1)
				skip = true; /* unused */
			x /= nr;
			f.config.addr_cfg |= (uint64_t)cfg[i] << (4 * i);
		}
		if (skip)
			continue;
		f.addr0_a = r[0][0];
		f.addr0_b = r[0][1];
		f.addr1_a = r[1][0];
		f.addr1_b = r[1][1];
		f.addr2_a = r[2][0];
		f.addr2_b = r[2][1];
		f.addr3_a = r[3][0];
		f.addr3_b = r[3][1];
		uint64_t h = 0;
		for (uint64_t a : at) {
			counters["evaluations"]++;
			bool any = false, in = false, stop = false;
			for (int i = 0; i < 4; i++) {
				bool hit = r[i][0] <= a && a <= r[i][1];
				if (cfg[i] == 1) {
					any = true;
					in |= hit;
				}
				if (cfg[i] == 2)
					stop |= hit;
			}
			int want = !stop && (in || !any);
			int got = pt_filter_addr_check(&f, a);
			h = h * 3 + (uint64_t)want;
			if (got < 0 || !!got != want)
				viol("filter", fmt("ADDRn_CFG %llx ranges %llx-%llx %llx-%llx %llx-%llx %llx-%llx: address %llx gives %d", (unsigned long long)f.config.addr_cfg,
						   (unsigned long long)r[0][0], (unsigned long long)r[0][1], (unsigned long long)r[1][0], (unsigned long long)r[1][1],
						   (unsigned long long)r[2][0], (unsigned long long)r[2][1], (unsigned long long)r[3][0], (unsigned long long)r[3][1],
						   (unsigned long long)a, got));
		}
		distinct(h);
	}
}

int main(int argc, char **argv)
{
	init(argc, argv);
	if (opt.part == "errata")
		errata();
	else if (opt.part == "parse")
		parse();
	else
		filter();
	return finish();
}
