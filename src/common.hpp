// Shared harness support: case accounting, violation reporting, watchdog, guard-page buffers.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" {
#include "intel-pt.h"
}

namespace vf {

struct Opt {
	bool thorough = false;
	int shard = 0, nshards = 1;
	uint64_t seed = 1;
	std::string out, cur, scratch, part;
	double deadline = 1e9;
};
inline Opt opt;
inline double t_start;
inline std::map<std::string, uint64_t> counters;
inline std::map<std::string, uint64_t> maxima;
inline std::vector<std::string> samples;
inline std::vector<std::pair<std::string, std::string>> violations;
inline std::map<std::string, int> viol_keys;
inline std::vector<std::string> errors;
inline bool capped = false;
inline bool has_exhaustive = true;
inline char *curbuf; /* shared with the driver: the case being run */
inline volatile uint64_t heartbeat;
static const size_t CURSZ = 65536;

inline double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline bool late()
{
	static uint64_t n;
	if ((++n & 255) == 0 && now() - t_start > opt.deadline)
		capped = true;
	return capped;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
	char b[8192];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof(b), f, ap);
	va_end(ap);
	return b;
}
inline std::string hex(const uint8_t *p, size_t n)
{
	std::string s;
	char b[4];
	for (size_t i = 0; i < n; i++) {
		snprintf(b, sizeof(b), "%02x", p[i]);
		s += b;
		if (i + 1 < n)
			s += ' ';
	}
	return s;
}
inline std::string hex(const std::vector<uint8_t> &v) { return hex(v.data(), v.size()); }

/* Note the current case so that a crash can be attributed. */
inline void cur(const std::string &s)
{
	heartbeat++;
	if (!curbuf)
		return;
	size_t n = s.size() < CURSZ - 16 ? s.size() : CURSZ - 16;
	memcpy(curbuf, s.data(), n);
	memset(curbuf + n, 0, 8);
}
inline void curhex(const char *tag, const uint8_t *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	heartbeat++;
	if (!curbuf)
		return;
	size_t o = 0;
	while (*tag && o < 4096)
		curbuf[o++] = *tag++;
	if (n > 8000)
		n = 8000;
	for (size_t i = 0; i < n; i++) {
		curbuf[o++] = d[p[i] >> 4];
		curbuf[o++] = d[p[i] & 15];
	}
	memset(curbuf + o, 0, 8);
}
inline void beat() { heartbeat++; }

inline std::string jesc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c == '\n')
			r += "\\n";
		else if (c < 32 || c > 126)
			r += fmt("\\u%04x", c);
		else
			r += c;
	}
	return r;
}
/* Distinct outcomes, by hash; merged over all shards by the driver. */
inline std::unordered_set<uint64_t> distincts;
inline void distinct(uint64_t h)
{
	if (distincts.size() < 250000)
		distincts.insert(h);
	else
		counters["distinct_set_full"] = 1;
}
inline void write_out()
{
	FILE *f = fopen(opt.out.c_str(), "w");
	if (!f)
		_exit(3);
	if (FILE *g = fopen((opt.out + ".h").c_str(), "wb")) {
		for (uint64_t h : distincts)
			fwrite(&h, 8, 1, g);
		fclose(g);
	}
	fprintf(f, "{\"violations\":[");
	for (size_t i = 0; i < violations.size(); i++)
		fprintf(f, "%s{\"key\":\"%s\",\"text\":\"%s\"}", i ? "," : "",
			jesc(violations[i].first).c_str(), jesc(violations[i].second).c_str());
	fprintf(f, "],\"errors\":[");
	for (size_t i = 0; i < errors.size(); i++)
		fprintf(f, "%s\"%s\"", i ? "," : "", jesc(errors[i]).c_str());
	fprintf(f, "],\"coverage\":{");
	for (auto &kv : counters)
		fprintf(f, "\"%s\":%llu,", jesc(kv.first).c_str(), (unsigned long long)kv.second);
	for (auto &kv : maxima)
		fprintf(f, "\"max_%s\":%llu,", jesc(kv.first).c_str(),
			(unsigned long long)kv.second);
	fprintf(f, "\"exhaustive\":%s,\"samples\":[", (capped || !has_exhaustive) ? "false" : "true");
	for (size_t i = 0; i < samples.size() && i < 4; i++)
		fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
	fprintf(f, "]}}\n");
	fclose(f);
}
inline void count(const char *k, uint64_t n = 1) { counters[k] += n; }
inline void maxi(const char *k, uint64_t n)
{
	auto &m = maxima[k];
	if (m < n)
		m = n;
}
inline void sample(const std::string &s)
{
	if (samples.size() < 4)
		samples.push_back(s);
}
/* Keep the cases number 1, 10, 100, ... of this shard as samples. */
inline bool want_sample()
{
	static uint64_t n, next = 1;
	if (++n == next && samples.size() < 4) {
		next *= 37;
		return true;
	}
	return false;
}
/* Report a violation.  The key identifies the failing input class. */
inline void viol(const std::string &key, const std::string &text)
{
	if (viol_keys[key]++ >= 3)
		return;
	violations.push_back({key, text});
	if (violations.size() >= 40) {
		count("stopped_after_violations");
		has_exhaustive = false;
		write_out();
		_exit(1);
	}
}
inline void on_tick(int)
{
	static uint64_t last = ~0ull;
	static int same;
	if (heartbeat == last) {
		if (++same >= 4) { /* 20 s of CPU in one case */
			static const char m[] = "\nHANG: no progress in 20 s of CPU time\n";
			(void)!write(2, m, sizeof(m) - 1);
			_exit(97);
		}
	} else {
		same = 0;
		last = heartbeat;
	}
}
inline void init(int argc, char **argv)
{
	if (argc < 9) {
		fprintf(stderr, "bad harness invocation\n");
		exit(3);
	}
	opt.thorough = !strcmp(argv[1], "thorough");
	opt.shard = atoi(argv[2]);
	opt.nshards = atoi(argv[3]);
	opt.seed = strtoull(argv[4], 0, 0);
	opt.out = argv[5];
	opt.cur = argv[6];
	opt.deadline = atof(argv[7]);
	opt.scratch = argv[8];
	if (argc > 9)
		opt.part = argv[9];
	t_start = now();
	int fd = open(opt.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0 && ftruncate(fd, CURSZ) == 0) {
		void *p = mmap(0, CURSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p != MAP_FAILED)
			curbuf = (char *)p;
	}
	if (fd >= 0)
		close(fd);
	signal(SIGPROF, on_tick);
	struct itimerval it = {{5, 0}, {5, 0}};
	setitimer(ITIMER_PROF, &it, 0);
}
inline int finish()
{
	write_out();
	return violations.empty() ? 0 : 1;
}
inline bool mine(uint64_t i) { return (int)(i % (uint64_t)opt.nshards) == opt.shard; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 1099511628211ull;
	return h;
}

/* A buffer whose end abuts an inaccessible page, and whose start can abut one instead. */
struct Guard {
	uint8_t *base;
	size_t cap;
	explicit Guard(size_t pages = 16)
	{
		size_t ps = 4096;
		cap = pages * ps;
		uint8_t *m = (uint8_t *)mmap(0, cap + 2 * ps, PROT_READ | PROT_WRITE,
					     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) {
			fprintf(stderr, "mmap failed\n");
			exit(3);
		}
		mprotect(m, ps, PROT_NONE);
		mprotect(m + ps + cap, ps, PROT_NONE);
		base = m + ps;
	}
	uint8_t *right(const uint8_t *p, size_t n)
	{
		if (n > cap)
			exit(3);
		uint8_t *d = base + cap - n;
		if (n)
			memcpy(d, p, n);
		return d;
	}
	uint8_t *left(const uint8_t *p, size_t n)
	{
		if (n > cap)
			exit(3);
		if (n)
			memcpy(base, p, n);
		return base;
	}
};

inline const char *ename(int rc)
{
	static char b[32];
	static const char *n[] = {"ok","internal","invalid","nosync","bad_opc","bad_packet","bad_context",
		"eos","bad_query","nomem","bad_config","noip","ip_suppressed","nomap","bad_insn",
		"no_time","no_cbr","bad_image","bad_lock","not_supported","retstack_empty",
		"bad_retcomp","bad_status_update","no_enable","event_ignored","overflow","bad_file",
		"bad_cpu"};
	if (rc < 0 && -rc < (int)(sizeof(n) / sizeof(*n)))
		return n[-rc];
	snprintf(b, sizeof(b), "%d", rc);
	return b;
}

} // namespace vf
