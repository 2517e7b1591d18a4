// Link-time interposition (ld --wrap) on the library's allocations, files and mappings: accounts for
// everything that is outstanding and injects faults at chosen operations.
#pragma once
#include "common.hpp"
#include <errno.h>
#include <stdio.h>
#include <sys/stat.h>

namespace env {
struct St {
	long blocks = 0;    /* outstanding allocations */
	long maps = 0;      /* outstanding mappings */
	long mapbytes = 0;
	long fds = 0;       /* outstanding descriptors */
	long opens = 0;     /* open() calls so far */
	long ops = 0;       /* fault points passed since reset() */
	long fault1 = -1, fault2 = -1, fault3 = -1; /* indices of the operations that fail */
	bool armed = false;
	size_t last = 0;    /* the size of the most recent allocation */
	bool nommap = false; /* all mmap() calls fail */
	int fired = 0;
	const char *what = ""; /* the kind of the first operation that failed */
};
inline St st;
inline std::map<void *, size_t> *mapsz;
inline void reset(long f1 = -1, long f2 = -1, long f3 = -1)
{
	st.ops = 0;
	st.fault1 = f1;
	st.fault2 = f2;
	st.fault3 = f3;
	st.fired = 0;
	st.what = "";
}
inline bool fail(const char *what)
{
	if (!st.armed)
		return false;
	long i = st.ops++;
	if (i == st.fault1 || i == st.fault2 || i == st.fault3) {
		if (!st.fired)
			st.what = what;
		st.fired++;
		return true;
	}
	return false;
}
struct Arm {
	Arm() { st.armed = true; }
	~Arm() { st.armed = false; }
};
inline std::string outstanding()
{
	return vf::fmt("blocks=%ld maps=%ld fds=%ld", st.blocks, st.maps, st.fds);
}
} // namespace env

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
void __real_free(void *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_open(const char *, int, ...);
int __real_close(int);
FILE *__real_fopen(const char *, const char *);
FILE *__real_fdopen(int, const char *);
int __real_fclose(FILE *);
int __real_stat(const char *, struct stat *);
int __real_fstat(int, struct stat *);

void *__wrap_malloc(size_t n)
{
	if (env::fail("malloc"))
		return NULL;
	void *p = __real_malloc(n);
	env::st.last = n;
	if (p) {
		__atomic_add_fetch(&env::st.blocks, 1, __ATOMIC_RELAXED);
		memset(p, 0xa5, n); /* the contents are indeterminate */
	}
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	if (env::fail("calloc"))
		return NULL;
	void *p = __real_calloc(a, b);
	if (p)
		__atomic_add_fetch(&env::st.blocks, 1, __ATOMIC_RELAXED);
	return p;
}
void *__wrap_realloc(void *o, size_t n)
{
	if (env::fail("realloc"))
		return NULL;
	void *p = __real_realloc(o, n);
	if (p && !o)
		__atomic_add_fetch(&env::st.blocks, 1, __ATOMIC_RELAXED);
	return p;
}
char *__wrap_strdup(const char *s)
{
	if (env::fail("strdup"))
		return NULL;
	char *p = __real_strdup(s);
	if (p)
		__atomic_add_fetch(&env::st.blocks, 1, __ATOMIC_RELAXED);
	return p;
}
void __wrap_free(void *p)
{
	if (p)
		__atomic_sub_fetch(&env::st.blocks, 1, __ATOMIC_RELAXED);
	__real_free(p);
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
	if (env::st.nommap || env::fail("mmap")) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	void *p = __real_mmap(a, n, pr, fl, fd, o);
	if (p != MAP_FAILED) {
		__atomic_add_fetch(&env::st.maps, 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&env::st.mapbytes, (long)n, __ATOMIC_RELAXED);
	}
	return p;
}
int __wrap_munmap(void *a, size_t n)
{
	int rc = __real_munmap(a, n);
	if (!rc) {
		__atomic_sub_fetch(&env::st.maps, 1, __ATOMIC_RELAXED);
		__atomic_sub_fetch(&env::st.mapbytes, (long)n, __ATOMIC_RELAXED);
	}
	return rc;
}
int __wrap_open(const char *f, int fl, ...)
{
	if (env::fail("open")) {
		errno = EMFILE;
		return -1;
	}
	__atomic_add_fetch(&env::st.opens, 1, __ATOMIC_RELAXED);
	int fd = __real_open(f, fl, 0600);
	if (fd >= 0)
		__atomic_add_fetch(&env::st.fds, 1, __ATOMIC_RELAXED);
	return fd;
}
int __wrap_close(int fd)
{
	int rc = __real_close(fd);
	if (!rc)
		__atomic_sub_fetch(&env::st.fds, 1, __ATOMIC_RELAXED);
	return rc;
}
FILE *__wrap_fopen(const char *f, const char *m)
{
	if (env::fail("fopen")) {
		errno = EMFILE;
		return NULL;
	}
	FILE *p = __real_fopen(f, m);
	if (p)
		__atomic_add_fetch(&env::st.fds, 1, __ATOMIC_RELAXED);
	return p;
}
FILE *__wrap_fdopen(int fd, const char *m)
{
	if (env::fail("fdopen")) {
		errno = ENOMEM;
		return NULL;
	}
	return __real_fdopen(fd, m); /* takes over the descriptor */
}
int __wrap_fclose(FILE *f)
{
	__atomic_sub_fetch(&env::st.fds, 1, __ATOMIC_RELAXED);
	return __real_fclose(f);
}
int __wrap_stat(const char *f, struct stat *s)
{
	if (env::fail("stat")) {
		errno = EIO;
		return -1;
	}
	return __real_stat(f, s);
}
int __wrap_fstat(int fd, struct stat *s)
{
	if (env::fail("fstat")) {
		errno = EIO;
		return -1;
	}
	return __real_fstat(fd, s);
}
}
