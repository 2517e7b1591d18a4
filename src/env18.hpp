// Faults in stdio and locks, on top of env.hpp.
#pragma once
#include "env.hpp"
#include <threads.h>
namespace env18 {
inline long mtxs; /* outstanding mutexes */
}
extern "C" {
size_t __real_fread(void *, size_t, size_t, FILE *);
int __real_fseek(FILE *, long, int);
long __real_ftell(FILE *);
int __real_mtx_init(mtx_t *, int);
void __real_mtx_destroy(mtx_t *);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f)
{
	if (env::fail("fread")) {
		errno = EIO;
		f->_flags |= 0x20; /* the error indicator */
		return 0;
	}
	return __real_fread(p, s, n, f);
}
int __wrap_fseek(FILE *f, long o, int w)
{
	if (env::fail("fseek")) {
		errno = EIO;
		return -1;
	}
	return __real_fseek(f, o, w);
}
long __wrap_ftell(FILE *f)
{
	if (env::fail("ftell")) {
		errno = EIO;
		return -1;
	}
	return __real_ftell(f);
}
int __wrap_mtx_init(mtx_t *m, int t)
{
	if (env::fail("mtx_init"))
		return thrd_error;
	env18::mtxs++;
	return __real_mtx_init(m, t);
}
void __wrap_mtx_destroy(mtx_t *m)
{
	env18::mtxs--;
	__real_mtx_destroy(m);
}
}
