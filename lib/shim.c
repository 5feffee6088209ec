#define _GNU_SOURCE
/* The copying reallocation of the engine may move the block and copy only copy_size bytes, but with USE_ZEND_ALLOC=0 it is a plain
 * realloc(), which copies everything: give the extension the least it may rely on. (built with -D_erealloc2=teds_mc_erealloc2) */
#include <stdlib.h>
#include <string.h>
void *teds_mc_erealloc2(void *ptr, size_t size, size_t copy_size)
{
	void *n = malloc(size ? size : 1);
	if (!n) abort();
	if (ptr) { memcpy(n, ptr, copy_size < size ? copy_size : size); free(ptr); }
	return n;
}
/* php dlopen()s extensions with RTLD_DEEPBIND, which the sanitizer runtime refuses: drop that flag. */
#include <dlfcn.h>
void *dlopen(const char *f, int flags)
{
	static void *(*real)(const char *, int);
	if (!real) real = (void *(*)(const char *, int)) dlsym(RTLD_NEXT, "dlopen");
	return real(f, flags & ~RTLD_DEEPBIND);
}
