/* Lets a check decide how much memory is free: whoever opens /proc/meminfo
   gets the file named by VF_MEMINFO instead. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
static const char *to(const char *p) {
    const char *m = getenv("VF_MEMINFO");
    return m && p && !strcmp(p, "/proc/meminfo") ? m : p;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE static int (*f)(const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, "open"); return f(to(p), flags, mode); }
int open64(const char *p, int flags, ...) { MODE static int (*f)(const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, "open64"); return f(to(p), flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE static int (*f)(int, const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, "openat"); return f(d, to(p), flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE static int (*f)(int, const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, "openat64"); return f(d, to(p), flags, mode); }
