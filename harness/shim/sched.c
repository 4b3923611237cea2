/* Lets threads of a program meet: waits a little (VF_DELAY: at most so many microseconds) before and after the calls
 * between which the tool library has something halfway done. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#define REAL(type, name) static type; if (!real) real = dlsym(RTLD_NEXT, #name)
static void dwell(void)
{
    static __thread unsigned s;
    static int most = -1;
    int e = errno;
    if (most < 0) most = getenv("VF_DELAY") ? atoi(getenv("VF_DELAY")) : 0;
    if (!s) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); s = (unsigned)t.tv_nsec ^ (unsigned)(size_t)&s; }
    if (most && rand_r(&s) % 2) usleep(rand_r(&s) % most);
    errno = e;
}
int pipe(int p[2]) { REAL(int (*real)(int*), pipe); int r; dwell(); r = real(p); dwell(); return r; }
int pipe2(int p[2], int f) { REAL(int (*real)(int*, int), pipe2); int r; dwell(); r = real(p, f); dwell(); return r; }
pid_t fork(void) { REAL(pid_t (*real)(void), fork); pid_t r; dwell(); r = real(); dwell(); return r; }
int close(int f) { REAL(int (*real)(int), close); int r; dwell(); r = real(f); return r; }
int SSL_write(void* s, const void* b, int n) { REAL(int (*real)(void*, const void*, int), SSL_write); int r; dwell(); r = real(s, b, n); dwell(); return r; }
int SSL_read(void* s, void* b, int n) { REAL(int (*real)(void*, void*, int), SSL_read); int r; dwell(); r = real(s, b, n); dwell(); return r; }
int SSL_connect(void* s) { REAL(int (*real)(void*), SSL_connect); int r; dwell(); r = real(s); dwell(); return r; }
int SSL_get_error(const void* s, int n) { REAL(int (*real)(const void*, int), SSL_get_error); dwell(); return real(s, n); }
