/* Makes one file operation of a program fail, the way a full disk, a broken network drive or missing rights do.
 *   VF_FAULT=op:n   the n-th operation of that kind fails (once); op:n+ from the n-th on; op:0 none
 *   VF_FAULT_IN     only operations on paths containing this text (several, separated by '|') count
 *   VF_FAULT_NOT    operations on paths ending in this text do not count
 *   VF_FAULT_LOG    a line "op path" for each operation that was made to fail, "- op path" for the others (if VF_FAULT_ALL)
 *   VF_FAULT_CTL    a file holding the value for VF_FAULT; counting starts again whenever its text changes
 *   VF_NOTYPE       directory entries come without a type, as some file systems give them
 * op: fopenr fopenw fread fwrite fclose opendir readdir mkdir mkdtemp chmod stat getcwd unlink rmdir */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static int count;
static struct { void* f; char path[4200]; int w; } open_[256];
static void keep(void* f, const char* p, int w)
{
    int i;
    for (i = 0; i < 256; i++) if (!open_[i].f) { open_[i].f = f; open_[i].w = w; snprintf(open_[i].path, sizeof open_[i].path, "%s", p); return; }
}
static int find(void* f) { int i; for (i = 0; i < 256; i++) if (open_[i].f == f) return i; return -1; }
static void note(const char* mark, const char* op, const char* p)
{
    const char* l = getenv("VF_FAULT_LOG");
    char b[4400];
    int fd, n;
    if (!l || (fd = open(l, O_WRONLY | O_APPEND | O_CREAT, 0666)) < 0) return;
    n = snprintf(b, sizeof b, "%s%s %s\n", mark, op, p);
    if (write(fd, b, n) < 0) {}
    close(fd);
}
static int fails(const char* op, const char* path)
{
    const char* v = getenv("VF_FAULT"), *in = getenv("VF_FAULT_IN"), *c, *ctl = getenv("VF_FAULT_CTL");
    static char was[100];
    char now[100] = "";
    int fd, e = errno, n, r = 0, more, hit = !in;
    if (ctl && (fd = open(ctl, O_RDONLY)) >= 0) {
        if (read(fd, now, sizeof now - 1) < 0) now[0] = 0;
        close(fd);
        if (strcmp(now, was)) { strcpy(was, now); count = 0; }
        v = now;
    }
    if (!v || !path || !(c = strchr(v, ':'))) return 0;
    while (in && *in && !hit) {
        size_t k = strcspn(in, "|");
        char t[300];
        snprintf(t, sizeof t, "%.*s", (int)k, in);
        hit = strstr(path, t) != NULL;
        in += k + (in[k] == '|');
    }
    in = getenv("VF_FAULT_NOT");
    if (!hit || (in && strlen(path) >= strlen(in) && !strcmp(path + strlen(path) - strlen(in), in))) return 0;
    pthread_mutex_lock(&mx);
    if ((size_t)(c - v) == strlen(op) && !strncmp(v, op, c - v)) {
        n = atoi(c + 1);
        more = strchr(c, '+') != NULL;
        count++;
        r = n > 0 && (count == n || (more && count > n));
    }
    if (r || getenv("VF_FAULT_ALL")) note(r ? "" : "- ", op, path);
    pthread_mutex_unlock(&mx);
    errno = r ? EIO : e;
    return r;
}
static FILE* open_file(const char* p, const char* m, FILE* (*real)(const char*, const char*))
{
    int w = m[0] != 'r';
    FILE* f;
    if (fails(w ? "fopenw" : "fopenr", p)) { errno = w ? ENOSPC : EIO; return NULL; }
    f = real(p, m);
    if (f) keep(f, p, w);
    return f;
}
FILE* fopen(const char* p, const char* m) { REAL(fopen); return open_file(p, m, real); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); return open_file(p, m, real); }
size_t fread(void* b, size_t s, size_t n, FILE* f)
{
    REAL(fread);
    int i = find(f);
    if (i >= 0 && !open_[i].w && fails("fread", open_[i].path)) {
        size_t got = n > 1 ? real(b, s, n / 2, f) : 0;
        fputc(0, f);            /* a stream for reading: sets its error flag */
        errno = EIO;
        return got;
    }
    return real(b, s, n, f);
}
size_t __fread_chk(void* b, size_t len, size_t s, size_t n, FILE* f) { (void)len; return fread(b, s, n, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f)
{
    REAL(fwrite);
    int i = find(f);
    if (i >= 0 && open_[i].w && n && fails("fwrite", open_[i].path)) {
        size_t got = n > 1 ? real(b, s, n / 2, f) : 0;
        fgetc(f);
        errno = ENOSPC;
        return got;
    }
    return real(b, s, n, f);
}
int fclose(FILE* f)
{
    REAL(fclose);
    int i = find(f), r, bad = 0;
    struct stat st;
    if (i >= 0) {
        if (open_[i].w && fails("fclose", open_[i].path)) {     /* what was still in the buffer is lost */
            fflush(f);
            if (!fstat(fileno(f), &st) && ftruncate(fileno(f), st.st_size / 2)) {}
            bad = 1;
        }
        open_[i].f = NULL;
    }
    r = real(f);
    if (bad) { errno = ENOSPC; return EOF; }
    return r;
}
static char dirs[64][4200]; static DIR* dirp[64];
DIR* opendir(const char* p)
{
    REAL(opendir);
    DIR* d;
    int i;
    if (fails("opendir", p)) { errno = EACCES; return NULL; }
    d = real(p);
    for (i = 0; d && i < 64; i++) if (!dirp[i]) { dirp[i] = d; snprintf(dirs[i], sizeof dirs[i], "%s", p); break; }
    return d;
}
int closedir(DIR* d)
{
    REAL(closedir);
    int i;
    for (i = 0; i < 64; i++) if (dirp[i] == d) dirp[i] = NULL;
    return real(d);
}
struct dirent* readdir(DIR* d)
{
    REAL(readdir);
    struct dirent* e;
    int i;
    for (i = 0; i < 64 && dirp[i] != d; i++) ;
    if (i < 64 && fails("readdir", dirs[i])) { errno = EIO; return NULL; }
    e = real(d);
    if (e && getenv("VF_NOTYPE")) e->d_type = DT_UNKNOWN;
    return e;
}
struct dirent64* readdir64(DIR* d)
{
    REAL(readdir64);
    struct dirent64* e;
    int i;
    for (i = 0; i < 64 && dirp[i] != d; i++) ;
    if (i < 64 && fails("readdir", dirs[i])) { errno = EIO; return NULL; }
    e = real(d);
    if (e && getenv("VF_NOTYPE")) e->d_type = DT_UNKNOWN;
    return e;
}
int mkdir(const char* p, mode_t m) { REAL(mkdir); if (fails("mkdir", p)) { errno = ENOSPC; return -1; } return real(p, m); }
char* mkdtemp(char* p) { REAL(mkdtemp); if (fails("mkdtemp", p)) { errno = EACCES; return NULL; } return real(p); }
int chmod(const char* p, mode_t m) { REAL(chmod); if (fails("chmod", p)) { errno = EPERM; return -1; } return real(p, m); }
int stat(const char* p, struct stat* s) { REAL(stat); if (fails("stat", p)) { errno = EIO; return -1; } return real(p, s); }
char* getcwd(char* b, size_t n) { REAL(getcwd); if (fails("getcwd", ".")) { errno = ENOENT; return NULL; } return real(b, n); }
int unlink(const char* p) { REAL(unlink); if (fails("unlink", p)) { errno = EBUSY; return -1; } return real(p); }
int rmdir(const char* p) { REAL(rmdir); if (fails("rmdir", p)) { errno = EBUSY; return -1; } return real(p); }
