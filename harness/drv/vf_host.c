/* A program with affairs of its own that uses the tool library.  Arguments: what to do, one after the other.  Writes
 * to ran.log a line for each: the result, and what the program looks like from inside. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mlle_licensing.h"
#include "mlle_error.h"

extern char **environ;
static struct mlle_connections *conns[4];
static pid_t kid;
static const char *ran;
static char line[65536];
static size_t n;
#define ADD(...) do { if (n < sizeof(line)) n += snprintf(line + n, sizeof(line) - n, __VA_ARGS__); } while (0)

static void at_exit(void)
{
    char b[40];
    int f = open(ran, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (write(f, b, sprintf(b, "%d\n", (int)getpid())) < 0) _exit(9);
    close(f);
}
static void handler(int s) { (void)s; }
static void action(int s, siginfo_t *i, void *p) { (void)s; (void)i; (void)p; }

static void look(void)
{
    int i;
    sigset_t m;
    struct itimerval t;
    mode_t u = umask(0);
    unsigned long h = 5381;
    char cwd[4096];
    char **e;
    DIR *d;
    struct dirent *x;
    siginfo_t k;
    umask(u);
    ADD("\"sigs\":[");
    for (i = 1; i < 65; i++) {
        struct sigaction a;
        if (sigaction(i, NULL, &a)) ADD("\"-\"");
        else if (a.sa_flags & SA_SIGINFO) ADD("\"own:%lx:%x\"", (unsigned long)(size_t)a.sa_sigaction, a.sa_flags);
        else ADD(a.sa_handler == SIG_DFL ? "\"default\"" : a.sa_handler == SIG_IGN ? "\"ignored\"" : "\"own:%lx:%x\"", (unsigned long)(size_t)a.sa_handler, a.sa_flags);
        ADD(i < 64 ? "," : "],");
    }
    sigprocmask(SIG_BLOCK, NULL, &m);
    ADD("\"mask\":\"");
    for (i = 1; i < 65; i++) if (sigismember(&m, i) == 1) ADD("%d ", i);
    getitimer(ITIMER_REAL, &t);
    for (e = environ; e && *e; e++) { const char *c; for (c = *e; *c; c++) h = h * 33 + (unsigned char)*c; h = h * 33 + 1; }
    ADD("\",\"timer\":%s,\"umask\":%d,\"env\":\"%lx\",\"cwd\":\"%s\",\"locale\":\"%s\",", t.it_value.tv_sec || t.it_interval.tv_usec ? "true" : "false", (int)u, h,
        getcwd(cwd, sizeof(cwd)) ? cwd : "", setlocale(LC_ALL, NULL));
    /* own child, without collecting it */
    memset(&k, 0, sizeof(k));
    ADD("\"kid\":\"%s\",", !kid ? "none" : waitid(P_PID, kid, &k, WEXITED | WNOWAIT | WNOHANG) ? "lost" : "there");
    ADD("\"fds\":[");
    d = opendir("/proc/self/fd");
    i = 0;
    while ((x = readdir(d))) {
        int f = atoi(x->d_name);
        struct stat s;
        if (x->d_name[0] == '.' || f == dirfd(d) || f == 50 || fstat(f, &s)) continue;
        ADD("%s\"%d:%lx:%lx:%x:%x:%ld\"", i++ ? "," : "", f, (unsigned long)s.st_dev, (unsigned long)s.st_ino, fcntl(f, F_GETFL), fcntl(f, F_GETFD),
            S_ISREG(s.st_mode) && f != 1 && f != 2 ? (long)lseek(f, 0, SEEK_CUR) : 0);
    }
    closedir(d);
    ADD("]");
}
static void tell(const char *op, int ok, int err)
{
    int i, s = 0;
    char *p = line;
    n = 0;
    for (i = 0; i < 4; i++) s += conns[i] != NULL;
    ADD("{\"op\":\"%s\",\"ok\":%s,\"err\":%s,\"sess\":%d,", op, ok ? "true" : "false", err ? "true" : "false", s);
    look();
    ADD("}\n");
    for (i = (int)n; i > 0; ) { int w = (int)write(50, p, i); if (w <= 0) _exit(8); p += w; i -= w; }
}
int main(int c, char **v)
{
    int i, at = 0;
    struct sigaction a;
    struct itimerval t = {{0, 0}, {5000, 0}};
    memset(&a, 0, sizeof(a));
    ran = v[1];
    atexit(at_exit);
    {
        char log[4096];
        int f;
        snprintf(log, sizeof(log), "%s.log", ran);
        f = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (f < 0 || dup3(f, 50, O_CLOEXEC) != 50) return 4;
        close(f);
    }
    for (i = 2; i < c; i++) {
        char *op = v[i], *arg = strchr(op, '=');
        struct mlle_error *e = NULL;
        int ok = 1;
        if (arg) *arg++ = 0; else arg = "";
#define IS(x) (!strcmp(op, x))
        if (IS("begin")) ;
        else if (IS("pipe-own")) { a.sa_handler = handler; a.sa_flags = SA_RESTART; sigaction(SIGPIPE, &a, NULL); continue; }
        else if (IS("pipe-info")) { a.sa_sigaction = action; a.sa_flags = SA_SIGINFO; sigaction(SIGPIPE, &a, NULL); continue; }
        else if (IS("pipe-ignored")) { signal(SIGPIPE, SIG_IGN); continue; }
        else if (IS("chld-own")) { a.sa_handler = handler; a.sa_flags = 0; sigaction(SIGCHLD, &a, NULL); continue; }
        else if (IS("chld-nowait")) { a.sa_handler = SIG_DFL; a.sa_flags = SA_NOCLDSTOP; sigaction(SIGCHLD, &a, NULL); continue; }
        else if (IS("others")) { signal(SIGTERM, handler); signal(SIGINT, SIG_IGN); signal(SIGALRM, handler); signal(SIGUSR1, handler); signal(SIGHUP, SIG_IGN); continue; }
        else if (IS("mask")) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR2); sigaddset(&m, SIGTERM); sigaddset(&m, SIGPIPE); sigprocmask(SIG_BLOCK, &m, NULL); continue; }
        else if (IS("ticks")) {    /* whatever waits in the kernel is interrupted again and again */
            struct itimerval k = {{0, 0}, {0, 0}};
            k.it_interval.tv_usec = k.it_value.tv_usec = atoi(arg);
            a.sa_handler = handler; a.sa_flags = 0;
            sigaction(SIGALRM, &a, NULL);
            setitimer(ITIMER_REAL, &k, NULL);
            continue;
        }
        else if (IS("timer")) { setitimer(ITIMER_REAL, &t, NULL); continue; }
        else if (IS("umask")) { umask(strtol(arg, NULL, 8)); continue; }
        else if (IS("locale")) { setlocale(LC_ALL, arg); continue; }
        else if (IS("open")) { int f = open(arg, O_RDWR | O_CREAT, 0600); if (write(f, "0123456789", 10) == 10) lseek(f, 4, SEEK_SET); continue; }
        else if (IS("read")) { fgetc(stdin); continue; }       /* the rest of what is there is in the buffer now */
        else if (IS("print")) { printf("text %s\n", arg); continue; }
        else if (IS("sleep")) { usleep(atoi(arg) * 1000); continue; }
        else if (IS("kid")) { fflush(stdout); kid = fork(); if (!kid) { usleep(atoi(arg) * 1000); _exit(7); } }
        else if (IS("use")) { at = atoi(arg) % 4; continue; }
        else if (IS("start")) { conns[at] = mlle_start_executable(arg, &e); ok = conns[at] != NULL; }
        else if (IS("free")) mlle_connections_free(&conns[at]);
        else if (!conns[at]) continue;
        else if (IS("version")) ok = mlle_tool_version(conns[at], 1, 1, &e);
        else if (IS("lib")) ok = mlle_tool_libpath(conns[at], arg, &e);
        else if (IS("feature")) ok = mlle_tool_feature(conns[at], arg, &e);
        else if (IS("return")) ok = mlle_tool_returnfeature(conns[at], arg, &e);
        else if (IS("file")) {
            struct mlle_file_contents *f = mlle_tool_file(conns[at], arg, &e);
            char b[1000];
            ok = f != NULL;
            if (f) { while (mlle_tool_read_bytes(f, b, sizeof(b)) + 1 > 1) ; mlle_file_contents_free(&f); }
        } else return 6;
        tell(op, ok, e != NULL);
        mlle_error_free(&e);
    }
    i = -1;
    if (kid) { int s; pid_t p; while ((p = waitpid(kid, &s, 0)) < 0 && errno == EINTR) ; i = p == kid && WIFEXITED(s) ? WEXITSTATUS(s) : -2; }
    { char *b = line; int k = sprintf(line, "{\"op\":\"last\",\"kid\":%d}\n", i); if (write(50, b, k) != k) _exit(8); }
    return 5;
}
