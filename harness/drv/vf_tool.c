/* Drives the tool library: one command per input line, one result per line.
 * VF_THREADS=in:out,in:out.. (descriptors): a thread for each pair, with sessions of its own;
 * VF_WAITS: and one that waits for input that never comes. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "mlle_licensing.h"
#include "mlle_error.h"

#define SLOTS 8
#define CONNS 4
static __thread struct mlle_connections *conns[CONNS];
static __thread int cur;
#define conn conns[cur]
static __thread struct mlle_file_contents *fc[SLOTS];
static __thread FILE *out;

static char *unhex(const char *h, size_t *n)
{
    size_t len = strlen(h) / 2, i;
    char *b = malloc(len + 1);
#define NIBBLE(c) ((c) <= '9' ? (c) - '0' : ((c) | 32) - 'a' + 10)
    for (i = 0; i < len; i++) b[i] = (char)(NIBBLE(h[2 * i]) * 16 + NIBBLE(h[2 * i + 1]));
    b[len] = 0;
    if (n) *n = len;
    return b;
}
static void puthex(const char *b, size_t n)
{
    static const char d[] = "0123456789abcdef";
    size_t i;
    for (i = 0; i < n; i++) { fputc(d[((unsigned char)b[i]) >> 4], out); fputc(d[b[i] & 15], out); }
}
static void report(const char *op, int ok, struct mlle_error *e)
{
    fprintf(out, "%s %s ", op, ok ? "ok" : "fail");
    if (e) {
        char *m = mlle_error_get_message(e);
        fprintf(out, "%d %d [", mlle_error_get_domain(e), mlle_error_get_code(e));
        if (m) puthex(m, strlen(m));
        fprintf(out, "]");
    } else
        fprintf(out, "none");
    fputc('\n', out);
    fflush(out);
    mlle_error_free(&e);
}
static void serve(FILE *in)
{
    char *line = malloc(1 << 22), *more;
    while (fgets(line, 1 << 22, in)) {
        char *op = strtok_r(line, " \n", &more), *a = strtok_r(NULL, " \n", &more), *b = strtok_r(NULL, " \n", &more);
        struct mlle_error *e = NULL, **pe = getenv("VF_NOERR") ? NULL : &e;     /* a caller need not ask for the error */
        char *s = NULL;
        if (!op) continue;
        if (!strcmp(op, "quit")) break;
        if (!conn && (!strcmp(op, "version") || !strcmp(op, "lib") || !strcmp(op, "feature") || !strcmp(op, "retfeature") ||
                      !strcmp(op, "license") || !strcmp(op, "retlicense") || !strcmp(op, "file"))) {
            fprintf(out, "%s noconn none\n", op);
            fflush(out);
            continue;
        }
        if (!strcmp(op, "start")) {
            s = unhex(a ? a : "", NULL);
            conn = mlle_start_executable(s, pe);
            report(op, conn != NULL, e);
        } else if (!strcmp(op, "sel")) {
            cur = atoi(a) % CONNS;
            fprintf(out, "sel ok none\n");
            fflush(out);
        } else if (!strcmp(op, "free")) {
            mlle_connections_free(&conn);
            report(op, conn == NULL, NULL);
        } else if (!strcmp(op, "version")) {
            int r = mlle_tool_version(conn, atoi(a), atoi(b), pe);
            report(op, r, e);
        } else if (!strcmp(op, "lib") || !strcmp(op, "feature") || !strcmp(op, "retfeature") ||
                   !strcmp(op, "license") || !strcmp(op, "retlicense")) {
            int r;
            s = unhex(a ? a : "", NULL);
            r = !strcmp(op, "lib") ? mlle_tool_libpath(conn, s, pe)
              : !strcmp(op, "feature") ? mlle_tool_feature(conn, s, pe)
              : !strcmp(op, "retfeature") ? mlle_tool_returnfeature(conn, s, pe)
              : !strcmp(op, "license") ? mlle_tool_license(conn, s, pe)
              : mlle_tool_returnlicense(conn, s, pe);
            report(op, r, e);
        } else if (!strcmp(op, "file")) {
            int k = atoi(a) % SLOTS;
            if (fc[k]) mlle_file_contents_free(&fc[k]);
            s = unhex(b ? b : "", NULL);
            fc[k] = mlle_tool_file(conn, s, pe);
            report(op, fc[k] != NULL, e);
        } else if (!strcmp(op, "size")) {
            int k = atoi(a) % SLOTS;
            if (fc[k]) fprintf(out, "size ok %lu\n", (unsigned long)mlle_tool_get_file_size(fc[k]));
            else fprintf(out, "size none\n");
            fflush(out);
        } else if (!strcmp(op, "read")) {
            int k = atoi(a) % SLOTS;
            size_t n = (size_t)strtoul(b, NULL, 10), r;
            if (!fc[k]) { fprintf(out, "read none\n"); fflush(out); continue; }
            s = malloc(n + 1);      /* +1 so that a zero-byte read has a buffer */
            r = mlle_tool_read_bytes(fc[k], s, n);
            if (r == (size_t)-1) fprintf(out, "read eof\n");
            else { fprintf(out, "read ok %lu [", (unsigned long)r); puthex(s, r <= n ? r : n); fprintf(out, "]\n"); }
            fflush(out);
        } else if (!strcmp(op, "ffree")) {
            int k = atoi(a) % SLOTS;
            mlle_file_contents_free(&fc[k]);
            report(op, fc[k] == NULL, NULL);
        } else {
            fprintf(out, "bad\n");
            fflush(out);
        }
        free(s);
    }
    free(line);
}
static void *waits(void *p)
{
    return (void*)(size_t)fgetc(p);
}
static void *thread(void *p)
{
    int *fd = p;
    FILE *in = fdopen(fd[0], "r");
    out = fdopen(fd[1], "w");
    serve(in);
    fclose(out);
    fclose(in);
    return NULL;
}
int main(void)
{
    const char *shut = getenv("VF_NOSTD"), *th = getenv("VF_THREADS");      /* shut: standard descriptors the program does not have */
    FILE *in;
    if (th) {
        static int fds[32][2];
        pthread_t t[32];
        int n = 0, i;
        for (; n < 32 && sscanf(th, "%d:%d", &fds[n][0], &fds[n][1]) == 2; n++) {
            fcntl(fds[n][0], F_SETFD, FD_CLOEXEC);
            fcntl(fds[n][1], F_SETFD, FD_CLOEXEC);
            th = strchr(th, ',') ? strchr(th, ',') + 1 : "";
        }
        int p[2];
        pthread_t w;
        if (getenv("VF_WAITS")) {
            pipe2(p, O_CLOEXEC);
            pthread_create(&w, NULL, waits, fdopen(p[0], "r"));
            usleep(20000);
        }
        for (i = 0; i < n; i++) pthread_create(&t[i], NULL, thread, fds[i]);
        for (i = 0; i < n; i++) pthread_join(t[i], NULL);
        if (getenv("VF_WAITS")) { close(p[1]); pthread_join(w, NULL); }
        return 0;
    }
    out = fdopen(fcntl(1, F_DUPFD_CLOEXEC, shut ? 20 : 3), "w");
    in = shut ? fdopen(fcntl(0, F_DUPFD_CLOEXEC, 20), "r") : stdin;
    for (; shut && *shut; shut++) close(*shut - '0');
    serve(in);
    return 0;
}
