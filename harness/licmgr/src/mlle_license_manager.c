/* License manager used by the conformance harness: a module of the kind
 * -DLICENSE_MANAGER expects.  Every call is logged (one line per call, append)
 * to $VF_LM_LOG and decided by the environment:
 *   VF_LM_NEW_FAIL    number of first calls of new that fail (or "all")
 *   VF_LM_GRANT       hex of granted feature names, comma separated; "*" all
 *   VF_LM_SUFFIX      end of the error messages
 *   VF_LM_IN_FAIL     hex of feature names whose return fails; "*" all
 */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include "mlle_portability.h"
#include "mlle_error.h"
#include "mlle_license_manager.h"

struct mlle_license { int alive; };
static int news = 0, handles = 0;

static char *hex(const char *s, size_t n)
{
    char *o = malloc(2 * n + 1);
    size_t i;
    for (i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", (unsigned char)s[i]);
    o[2 * n] = 0;
    return o;
}
static void logline(const char *op, int id, const char *s, size_t n, int termok)
{
    const char *f = getenv("VF_LM_LOG");
    char *h, *line;
    int fd;
    size_t len;
    if (!f) return;
    h = s ? hex(s, n) : strdup("");
    line = malloc(strlen(h) + 200);
    len = sprintf(line, "%s %d %lu %d [%s]\n", op, id, (unsigned long)n, termok, h);
    fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd >= 0) { if (write(fd, line, len) < 0) {} close(fd); }
    free(h); free(line);
}
static int listed(const char *var, const char *s, size_t n)
{
    const char *v = getenv(var);
    char *h, *c, *t, *save = NULL;
    int r = 0;
    if (!v) return 0;
    if (!strcmp(v, "*")) return 1;
    h = hex(s, n);
    c = strdup(v);
    for (t = strtok_r(c, ",", &save); t; t = strtok_r(NULL, ",", &save))
        if (!strcmp(t[0] == '_' ? t + 1 : t, h)) r = 1;
    free(h); free(c);
    return r;
}
/* the message ends in $VF_LM_SUFFIX */
static struct mlle_error *failure(int code, const char *text)
{
    const char *sfx = getenv("VF_LM_SUFFIX");
    char *m = malloc(strlen(text) + (sfx ? strlen(sfx) : 0) + 1);
    struct mlle_error *e;
    strcpy(m, text);
    if (sfx) strcat(m, sfx);
    e = mlle_error_new_literal(42, code, m);
    memset(m, 'x', strlen(m));
    free(m);
    return e;
}
struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error)
{
    const char *v = getenv("VF_LM_NEW_FAIL");
    int lim = v ? (!strcmp(v, "all") ? 1 << 30 : atoi(v)) : 0;
    int ok = ++news > lim;
    logline(ok ? "new" : "newfail", ok ? handles + 1 : 0, libpath, libpath ? strlen(libpath) : 0, libpath != NULL);
    if (!ok) {
        *error = failure(LICENSE_ERROR_INITIALIZATION_FAILURE, "vf: manager unavailable");
        return NULL;
    }
    handles++;
    {
        struct mlle_license *m = calloc(1, sizeof *m);
        m->alive = handles;
        return m;
    }
}
void mlle_license_free(struct mlle_license *m)
{
    logline("free", m ? m->alive : -1, NULL, 0, 1);
    if (m) m->alive = -m->alive;
}
static int termok(const char *f, size_t n) { return f[n] == 0; }
int mlle_license_checkout_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **error)
{
    int ok = listed("VF_LM_GRANT", f, n);
    logline("out", m ? m->alive : -1, f, n, termok(f, n));
    if (!ok) *error = failure(LICENSE_ERROR_CHECKOUT_FAILURE, "vf: feature refused");
    return ok;
}
int mlle_license_checkin_feature(struct mlle_license *m, size_t n, const char *f, struct mlle_error **error)
{
    int ok = !listed("VF_LM_IN_FAIL", f, n);
    logline("in", m ? m->alive : -1, f, n, termok(f, n));
    if (!ok) *error = failure(LICENSE_ERROR_CHECKIN_FAILURE, "vf: return failed");
    return ok;
}
