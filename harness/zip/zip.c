/* VF_ZIP_FAIL=open|entry|fwrite|close[:n] makes the n-th (default first) call
 * of that kind fail. */
#include "zip.h"
#include <stdio.h>
#include <stdlib.h>
struct ent { char *name; uint32_t crc, size, off; };
struct zip_t { FILE *f; struct ent *e; size_t n; int open; };
static uint32_t crc32_(uint32_t c, const unsigned char *p, size_t n)
{
    static uint32_t t[256];
    size_t i; int k;
    if (!t[1]) for (i = 0; i < 256; i++) { uint32_t x = (uint32_t)i; for (k = 0; k < 8; k++) x = x & 1 ? 0xEDB88320u ^ (x >> 1) : x >> 1; t[i] = x; }
    c = ~c;
    while (n--) c = t[(c ^ *p++) & 255] ^ (c >> 8);
    return ~c;
}
static int planned(const char *what)
{
    static int count[8];
    static const char *names[] = {"open", "entry", "fwrite", "close", 0};
    const char *v = getenv("VF_ZIP_FAIL"), *c;
    int i, at = 1;
    if (!v) return 0;
    for (i = 0; names[i] && strcmp(names[i], what); i++) ;
    count[i]++;
    c = strchr(v, ':');
    if (c) at = atoi(c + 1);
    return strncmp(v, what, strlen(what)) == 0 && count[i] == at;
}
static void w16(FILE *f, unsigned v) { fputc(v & 255, f); fputc((v >> 8) & 255, f); }
static void w32(FILE *f, uint32_t v) { w16(f, v & 0xffff); w16(f, v >> 16); }
static void hdr(FILE *f, struct ent *e, int central)
{
    w32(f, central ? 0x02014b50 : 0x04034b50);
    if (central) w16(f, (3 << 8) | 20);
    w16(f, 20); w16(f, 0x800); w16(f, 0); w16(f, 0); w16(f, 0x21);
    w32(f, e->crc); w32(f, e->size); w32(f, e->size);
    w16(f, (unsigned)strlen(e->name)); w16(f, 0);
    if (central) { w16(f, 0); w16(f, 0); w16(f, 0); w32(f, 0100644u << 16); w32(f, e->off); }
    fwrite(e->name, 1, strlen(e->name), f);
}
struct zip_t *zip_openwitherror(const char *zipname, int level, char mode, int *errnum)
{
    struct zip_t *z;
    FILE *f;
    *errnum = 0;
    if (!zipname || !strlen(zipname)) { *errnum = ZIP_EINVENTNAME; return NULL; }
    if (level < -1 || level > 10) { *errnum = ZIP_EINVLVL; return NULL; }
    if (mode != 'w') { *errnum = ZIP_EINVMODE; return NULL; }
    if (planned("open") || !(f = fopen(zipname, "wb"))) { *errnum = ZIP_EOPNFILE; return NULL; }
    z = calloc(1, sizeof *z);
    z->f = f; z->open = -1;
    return z;
}
struct zip_t *zip_open(const char *zipname, int level, char mode) { int e; return zip_openwitherror(zipname, level, mode, &e); }
int zip_entry_open(struct zip_t *z, const char *entryname)
{
    size_t i;
    if (!z) return ZIP_ENOINIT;
    if (!entryname || !strlen(entryname)) return ZIP_EINVENTNAME;
    if (planned("entry")) return ZIP_EWRTHDR;
    z->e = realloc(z->e, (z->n + 1) * sizeof *z->e);
    z->e[z->n].name = strdup(entryname);
    for (i = 0; z->e[z->n].name[i]; i++) if (z->e[z->n].name[i] == '\\') z->e[z->n].name[i] = '/'; /* as kuba--/zip does */
    z->e[z->n].crc = z->e[z->n].size = 0;
    z->e[z->n].off = (uint32_t)ftell(z->f);
    hdr(z->f, &z->e[z->n], 0);
    z->open = (int)z->n++;
    return 0;
}
int zip_entry_write(struct zip_t *z, const void *buf, size_t n)
{
    if (!z || z->open < 0) return ZIP_ENOINIT;
    if (n) {
        z->e[z->open].crc = crc32_(z->e[z->open].crc, buf, n);
        z->e[z->open].size += (uint32_t)n;
        if (fwrite(buf, 1, n, z->f) != n) return ZIP_EWRTENT;
    }
    return 0;
}
int zip_entry_fwrite(struct zip_t *z, const char *filename)
{
    char b[65536];
    size_t n;
    int r = 0;
    FILE *f;
    if (!z) return ZIP_ENOINIT;
    if (planned("fwrite")) return ZIP_EOPNFILE;
    f = fopen(filename, "rb");
    if (!f) return ZIP_EOPNFILE;
    while ((n = fread(b, 1, sizeof b, f)) > 0) if ((r = zip_entry_write(z, b, n))) break;
    if (ferror(f)) r = ZIP_EWRTENT;
    fclose(f);
    return r;
}
int zip_entry_close(struct zip_t *z)
{
    long pos;
    if (!z || z->open < 0) return ZIP_ENOINIT;
    if (planned("close")) return ZIP_EWRTHDR;
    pos = ftell(z->f);
    fseek(z->f, (long)z->e[z->open].off, SEEK_SET);
    hdr(z->f, &z->e[z->open], 0);
    fseek(z->f, pos, SEEK_SET);
    z->open = -1;
    return 0;
}
void zip_close(struct zip_t *z)
{
    size_t i;
    long start, end;
    if (!z) return;
    start = ftell(z->f);
    for (i = 0; i < z->n; i++) { hdr(z->f, &z->e[i], 1); free(z->e[i].name); }
    end = ftell(z->f);
    w32(z->f, 0x06054b50); w16(z->f, 0); w16(z->f, 0); w16(z->f, (unsigned)z->n); w16(z->f, (unsigned)z->n);
    w32(z->f, (uint32_t)(end - start)); w32(z->f, (uint32_t)start); w16(z->f, 0);
    fclose(z->f); free(z->e); free(z);
}
const char *zip_strerror(int errnum) { (void)errnum; return "vf zip error"; }
