/* Stand-in for the random source of randomize_key: hands out the bytes of a file, or fails. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static size_t pos;
static int give(unsigned char* buf, size_t n)
{
    const char* ret = getenv("VF_RAND_RET"), *f = getenv("VF_RAND"), *log = getenv("VF_RAND_LOG");
    FILE* h = log ? fopen(log, "a") : NULL;
    if (h) {
        fprintf(h, "%zu\n", n);
        fclose(h);
    }
    if (ret && *ret)
        return atoi(ret);
    h = f ? fopen(f, "rb") : NULL;
    if (!h)
        return 0;
    fseek(h, (long)pos, SEEK_SET);
    if (fread(buf, 1, n, h) != n) {
        fclose(h);
        return 0;
    }
    fclose(h);
    pos += n;
    return 1;
}
int RAND_bytes(unsigned char* buf, int n) { return give(buf, (size_t)n); }
int RAND_priv_bytes(unsigned char* buf, int n) { return give(buf, (size_t)n); }
