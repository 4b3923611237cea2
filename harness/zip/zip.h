#ifndef VF_ZIP_H
#define VF_ZIP_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
#define ZIP_DEFAULT_COMPRESSION_LEVEL 6
#define ZIP_ENOINIT -1
#define ZIP_EINVENTNAME -2
#define ZIP_ENOENT -3
#define ZIP_EINVMODE -4
#define ZIP_EINVLVL -5
#define ZIP_ENOSUP64 -6
#define ZIP_EMEMSET -7
#define ZIP_EWRTENT -8
#define ZIP_ETDEFLINIT -9
#define ZIP_EINVIDX -10
#define ZIP_ENOHDR -11
#define ZIP_ETDEFLBUF -12
#define ZIP_ECRTHDR -13
#define ZIP_EWRTHDR -14
#define ZIP_EWRTDIR -15
#define ZIP_EOPNFILE -16
#define ZIP_ECLSZIP -28
struct zip_t;
struct zip_t *zip_open(const char *zipname, int level, char mode);
struct zip_t *zip_openwitherror(const char *zipname, int level, char mode, int *errnum);
void zip_close(struct zip_t *zip);
int zip_entry_open(struct zip_t *zip, const char *entryname);
int zip_entry_close(struct zip_t *zip);
int zip_entry_write(struct zip_t *zip, const void *buf, size_t bufsize);
int zip_entry_fwrite(struct zip_t *zip, const char *filename);
const char *zip_strerror(int errnum);
#ifdef __cplusplus
}
#endif
#endif
