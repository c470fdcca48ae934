#include "amsym.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <amtl/os/am-fsutil.h>
// The system: one path, whose name resolves to an object of any mode or fails in any way; the name itself may be a link.
static const char* gPath;
static bool gExists, gLink, gMkdirOk;
static mode_t gMode;
static int gErr, gMkdirs;
static mode_t gMkdirMode;
static int describe(const char* p, struct stat* s, bool follow) {
    CHECKM(p && !strcmp(p, gPath), "the system is asked about the path given");
    if (follow ? !gExists : !(gExists || gLink)) { errno = gErr; return -1; }
    memset(s, 0, sizeof *s);
    s->st_mode = !follow && gLink ? S_IFLNK | 0777 : gMode;
    s->st_ino = amsym_any<ino_t>("inode");
    s->st_size = amsym_any<off_t>("size");
    s->st_nlink = amsym_any<nlink_t>("links");
    s->st_dev = amsym_any<dev_t>("device");
    return 0;
}
extern "C" int __wrap_stat(const char* p, struct stat* s) { return describe(p, s, true); }
extern "C" int __wrap_lstat(const char* p, struct stat* s) { return describe(p, s, false); }
extern "C" int __wrap_stat64(const char* p, struct stat* s) { return describe(p, s, true); }
extern "C" int __wrap_lstat64(const char* p, struct stat* s) { return describe(p, s, false); }
extern "C" int __wrap_fstatat(int d, const char* p, struct stat* s, int f) { CHECK(d == AT_FDCWD); return describe(p, s, !(f & AT_SYMLINK_NOFOLLOW)); }
extern "C" int __wrap_access(const char* p, int how) {
    struct stat s;
    if (describe(p, &s, true)) return -1;
    if (how == F_OK) return 0;
    return amsym_bool("permitted") ? 0 : -1;        // access rights are another matter
}
extern "C" int __wrap_mkdir(const char* p, mode_t m) {
    CHECKM(p && !strcmp(p, gPath), "the system is asked to create the path given");
    gMkdirs++;
    gMkdirMode = m;
    if (gMkdirOk) return 0;
    errno = gErr;
    return -1;
}
static char gBuf[4200];
static void start() {
    int n = amsym_choice(8, "path length");
    static const int kLong[] = {255, 256, 4100};
    if (n >= 5) { n = kLong[n - 5]; memset(gBuf, 'p', n); }
    for (int i = 0; i < n && i < 4; i++) { gBuf[i] = amsym_any<char>("path"); amsym_assume(gBuf[i] != 0); }
    gBuf[n] = 0;
    gPath = gBuf;
    gExists = amsym_bool("exists");
    gLink = amsym_bool("link");
    gMode = amsym_any<uint16_t>("mode");
    gErr = amsym_any<int>("errno");
    amsym_assume(gErr > 0 && gErr < 134);
    gMkdirOk = amsym_bool("mkdir succeeds");
    gMkdirs = 0;
    errno = amsym_any<uint8_t>("errno before");
}
ENTRY(queries) {
    start();
    int type = gMode & 0170000;
    switch (amsym_choice(3, "query")) {
    case 0: CHECKM(ke::file::PathExists(gPath) == gExists, "a path exists exactly when the system can describe it"); COVER("exists"); break;
    case 1: CHECKM(ke::file::IsFile(gPath) == (gExists && type == 0100000), "a file is exactly a regular file"); COVER("file"); break;
    default: CHECKM(ke::file::IsDirectory(gPath) == (gExists && type == 0040000), "a directory is exactly a directory"); COVER("directory"); break;
    }
}
ENTRY(create) {
    start();
    bool given = amsym_bool("mode given");
    unsigned mode = amsym_any<uint16_t>("mode bits") & 07777;
    bool ok = given ? ke::file::CreateDirectory(gPath, mode) : ke::file::CreateDirectory(gPath);
    CHECKM(ok == gMkdirOk, "creation succeeds exactly when the system says so");
    CHECKM(gMkdirs == 1, "the directory is asked for once");
    CHECKM(gMkdirMode == (given ? mode : 0755), "the permission bits are passed through");
    if (ok) COVER("created"); else COVER("failed");
}
