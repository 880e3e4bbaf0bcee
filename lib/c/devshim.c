/* Reports another st_dev for the inodes listed in the file BV_DEVS ("ino dev" lines). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
static struct { unsigned long ino, dev; } t[65536];
static int n = -1;
static void fix(struct stat *s)
{
    if (n < 0) {
        n = 0;
        const char *p = getenv("BV_DEVS");
        FILE *f = p ? fopen(p, "r") : 0;
        if (f) {
            while (n < 65536 && fscanf(f, "%lu %lu", &t[n].ino, &t[n].dev) == 2) n++;
            fclose(f);
        }
    }
    for (int i = 0; i < n; i++)
        if (t[i].ino == s->st_ino) { s->st_dev = t[i].dev; return; }
}
int stat(const char *p, struct stat *s) { static int (*r)(const char *, struct stat *); if (!r) r = dlsym(RTLD_NEXT, "stat"); int x = r(p, s); if (!x) fix(s); return x; }
int lstat(const char *p, struct stat *s) { static int (*r)(const char *, struct stat *); if (!r) r = dlsym(RTLD_NEXT, "lstat"); int x = r(p, s); if (!x) fix(s); return x; }
int fstat(int p, struct stat *s) { static int (*r)(int, struct stat *); if (!r) r = dlsym(RTLD_NEXT, "fstat"); int x = r(p, s); if (!x) fix(s); return x; }
int fstatat(int d, const char *p, struct stat *s, int g) { static int (*r)(int, const char *, struct stat *, int); if (!r) r = dlsym(RTLD_NEXT, "fstatat"); int x = r(d, p, s, g); if (!x) fix(s); return x; }
int stat64(const char *p, struct stat64 *s) { static int (*r)(const char *, struct stat64 *); if (!r) r = dlsym(RTLD_NEXT, "stat64"); int x = r(p, s); if (!x) fix((struct stat *)s); return x; }
int lstat64(const char *p, struct stat64 *s) { static int (*r)(const char *, struct stat64 *); if (!r) r = dlsym(RTLD_NEXT, "lstat64"); int x = r(p, s); if (!x) fix((struct stat *)s); return x; }
int fstat64(int p, struct stat64 *s) { static int (*r)(int, struct stat64 *); if (!r) r = dlsym(RTLD_NEXT, "fstat64"); int x = r(p, s); if (!x) fix((struct stat *)s); return x; }
int fstatat64(int d, const char *p, struct stat64 *s, int g) { static int (*r)(int, const char *, struct stat64 *, int); if (!r) r = dlsym(RTLD_NEXT, "fstatat64"); int x = r(d, p, s, g); if (!x) fix((struct stat *)s); return x; }
