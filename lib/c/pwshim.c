/* Report another full name (BV_GECOS), login name (BV_LOGIN) or no passwd entry at all (BV_NOPW) for the current user. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pwd.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void fix(struct passwd *p) {
    char *g = getenv("BV_GECOS"), *l = getenv("BV_LOGIN");
    if (!p || p->pw_uid != getuid()) return;
    if (g) p->pw_gecos = g;
    if (l) p->pw_name = l;
}
struct passwd *getpwuid(uid_t u) {
    static struct passwd *(*real)(uid_t);
    if (!real) real = dlsym(RTLD_NEXT, "getpwuid");
    if (getenv("BV_NOPW") && u == getuid()) return 0;
    struct passwd *p = real(u);
    fix(p);
    return p;
}
int getpwuid_r(uid_t u, struct passwd *b, char *s, size_t n, struct passwd **res) {
    static int (*real)(uid_t, struct passwd *, char *, size_t, struct passwd **);
    if (!real) real = dlsym(RTLD_NEXT, "getpwuid_r");
    if (getenv("BV_NOPW") && u == getuid()) { *res = 0; return 0; }
    int r = real(u, b, s, n, res);
    if (!r) fix(*res);
    return r;
}
