/* Another world around a process (LD_PRELOAD): what it asks for beyond the file
 * it is given is answered differently.  WORLD_MODE: 1.. ; WORLD_FILE: stands for
 * every file that does not exist; WORLD_VALUE: value of every variable not set. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static char *own(const char *n) {
    extern char **environ;
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return NULL;
}
static int mode(void) { char *m = own("WORLD_MODE"); return m ? atoi(m) : 0; }
static int starts(const char *s, const char *p) { return !strncmp(s, p, strlen(p)); }

/* how the tools around a program are told to behave, not the program itself */
static const char *theirs[] = {"RUST", "LD_", "MALLOC", "GLIBC", "LANG", "LC_", "TERM", "COLUMNS", "LINES", "COLOR",
                               "NO_COLOR", "CLICOLOR", "FORCE_COLOR", "TZ", "LOCPATH", "NLSPATH", "WORLD_", "CARGO", "TMPDIR", 0};
char *getenv(const char *n) {
    char *v = own(n);
    if (v || !mode() || !own("WORLD_VALUE")) return v;
    for (const char **t = theirs; *t; t++)
        if (starts(n, *t)) return v;
    return own("WORLD_VALUE");
}
char *secure_getenv(const char *n) { return getenv(n); }

/* a file that is not there */
static const char *instead(const char *p) {
    static const char *sys[] = {"/proc", "/sys", "/dev", "/usr", "/lib", "/etc/ld", "/etc/locale", "/etc/nsswitch", "/etc/passwd", 0};
    if (!p || !mode() || !own("WORLD_FILE")) return NULL;
    for (const char **t = sys; *t; t++)
        if (starts(p, *t)) return NULL;
    return own("WORLD_FILE");
}
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
#define OPEN(name)                                                                         \
    int name(const char *p, int fl, ...) {                                                 \
        va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a);                  \
        int r = REAL(name)(p, fl, m);                                                      \
        if (r < 0 && errno == ENOENT && (fl & O_ACCMODE) == O_RDONLY) {                    \
            const char *q = instead(p);                                                    \
            if (q) return REAL(name)(q, fl, m);                                            \
            errno = ENOENT;                                                                \
        }                                                                                  \
        return r;                                                                          \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                                       \
    int name(int d, const char *p, int fl, ...) {                                          \
        va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a);                  \
        int r = REAL(name)(d, p, fl, m);                                                   \
        if (r < 0 && errno == ENOENT && (fl & O_ACCMODE) == O_RDONLY) {                    \
            const char *q = instead(p);                                                    \
            if (q) return REAL(name)(AT_FDCWD, q, fl, m);                                  \
            errno = ENOENT;                                                                \
        }                                                                                  \
        return r;                                                                          \
    }
OPENAT(openat)
OPENAT(openat64)
#define STAT(name, type)                                                                   \
    int name(const char *p, struct type *s) {                                              \
        int r = REAL(name)(p, s);                                                          \
        if (r < 0 && errno == ENOENT) {                                                    \
            const char *q = instead(p);                                                    \
            if (q) return REAL(name)(q, s);                                                \
            errno = ENOENT;                                                                \
        }                                                                                  \
        return r;                                                                          \
    }
STAT(stat, stat)
STAT(stat64, stat64)
STAT(lstat, stat)
STAT(lstat64, stat64)
int access(const char *p, int m) {
    int r = REAL(access)(p, m);
    if (r < 0 && errno == ENOENT) {
        const char *q = instead(p);
        if (q) return REAL(access)(q, m);
        errno = ENOENT;
    }
    return r;
}
int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) {
    int r = REAL(statx)(d, p, fl, mask, s);
    if (r < 0 && errno == ENOENT && p && *p) {
        const char *q = instead(p);
        if (q) return REAL(statx)(AT_FDCWD, q, fl, mask, s);
        errno = ENOENT;
    }
    return r;
}

/* another time: years later and hours between any two looks, or none at all */
static long looks;
static void shift(time_t *s, long *sub) {
    int m = mode();
    if (m == 1) *s += 1300000000L + 4000L * ++looks;
    if (m == 2) { *s = 86400; *sub = 0; }
    if (m == 3) *s += 7 * ++looks;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = REAL(clock_gettime)(c, t);
    if (!r) shift(&t->tv_sec, &t->tv_nsec);
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    int r = REAL(gettimeofday)(t, z);
    if (!r && t) shift(&t->tv_sec, &t->tv_usec);
    return r;
}
time_t time(time_t *t) {
    struct timespec x;
    clock_gettime(CLOCK_REALTIME, &x);
    if (t) *t = x.tv_sec;
    return x.tv_sec;
}
pid_t getpid(void) { return mode() ? mode() == 2 ? 1 : 77777 : REAL(getpid)(); }
int gethostname(char *n, size_t l) {
    if (!mode()) return REAL(gethostname)(n, l);
    strncpy(n, "elsewhere", l);
    return 0;
}
int sched_getaffinity(pid_t p, size_t l, cpu_set_t *s) {
    int r = REAL(sched_getaffinity)(p, l, s);
    if (r >= 0 && mode()) {
        memset(s, 0, l);
        for (int i = 0; i < (mode() == 1 ? 1 : 64); i++) CPU_SET_S(i, l, s);
    }
    return r;
}
int isatty(int fd) { return mode() == 1 ? 1 : REAL(isatty)(fd); }
