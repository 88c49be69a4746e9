// The wall clock of simulated scripts (seconds read from a file the coordinator writes) and failing redirections of the shell.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static long long now(void) {
    static char path[4096];
    const char* c = getenv("DSTSH_CTL");
    if (!c) return 1700000000;
    int n = 0;
    while (c[n] && n < 4000) path[n] = c[n], n++;
    const char* t = "/clock";
    for (int i = 0; t[i]; i++) path[n++] = t[i];
    path[n] = 0;
    int fd = open(path, O_RDONLY | O_CLOEXEC);
    char b[32] = {0};
    if (fd >= 0) {
        if (read(fd, b, 31) < 0) b[0] = 0;
        close(fd);
    }
    return atoll(b);
}
time_t time(time_t* t) {
    time_t x = now();
    if (t) *t = x;
    return x;
}
int gettimeofday(struct timeval* tv, void* tz) {
    (void) tz;
    tv->tv_sec  = now();
    tv->tv_usec = 0;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (c != CLOCK_REALTIME) return syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec  = now();
    ts->tv_nsec = 0;
    return 0;
}

// DSTSH_OPENFAIL=n: the n-th opening of a regular file for writing by the shell itself fails, once, as on a disk that is full for a while
static int refuse(const char* path, int flags) {
    const char* n = getenv("DSTSH_OPENFAIL");
    if (!n || !(flags & (O_WRONLY | O_RDWR)) || !(flags & O_CREAT) || strcmp(program_invocation_short_name, "bash")) return 0;
    if (!strncmp(path, "/dev/", 5)) return 0;
    char p[PATH_MAX];
    snprintf(p, sizeof p, "%s/opens%s", getenv("DSTSH_CTL"), getenv("DSTSH_ID"));
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    if (fd < 0) return 0;
    struct stat st;
    int bad = write(fd, "o", 1) != 1 || fstat(fd, &st);
    close(fd);
    if (bad || st.st_size != atoi(n)) return 0;
    errno = ENOSPC;
    return 1;
}
#define MODE mode_t m = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char* path, int flags, ...) {
    MODE
    return refuse(path, flags) ? -1 : syscall(SYS_openat, AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...) {
    MODE
    return refuse(path, flags) ? -1 : syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, m);
}
