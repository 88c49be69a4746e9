// Seams of the shell scripts: every external command a simulated script runs is this program (through PATH), which asks the
// coordinator before it becomes the real command. Also the stand-in for build/mps.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static const char *ctl, *id, *root;

static void say(const char* what, const char* name) {
    char p[PATH_MAX], b[512];
    snprintf(p, sizeof p, "%s/req", ctl);
    int fd = open(p, O_WRONLY);
    int n  = snprintf(b, sizeof b, "%s %s %s %d\n", id, what, name, (int) getpid());
    if (fd < 0 || write(fd, b, n) != n) _exit(121);
    close(fd);
}
// verdicts: r run, f fail, k wait to be killed, a run and wait to be killed, p run without the last operand, then fail
static char ask(const char* name) {
    char p[PATH_MAX], c;
    snprintf(p, sizeof p, "%s/go%s", ctl, id);
    int fd = open(p, O_RDWR);
    if (fd < 0) _exit(122);
    say("ask", name);
    ssize_t n;
    while ((n = read(fd, &c, 1)) < 0 && errno == EINTR) {}
    close(fd);
    if (n != 1) _exit(123);
    return c;
}
static void hang(void) {
    for (;;) pause();
}
static void note(const char* fmt, const char* a, const char* b) { // beyond any limit on file sizes: through the request channel's directory
    char p[PATH_MAX], t[8192];
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    struct rlimit un = {rl.rlim_max, rl.rlim_max};
    setrlimit(RLIMIT_FSIZE, &un);
    snprintf(p, sizeof p, "%s/log", ctl);
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0666);
    int n  = snprintf(t, sizeof t, fmt, id, a, b);
    if (fd >= 0) {
        if (write(fd, t, n) != n) _exit(124);
        close(fd);
    }
    setrlimit(RLIMIT_FSIZE, &rl);
}
static int inside(const char* path) {
    char d[PATH_MAX], r[PATH_MAX];
    snprintf(d, sizeof d, "%s", path);
    for (char* up = dirname(d); !realpath(up, r); up = dirname(up))
        if (errno != ENOENT) return 0;
    size_t n = strlen(root);
    return !strncmp(r, root, n) && (r[n] == '/' || r[n] == 0);
}

static int put(const char* dir, const char* rel, const char* text) {
    char p[PATH_MAX];
    snprintf(p, sizeof p, "%s/%s", dir, rel);
    FILE* f = fopen(p, "w");
    if (!f) return -1;
    int e = fputs(text, f) < 0;
    return fclose(f) || e ? -1 : 0;
}
static int mps(int argc, char** argv) {
    const char *s = 0, *o = 0;
    char line[4096] = "", cwd[PATH_MAX];
    for (int i = 1; i < argc; i++) {
        size_t k = strlen(line);
        snprintf(line + k, sizeof line - k, "\001%s", argv[i]);
        if ((!strcmp(argv[i], "-s") || !strcmp(argv[i], "--setting")) && i + 1 < argc) s = argv[i + 1];
        if ((!strcmp(argv[i], "-o") || !strcmp(argv[i], "--output")) && i + 1 < argc) o = argv[i + 1];
    }
    if (!getcwd(cwd, sizeof cwd)) return 120;
    char c = ask("mps");
    note("%s\001start\001%s%s\n", cwd, line);
    if (c == 'k') hang();
    struct stat st;
    int rc = atoi(getenv("DSTSH_MPSEND") ? getenv("DSTSH_MPSEND") : "0");
    char buf[PATH_MAX];
    if (c == 'f') rc = 255;
    if (!s || stat(s, &st) || !o || stat(o, &st)) rc = 255, fprintf(stderr, "ERROR: does not exist\n");
    else {
        snprintf(buf, sizeof buf, "%s/settings.yml", o);
        if (!stat(buf, &st)) rc = 255, fprintf(stderr, "file already exists in the output directory\n");
        else {
            snprintf(buf, sizeof buf, "of run %s\n", id);
            int bad = put(o, "settings.yml", buf);
            char d[PATH_MAX];
            snprintf(d, sizeof d, "%s/prof", o);
            mkdir(d, 0777);
            bad |= put(o, "prof/output_0000.prof", buf);
            int lines = atoi(getenv("DSTSH_LINES") ? getenv("DSTSH_LINES") : "3");
            for (int i = 0; i < lines; i++) {
                if (printf("%s: step %d dt=0.001s Courant=0.20\n", id, i) < 0) bad = 1;
                if (i % 7 == 0 && fprintf(stderr, "%4d: t=%.3lfs of %s\n", i, i * 0.001, id) < 0) bad = 1;
            }
            bad |= fflush(stdout) != 0;
            if (bad && rc == 0) rc = 254;
            if (!bad) bad = put(o, "prof/output_0001.prof", buf);
            if (bad && rc == 0) rc = 254;
        }
    }
    char t[32];
    snprintf(t, sizeof t, "%d", rc);
    note("%s\001end\001%s%s\n", t, "");
    if (c == 'a') {
        say("done", "mps");
        hang();
    }
    if (rc < 0) {
        signal(-rc, SIG_DFL);
        struct rlimit z = {0, 0};
        setrlimit(RLIMIT_CORE, &z);
        raise(-rc);
    }
    return rc;
}

int main(int argc, char** argv) {
    char* name = basename(strdup(argv[0]));
    ctl  = getenv("DSTSH_CTL");
    id   = getenv("DSTSH_ID");
    root = getenv("DSTSH_ROOT");
    if (!ctl || !id || !root) return 125;
    if (!strcmp(name, "mps")) return mps(argc, argv);
    if (!strcmp(name, "decoy")) {
        note("%s\001decoy\001%s%s\n", "", "");
        return 0;
    }
    char real[PATH_MAX];
    snprintf(real, sizeof real, "/usr/bin/%s", name);
    static const char* gated[] = {"date", "mkdir", "rm", "mv", "cp", "mktemp", "ln", "rmdir", "install", "head", "tail", "dirname", 0};
    char c = 'r';
    for (const char** g = gated; *g; g++)
        if (!strcmp(*g, name) && !(getenv("DSTSH_UNGATED") && strstr(getenv("DSTSH_UNGATED"), name))) c = ask(name);
    if (c == 'k') hang();
    if (c == 'f') {
        fprintf(stderr, "%s: Input/output error (injected)\n", name);
        return 1;
    }
    if (!strcmp(name, "rm") || !strcmp(name, "rmdir") || !strcmp(name, "mv") || !strcmp(name, "shred") || !strcmp(name, "mkdir") || !strcmp(name, "cp") || !strcmp(name, "touch"))
        for (int i = 1; i < argc; i++)
            if (argv[i][0] != '-' && !inside(argv[i])) {
                note("%s\001escape\001%s %s\n", name, argv[i]);
                return 1;
            }
    if (c == 'a' || c == 'p') {
        if (c == 'p' && argc > 2) argv[argc - 1] = 0;
        pid_t p = fork();
        if (p == 0) {
            execv(real, argv);
            _exit(127);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (c == 'p') {
            fprintf(stderr, "%s: Input/output error (injected)\n", name);
            return 1;
        }
        say("done", name);
        hang();
    }
    execv(real, argv);
    return 127;
}
