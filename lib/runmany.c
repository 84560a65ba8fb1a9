/* Runs a program many times, quickly.
 * usage: runmany PROGRAM JOBS RESULTS NWORKERS SECONDS DIRECTORY
 * JOBS:    per job: u32 argc, argc * (u32 length, bytes), u32 length, standard input
 *          if the highest bit of argc is set this follows: u32 length, directory, i64 size limit of files (-1: none),
 *          u32 standard output (0: captured in a file, 2: /dev/full, 3: closed, 4: pipe without reader, 5: pipe),
 *          u32 n, n * (u32 length, environment string); such jobs run as user 65534 if started by root
 * RESULTS: RESULTS.<worker>, per job: u32 index, i32 status, u32 length, stdout, u32 length, stderr
 *          status: exit status, or -signal (SIGALRM if the time ran out) */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;
static volatile pid_t child;
static volatile int timedout;

/* The time is the child's own: seconds it computed or slept, not those it waited for a processor or for a stalled machine. */
static volatile int allowed, asleep, ticks;

static void onalarm(int s)
{
    (void)s;
    int err = errno;
    if (child > 0) {
        char name[64], b[1024];
        char *q = NULL;
        double cpu = 0;
        snprintf(name, sizeof name, "/proc/%d/stat", (int)child);
        int fd = open(name, O_RDONLY | O_CLOEXEC);
        ssize_t n = fd < 0 ? -1 : read(fd, b, sizeof b - 1);
        if (fd >= 0) close(fd);
        if (n > 0) {
            b[n] = 0;
            q = strrchr(b, ')');
        }
        unsigned long ut = 0, st = 0;
        if (q && sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) == 2) {
            cpu = (double)(ut + st) / sysconf(_SC_CLK_TCK);
            asleep += q[2] == 'S' || q[2] == 'T';
        } else {
            asleep++;
        }
        if (cpu + asleep >= allowed || ++ticks >= 20 * allowed) {
            timedout = 1;
            kill(child, SIGKILL);
        } else {
            alarm(1);
        }
    }
    errno = err;
}

static void start_clock(int secs) { allowed = secs; asleep = ticks = 0; alarm(1); }
static void die(const char *m) { perror(m); _exit(9); }

static uint32_t u32(const unsigned char **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }

static void dump(FILE *f, int fd)
{
    struct stat st;
    uint32_t n;
    if (fstat(fd, &st)) die("fstat");
    n = st.st_size > (8 << 20) ? (8u << 20) : (uint32_t)st.st_size;
    fwrite(&n, 4, 1, f);
    if (n) {
        char *b = malloc(n);
        if (pread(fd, b, n, 0) != (ssize_t)n) die("pread");
        fwrite(b, 1, n, f);
        free(b);
    }
}

int main(int argc, char **argv)
{
    if (argc != 7) return 9;
    int nw = atoi(argv[4]), secs = atoi(argv[5]);
    int fd = open(argv[2], O_RDONLY | O_CLOEXEC);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) die("jobs");
    const unsigned char *b = mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0), *e = b + st.st_size;
    if (b == MAP_FAILED) die("mmap");

    for (int w = 0; w < nw; w++) {
        pid_t p = fork();
        if (p < 0) die("fork");
        if (p) continue;
        char name[4096];
        snprintf(name, sizeof name, "%s.%d", argv[3], w);
        FILE *f = fopen(name, "wbe");
        if (!f) die("results");
        if (chdir(argv[6])) die("chdir");
        struct sigaction sa = { .sa_handler = onalarm, .sa_flags = SA_RESTART };
        sigaction(SIGALRM, &sa, NULL);
        const unsigned char *q = b;
        int limit0 = secs, slow = 0;      /* after some that took too long, wait less for others */
        for (uint32_t i = 0; q < e; i++) {
            uint32_t ac = u32(&q);
            int ext = ac >> 31;
            ac &= 0x7fffffff;
            char **av = calloc(ac + 2, sizeof *av);
            av[0] = argv[1];
            for (uint32_t k = 0; k < ac; k++) {
                uint32_t n = u32(&q);
                av[k + 1] = calloc(n + 1, 1);
                memcpy(av[k + 1], q, n);
                q += n;
            }
            uint32_t n = u32(&q);
            const unsigned char *in = q;
            q += n;
            char *dir = NULL, *env[16] = { NULL };
            int64_t limit = -1;
            uint32_t outmode = 0, nenv = 0;
            if (ext) {
                uint32_t m = u32(&q);
                dir = strndup((const char *)q, m);
                q += m;
                memcpy(&limit, q, 8);
                q += 8;
                outmode = u32(&q);
                nenv = u32(&q);
                for (uint32_t k = 0; k < nenv && k < 16; k++) {
                    m = u32(&q);
                    env[k] = strndup((const char *)q, m);
                    q += m;
                }
            }
            if ((int)(i % (uint32_t)nw) == w && slow >= 40) {
                int32_t r[4] = { (int32_t)i, -SIGALRM, 0, 0 };
                fwrite(r, 4, 4, f);
            } else if ((int)(i % (uint32_t)nw) == w) {
                int fi = memfd_create("in", MFD_CLOEXEC), fo = memfd_create("out", MFD_CLOEXEC), fe = memfd_create("err", MFD_CLOEXEC);
                if (fi < 0 || fo < 0 || fe < 0) die("memfd");
                if (n && write(fi, in, n) != (ssize_t)n) die("write");
                lseek(fi, 0, SEEK_SET);
                posix_spawn_file_actions_t fa;
                posix_spawn_file_actions_init(&fa);
                posix_spawn_file_actions_adddup2(&fa, fi, 0);
                posix_spawn_file_actions_adddup2(&fa, fo, 1);
                posix_spawn_file_actions_adddup2(&fa, fe, 2);
                pid_t c;
                int errpipe = -1;
                timedout = 0;
                secs = slow < 2 ? limit0 : slow < 6 ? (limit0 < 2 ? limit0 : 2) : 1;
                if (!ext) {
                    int r = posix_spawn(&c, argv[1], &fa, NULL, av, environ);
                    if (r) { errno = r; die("spawn"); }
                } else {
                    int pp[2] = { -1, -1 }, ep[2];
                    if (pipe2(ep, O_CLOEXEC | O_NONBLOCK)) die("pipe");
                    if (outmode >= 4 && pipe2(pp, O_CLOEXEC)) die("pipe");
                    c = fork();
                    if (c < 0) die("fork");
                    if (!c) {
                        int o = fo;
                        signal(SIGXFSZ, SIG_IGN);
                        signal(SIGPIPE, SIG_IGN);
                        if (outmode == 2) o = open("/dev/full", O_WRONLY | O_CLOEXEC);
                        else if (outmode >= 4) o = pp[1];
                        if (outmode == 4) close(pp[0]);
                        if (dup2(fi, 0) < 0 || dup2(ep[1], 2) < 0) _exit(98);
                        if (outmode == 3) close(1);
                        else if (dup2(o, 1) < 0) _exit(98);
                        for (uint32_t k = 0; k < nenv; k++) putenv(env[k]);
                        if (chdir(dir)) _exit(97);
                        if (!getuid() && (setgroups(0, NULL) || setgid(65534) || setuid(65534))) _exit(96);
                        if (limit >= 0) {
                            struct rlimit rl = { limit, limit };
                            setrlimit(RLIMIT_FSIZE, &rl);
                        }
                        execve(argv[1], av, environ);
                        _exit(95);
                    }
                    close(ep[1]);
                    errpipe = ep[0];
                    if (outmode >= 4) close(pp[1]);
                    if (outmode == 4) close(pp[0]);
                    if (outmode == 5) {
                        char buf[65536];
                        ssize_t g;
                        child = c;
                        start_clock(secs);
                        while ((g = read(pp[0], buf, sizeof buf)) > 0) if (write(fo, buf, g) != g) die("write");
                        close(pp[0]);
                    }
                }
                child = c;
                start_clock(secs);
                int ws;
                while (waitpid(c, &ws, 0) < 0) if (errno != EINTR) die("wait");
                child = 0;
                alarm(0);
                slow += timedout;
                if (errpipe >= 0) {
                    /* standard error of such jobs isn't subject to the size limit */
                    char buf[65536];
                    ssize_t g;
                    while ((g = read(errpipe, buf, sizeof buf)) > 0) if (write(fe, buf, g) != g) die("write");
                    close(errpipe);
                }
                int32_t s = WIFEXITED(ws) ? WEXITSTATUS(ws) : timedout ? -SIGALRM : -WTERMSIG(ws);
                fwrite(&i, 4, 1, f);
                fwrite(&s, 4, 1, f);
                dump(f, fo);
                dump(f, fe);
                posix_spawn_file_actions_destroy(&fa);
                close(fi); close(fo); close(fe);
            }
            for (uint32_t k = 0; k < ac; k++) free(av[k + 1]);
            free(av);
            free(dir);
            for (uint32_t k = 0; k < nenv && k < 16; k++) free(env[k]);
        }
        if (fclose(f)) die("close");
        _exit(0);
    }
    int bad = 0, ws;
    while (wait(&ws) > 0) if (!WIFEXITED(ws) || WEXITSTATUS(ws)) bad = 1;
    return bad ? 9 : 0;
}
