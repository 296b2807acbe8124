// A program that does what its arguments say, one after another.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include "sub_bytes.h"
extern char **environ;

static char *acc;
static size_t acc_n, acc_cap;

static void put(int fd, const void *p, size_t n)
{
    const char *c = p;
    while (n)
    {
        ssize_t k = write(fd, c, n);
        if (k < 0) { if (errno == EINTR) continue; if (errno == EPIPE || errno == EBADF) return; _exit(99); }
        c += k;
        n -= k;
    }
}
static void item(const char *s)
{
    char b[32];
    size_t n = strlen(s);
    put(1, b, snprintf(b, sizeof b, "%zu:", n));
    put(1, s, n);
    put(1, ",", 1);
}
static void nap(long ms)
{
    struct timespec t = {ms / 1000, ms % 1000 * 1000000};
    while (nanosleep(&t, &t) && errno == EINTR) {}
}
int main(int argc, char **argv)
{
    struct rlimit nc = {0, 0};
    setrlimit(RLIMIT_CORE, &nc);
    signal(SIGPIPE, SIG_IGN);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, 0);
    for (int i = 1; i < argc; ++i)
    {
        char *a = argv[i];
        unsigned long x = 0, y = 0, z = 0, w = 0;
        sscanf(a + 1, "%lu,%lu,%lu,%lu", &x, &y, &z, &w);
        switch (a[0])
        {
        case 'o':
        case 'e':   // len, seed, any, chunk
        {
            char *b = malloc(x + 1);
            sub_bytes(b, x, y, (int)z);
            size_t step = w ? w : x + 1;
            for (size_t k = 0; k < x; k += step) put(a[0] == 'o' ? 1 : 2, b + k, x - k < step ? x - k : step);
            free(b);
            break;
        }
        case 'r':
        case 'R':
        {
            size_t want = a[0] == 'R' ? (size_t)-1 : x;
            while (want)
            {
                if (acc_n == acc_cap) acc = realloc(acc, acc_cap = acc_cap * 2 + 65536);
                ssize_t k = read(0, acc + acc_n, want < acc_cap - acc_n ? want : acc_cap - acc_n);
                if (k < 0 && errno == EINTR) continue;
                if (k <= 0) break;
                acc_n += k;
                want -= k;
            }
            break;
        }
        case 'O': put(1, acc, acc_n); break;
        case 'E': put(2, acc, acc_n); break;
        case 'H':
        {
            char b[64];
            put(1, b, snprintf(b, sizeof b, "%zu/%016llx;", acc_n, (unsigned long long)sub_hash(acc, acc_n)));
            break;
        }
        case 'A': for (int k = 1; k < argc; ++k) item(argv[k]); break;
        case 'V': for (char **e = environ; *e; ++e) item(*e); break;
        case 'F':   // open descriptors but the standard ones
        {
            char b[32];
            DIR *d = opendir("/proc/self/fd");
            struct dirent *e;
            int own = dirfd(d);
            put(1, "f", 1);
            while ((e = readdir(d)))
                if (e->d_name[0] != '.' && atoi(e->d_name) > 2 && atoi(e->d_name) != own) put(1, b, snprintf(b, sizeof b, "%s,", e->d_name));
            closedir(d);
            put(1, ";", 1);
            break;
        }
        case 's': nap(x); break;
        case 'c': close(a[1] == 'i' ? 0 : a[1] == 'o' ? 1 : 2); break;
        case 'x': _exit((int)x);
        case 'k': signal((int)x, SIG_DFL); raise((int)x); for (;;) pause();
        case 'z': for (;;) pause();
        case 'i': signal((int)x, SIG_IGN); break;
        case 'd':   // leaves a process behind that holds the streams
            if (fork() == 0) { for (;;) pause(); }
            break;
        case 'G': setpgid(0, 0); break;
        default: break;
        }
    }
    return 0;
}
