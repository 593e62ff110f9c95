/* LD_PRELOAD: read() is interrupted now and then and often gives less than was asked for */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
static unsigned long long s;
static int on;
ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) {
        real = dlsym(RTLD_NEXT, "read");
        char *e = getenv("SHIM_SEED");
        if (e) { on = 1; s = strtoull(e, 0, 10) * 2654435761u + 1; }
    }
    if (!on || n < 1024) return real(fd, buf, n);
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    unsigned r = s >> 33;
    if (r % 4 == 0) { errno = EINTR; return -1; }
    if (r % 4 == 1 && n > 1) n = 1 + (r >> 2) % 300;
    if (r % 4 == 2 && n > 1) n = 1 + (r >> 2) % n;
    return real(fd, buf, n);
}
