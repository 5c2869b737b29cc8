/* Preloaded into the process under test: entropy, clock, and the standard streams follow a script.
 *   SIM_HASH    seed of every getrandom answer (the same bytes at every call, whatever the thread)
 *   SIM_READS   comma-separated script of read(0): n = deliver at most n bytes, E = EINTR; then all
 *   SIM_WRITES  the same for write(1)/writev(1)
 *   SIM_CLOCK   the clock starts at a fixed time and goes on 1 us per reading, plus these jumps in ms
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static long raw_random(void *buf, size_t len, unsigned flags) { return syscall(SYS_getrandom, buf, len, flags); }

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    const char *e = getenv("SIM_HASH");
    if (!e) return raw_random(buf, len, flags);
    uint64_t s = strtoull(e, 0, 10);
    for (size_t i = 0; i < len; i++) ((unsigned char *)buf)[i] = (unsigned char)mix(&s);
    return (ssize_t)len;
}

struct script { const char *name; const char *at; int ready; };
static struct script reads = {"SIM_READS", 0, 0}, writes = {"SIM_WRITES", 0, 0}, clocks = {"SIM_CLOCK", 0, 0};
static long after_end, out_bytes;
static int64_t clock_off;

/* next entry: -2 = script over, -1 = EINTR, else a number */
static int64_t step(struct script *s) {
    if (!s->ready) {
        s->at = getenv(s->name);
        s->ready = 1;
    }
    if (!s->at || !*s->at) return -2;
    int64_t v;
    if (*s->at == 'E') {
        v = -1;
        s->at++;
    } else {
        char *end;
        v = strtoll(s->at, &end, 10);
        if (end == s->at) {
            s->at = 0;
            return -2;
        }
        s->at = end;
    }
    if (*s->at == ',') s->at++;
    return v;
}

ssize_t read(int fd, void *buf, size_t n) {
    if (fd == 0 && getenv("SIM_READS")) {
        int64_t k = step(&reads);
        if (k == -1) {
            errno = EINTR;
            return -1;
        }
        if (k > 0 && (size_t)k < n) n = (size_t)k;
        ssize_t r = syscall(SYS_read, fd, buf, n);
        if (r == 0 && ++after_end > 20) _exit(97);
        return r;
    }
    return syscall(SYS_read, fd, buf, n);
}

static int cut(int fd, size_t *n) {
    if (fd != 1 || !getenv("SIM_WRITES")) return 0;
    int64_t k = step(&writes);
    if (k == -1) {
        errno = EINTR;
        return -1;
    }
    if (k > 0 && (size_t)k < *n) *n = (size_t)k;
    if ((out_bytes += (long)*n) > (4 << 20)) _exit(98);
    return 0;
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (n && cut(fd, &n)) return -1;
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (fd == 1 && getenv("SIM_WRITES")) {
        for (int i = 0; i < cnt; i++)
            if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!getenv("SIM_CLOCK")) return (int)syscall(SYS_clock_gettime, id, ts);
    int64_t k = step(&clocks);
    if (k > 0) clock_off += k * 1000;
    clock_off++;
    ts->tv_sec = 1000000 + clock_off / 1000000;
    ts->tv_nsec = clock_off % 1000000 * 1000;
    return 0;
}
