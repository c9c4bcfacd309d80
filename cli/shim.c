// Stands in for the kernel below the command-line tool: every transfer on descriptors 0, 1 and 2, the
// terminal test, the clock and the random source are decided by the plan file named in SNCLI_PLAN.
// Standard output and error are still written to the real descriptors (regular files), so what they
// hold afterwards is what a device would have received.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXACT 65536
#define LOGMAX (1 << 20)
struct acts { int n, next, rest; int v[MAXACT]; };
static struct acts rd, wr, er;
static int on, tty, canon;
static const unsigned char *data;
static size_t len, pos;
static int64_t clock_base, clock_step;
static uint64_t clock_calls, rng;
static struct { uint64_t at; int64_t delta; } jumps[64];
static int njumps;
static uint64_t calls, total;
static char *logp;
static size_t logn;

static void note(const char *s, size_t n) {
	if (logp && logn + n < LOGMAX - 8) { memcpy(logp + 8 + logn, s, n); logn += n; *(uint64_t *)logp = logn; }
}
static void event(char what, long asked, long got) {
	char b[64];
	int n = snprintf(b, sizeof b, "%c %ld %ld\n", what, asked, got);
	note(b, (size_t)n);
}
static void die(const char *why) {
	note("! ", 2); note(why, strlen(why)); note("\n", 1);
	syscall(SYS_exit_group, 99);
}
static void numbers(struct acts *a, char *s) {
	char *e;
	for (;;) {
		long x = strtol(s, &e, 10);
		if (e == s) break;
		if (a->n < MAXACT) a->v[a->n++] = (int)x;
		s = e;
	}
}
__attribute__((constructor)) static void start(void) {
	const char *p = getenv("SNCLI_PLAN"), *l = getenv("SNCLI_LOG");
	if (!p || !l) return;
	int fd = open(p, O_RDONLY | O_CLOEXEC);
	if (fd < 0) syscall(SYS_exit_group, 98);
	off_t n = lseek(fd, 0, SEEK_END);
	char *m = mmap(0, (size_t)n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, 0);
	close(fd);
	int lf = open(l, O_RDWR | O_CLOEXEC);
	if (m == MAP_FAILED || lf < 0) syscall(SYS_exit_group, 98);
	logp = mmap(0, LOGMAX, PROT_READ | PROT_WRITE, MAP_SHARED, lf, 0);
	close(lf);
	if (logp == MAP_FAILED) syscall(SYS_exit_group, 98);
	char *s = m, *end = m + n;
	while (s < end) {
		char *nl = memchr(s, '\n', (size_t)(end - s));
		if (!nl) break;
		*nl = 0;
		if (!strncmp(s, "tty ", 4)) tty = atoi(s + 4);
		else if (!strncmp(s, "canon ", 6)) canon = atoi(s + 6);
		else if (!strncmp(s, "clock ", 6)) { char *e; clock_base = strtoll(s + 6, &e, 10); clock_step = strtoll(e, &e, 10); }
		else if (!strncmp(s, "jump ", 5) && njumps < 64) { char *e; jumps[njumps].at = strtoull(s + 5, &e, 10); jumps[njumps++].delta = strtoll(e, &e, 10); }
		else if (!strncmp(s, "random ", 7)) rng = strtoull(s + 7, 0, 10);
		else if (!strncmp(s, "r ", 2)) numbers(&rd, s + 2);
		else if (!strncmp(s, "w ", 2)) numbers(&wr, s + 2);
		else if (!strncmp(s, "e ", 2)) numbers(&er, s + 2);
		else if (!strncmp(s, "rrest ", 6)) rd.rest = atoi(s + 6);
		else if (!strncmp(s, "wrest ", 6)) wr.rest = atoi(s + 6);
		else if (!strncmp(s, "erest ", 6)) er.rest = atoi(s + 6);
		else if (!strncmp(s, "data ", 5)) { len = strtoul(s + 5, 0, 10); data = (unsigned char *)nl + 1; break; }
		s = nl + 1;
	}
	on = 1;
}
static int act(struct acts *a) {
	if (++calls > 200000) die("too many transfers");
	return a->next < a->n ? a->v[a->next++] : a->rest;
}
static ssize_t sim_read(void *b, size_t n) {
	int x = act(&rd);
	if (x < 0) { event('R', (long)n, x); errno = -x; return -1; }
	size_t k = n;
	if (x > 0 && (size_t)x < k) k = (size_t)x;
	if (len - pos < k) k = len - pos;
	if (tty && canon && k) {
		unsigned char *q = memchr(data + pos, '\n', k);
		if (q) k = (size_t)(q + 1 - (data + pos));
	}
	if (k) memcpy(b, data + pos, k);
	pos += k;
	event('r', (long)n, (long)k);
	return (ssize_t)k;
}
static ssize_t sim_write(int fd, const void *b, size_t n) {
	int x = act(fd == 1 ? &wr : &er);
	char c = fd == 1 ? 'w' : 'e';
	if (x == -1000) { event((char)(c - 32), (long)n, 0); return 0; }
	if (x < 0) {
		event((char)(c - 32), (long)n, x);
		if (x == -EPIPE) raise(SIGPIPE);
		errno = -x;
		return -1;
	}
	size_t k = n;
	if (x > 0 && (size_t)x < k) k = (size_t)x;
	total += k;
	if (total > (size_t)48 << 20) die("too much output");
	size_t d = 0;
	while (d < k) {
		long r = syscall(SYS_write, fd, (const char *)b + d, k - d);
		if (r <= 0) die("the capture file cannot be written");
		d += (size_t)r;
	}
	event(c, (long)n, (long)k);
	return (ssize_t)k;
}
ssize_t read(int fd, void *b, size_t n) {
	return on && fd == 0 ? sim_read(b, n) : syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
	if (!(on && fd == 0)) return syscall(SYS_readv, fd, v, c);
	for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(v[i].iov_base, v[i].iov_len);
	return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
	return on && (fd == 1 || fd == 2) ? sim_write(fd, b, n) : syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
	if (!(on && (fd == 1 || fd == 2))) return syscall(SYS_writev, fd, v, c);
	for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len);
	return 0;
}
int isatty(int fd) {
	if (on && fd >= 0 && fd <= 2) {
		note(tty ? "t 1 0\n" : "t 0 0\n", 6);
		if (tty) return 1;
		errno = ENOTTY;
		return 0;
	}
	errno = ENOTTY;
	return 0;
}
int clock_gettime(clockid_t id, struct timespec *t) {
	if (!on) return (int)syscall(SYS_clock_gettime, id, t);
	uint64_t k = clock_calls++;
	int64_t d = 0;
	for (int i = 0; i < njumps; i++) if (jumps[i].at <= k) d += jumps[i].delta;
	if (id == CLOCK_MONOTONIC && d < 0) d = 0;
	int64_t ns = clock_base + clock_step * (int64_t)k + d;
	t->tv_sec = ns / 1000000000;
	t->tv_nsec = ns % 1000000000;
	return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
	(void)f;
	for (size_t i = 0; i < n; i++) { rng = rng * 6364136223846793005u + 1442695040888963407u; ((unsigned char *)b)[i] = (unsigned char)(rng >> 33); }
	note("g 0 0\n", 6);
	return (ssize_t)n;
}

// the process and thread ids appear in panic messages
pid_t gettid(void) { return on ? 4242 : (pid_t)syscall(SYS_gettid); }
pid_t getpid(void) { return on ? 4242 : (pid_t)syscall(SYS_getpid); }
