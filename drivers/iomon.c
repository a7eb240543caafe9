/* System call monitor and fault injector (LD_PRELOAD).
   IOMON_LOG=<file>       event log, one line per call: op \t result \t errno \t path \t detail
   IOMON_FAIL=<spec>[;<spec>...]   spec = op:path substring:n:errno   fails the n-th matching call (n+ : from the n-th on)
                          errno "short": a write writes only half (the next one fails with ENOSPC) / a read returns half
   IOMON_ONLY=<substring> works only in programs whose path holds it
   IOMON_JITTER=<seed>:<max us>    random delay before every path operation and every write
   IOMON_BARRIER=<op>:<path substring>:<n>:<dir>:<count>  waits before the n-th matching call until <count> processes did
   ops: open creat-less names: open read write seek mkdir unlink rmdir rename link trunc close fsync */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXSPEC 16
static char *fdpath[MAXFD];
static int logfd = -1;
static int inited;
static struct { char op[12]; char sub[512]; long n; int from; int err; int shrt; long hits; int fired; } spec[MAXSPEC];
static int nspec;
static unsigned long jseed; static long jmax;
static struct { char op[12]; char sub[512]; long n; char dir[1024]; int count; long hits; int done; } bar;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static int raw_open(const char *p, int fl, int m) { return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
static void raw_close(int fd) { syscall(SYS_close, fd); }

static void init(void)
{
	if (inited) return;
	inited = 1;
	const char *only = getenv("IOMON_ONLY");
	if (only && *only) {
		char exe[PATH_MAX];
		ssize_t k = syscall(SYS_readlink, "/proc/self/exe", exe, sizeof exe - 1);
		if (k <= 0) return;
		exe[k] = 0;
		if (!strstr(exe, only)) return;
	}
	const char *l = getenv("IOMON_LOG");
	if (l && *l) {
		int fd = raw_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
		if (fd >= 0) {
			int hi = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 1000);
			if (hi >= 0) { raw_close(fd); fd = hi; }
			logfd = fd;
		}
	}
	const char *f = getenv("IOMON_FAIL");
	if (f && *f) {
		char *c = strdup(f), *sv = 0;
		for (char *t = strtok_r(c, ";", &sv); t && nspec < MAXSPEC; t = strtok_r(0, ";", &sv)) {
			char *a = strchr(t, ':'); if (!a) continue; *a++ = 0;
			char *b = strchr(a, ':'); if (!b) continue; *b++ = 0;
			char *d = strchr(b, ':'); if (!d) continue; *d++ = 0;
			snprintf(spec[nspec].op, sizeof spec[nspec].op, "%s", t);
			snprintf(spec[nspec].sub, sizeof spec[nspec].sub, "%s", a);
			spec[nspec].n = atol(b);
			spec[nspec].from = strchr(b, '+') != 0;
			if (!strcmp(d, "short")) { spec[nspec].shrt = 1; spec[nspec].err = ENOSPC; }
			else spec[nspec].err = !strcmp(d, "ENOSPC") ? ENOSPC : !strcmp(d, "EACCES") ? EACCES : !strcmp(d, "EIO") ? EIO :
				!strcmp(d, "ENOENT") ? ENOENT : !strcmp(d, "EMFILE") ? EMFILE : !strcmp(d, "EROFS") ? EROFS :
				!strcmp(d, "EDQUOT") ? EDQUOT : !strcmp(d, "EINTR") ? EINTR : atoi(d);
			nspec++;
		}
		free(c);
	}
	const char *j = getenv("IOMON_JITTER");
	if (j && *j) { jseed = strtoul(j, 0, 10); const char *c = strchr(j, ':'); jmax = c ? atol(c + 1) : 0; }
	const char *b = getenv("IOMON_BARRIER");
	if (b && *b) {
		char *c = strdup(b), *sv = 0; char *t[5]; int k = 0;
		for (char *x = strtok_r(c, ":", &sv); x && k < 5; x = strtok_r(0, ":", &sv)) t[k++] = x;
		if (k == 5) {
			snprintf(bar.op, sizeof bar.op, "%s", t[0]); snprintf(bar.sub, sizeof bar.sub, "%s", t[1]);
			bar.n = atol(t[2]); snprintf(bar.dir, sizeof bar.dir, "%s", t[3]); bar.count = atoi(t[4]);
		}
		free(c);
	}
}

__attribute__((constructor)) static void ctor(void) { init(); }

static void event(const char *op, long res, int err, const char *path, const char *detail)
{
	if (logfd < 0) return;
	char buf[9000]; int o = 0;
	o += snprintf(buf, 200, "%s\t%ld\t%d\t", op, res, res < 0 ? err : 0);
	for (const char *p = path ? path : ""; *p && o < 8300; p++) {
		unsigned char c = (unsigned char)*p;
		if (c < 32 || c == '\\' || c == 127) o += snprintf(buf + o, 8, "\\x%02x", c); else buf[o++] = (char)c;
	}
	o += snprintf(buf + o, 400, "\t%s\n", detail ? detail : "");
	syscall(SYS_write, logfd, buf, o);
}

/* IOMON_PEAK=1: at the end of the program, its peak memory in kilobytes */
__attribute__((destructor)) static void peak(void)
{
	const char *w = getenv("IOMON_PEAK");
	if (!w || !*w || logfd < 0) return;
	char b[4096];
	int fd = raw_open("/proc/self/status", O_RDONLY, 0);
	long n = fd >= 0 ? syscall(SYS_read, fd, b, sizeof b - 1) : -1;
	if (fd >= 0) raw_close(fd);
	if (n <= 0) return;
	b[n] = 0;
	char *h = strstr(b, "VmHWM:");
	if (h) event("peak", atol(h + 6), 0, "", "");
}

/* absolute text of a path; no symbolic link is resolved here */
static const char *absol(int dirfd, const char *p, char *out, size_t n)
{
	if (!p) p = "";
	if (p[0] == '/') { snprintf(out, n, "%s", p); return out; }
	char base[PATH_MAX] = "";
	if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0; }
	else {
		char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
		ssize_t r = readlink(l, base, sizeof base - 1); base[r > 0 ? r : 0] = 0;
	}
	snprintf(out, n, "%s/%s", base, p);
	return out;
}

static unsigned long rnd(void)
{
	jseed = jseed * 6364136223846793005UL + 1442695040888963407UL;
	return jseed >> 33;
}

static int interesting(int fd) { return fd > 2 && fd != logfd && fd < MAXFD && fdpath[fd]; }

static void schedule(const char *op, const char *path)
{
	if (jmax) {
		struct timespec ts = {0, (long)(rnd() % (unsigned long)jmax) * 1000L};
		nanosleep(&ts, 0);
	}
	if (bar.count && !bar.done && !strcmp(bar.op, op) && strstr(path, bar.sub)) {
		if (++bar.hits == bar.n) {
			bar.done = 1;
			char f[1200]; snprintf(f, sizeof f, "%s/%d", bar.dir, (int)getpid());
			int fd = raw_open(f, O_WRONLY | O_CREAT, 0666); if (fd >= 0) raw_close(fd);
			for (int i = 0; i < 60000; i++) {
				int c = 0;
				int d = raw_open(bar.dir, O_RDONLY | O_DIRECTORY, 0);
				if (d >= 0) {
					char b[8192]; long r;
					while ((r = syscall(SYS_getdents64, d, b, sizeof b)) > 0)
						for (long k = 0; k < r;) { struct dirent64 *e = (struct dirent64 *)(b + k); if (e->d_name[0] != '.') c++; k += e->d_reclen; }
					raw_close(d);
				}
				if (c >= bar.count) break;
				struct timespec ts = {0, 1000000}; nanosleep(&ts, 0);
			}
		}
	}
}

/* 0: proceed; >0: fail with that errno; -1: short */
static int fault(const char *op, const char *path)
{
	init();
	schedule(op, path);
	for (int i = 0; i < nspec; i++) {
		if (strcmp(spec[i].op, op) || !strstr(path, spec[i].sub)) continue;
		long h = ++spec[i].hits;
		if (h == spec[i].n || (spec[i].from && h > spec[i].n)) {
			if (spec[i].shrt && !spec[i].fired) { spec[i].fired = 1; if (!strcmp(op, "write")) { spec[i].from = 1; } event("INJECT", -1, ENOSPC, path, op); return -1; }
			spec[i].fired = 1;
			event("INJECT", -1, spec[i].err, path, op);
			return spec[i].err;
		}
	}
	return 0;
}

static void setfd(int fd, const char *p)
{
	if (fd < 0 || fd >= MAXFD) return;
	free(fdpath[fd]);
	fdpath[fd] = p ? strdup(p) : 0;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int skip_path(const char *p) { return !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/dev/", 5) ||
	!strncmp(p, "/usr/", 5) || !strncmp(p, "/lib", 4) || !strncmp(p, "/etc/", 5); }

static int do_open(int dirfd, const char *p, int fl, int m)
{
	char a[PATH_MAX * 2]; absol(dirfd, p, a, sizeof a);
	int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
	int sk = skip_path(a) && !wr;
	char det[64]; snprintf(det, sizeof det, "%s%s%s%s", wr ? "w" : "r", fl & O_CREAT ? "c" : "", fl & O_TRUNC ? "t" : "", fl & O_EXCL ? "x" : "");
	if (!sk) {
		int f = fault("open", a);
		if (f > 0) { errno = f; event("open", -1, f, a, det); return -1; }
	}
	int r = (int)syscall(SYS_openat, dirfd, p, fl, m);
	int e = errno;
	if (!sk) { event("open", r, e, a, det); }
	if (r >= 0) setfd(r, sk ? 0 : a);
	errno = e;
	return r;
}

int open(const char *p, int fl, ...)
{
	int m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
	return do_open(AT_FDCWD, p, fl, m);
}
int open64(const char *p, int fl, ...)
{
	int m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
	return do_open(AT_FDCWD, p, fl, m);
}
int openat(int d, const char *p, int fl, ...)
{
	int m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
	return do_open(d, p, fl, m);
}
int openat64(int d, const char *p, int fl, ...)
{
	int m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
	return do_open(d, p, fl, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int modeflags(const char *m)
{
	int plus = strchr(m, '+') != 0;
	int x = strchr(m, 'x') ? O_EXCL : 0;
	int e = strchr(m, 'e') ? O_CLOEXEC : 0;
	switch (m[0]) {
	case 'r': return (plus ? O_RDWR : O_RDONLY) | e;
	case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | x | e;
	default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND | x | e;
	}
}
static FILE *do_fopen(const char *p, const char *m)
{
	int fd = do_open(AT_FDCWD, p, modeflags(m), 0666);
	if (fd < 0) return 0;
	FILE *f = fdopen(fd, m);
	return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }

ssize_t read(int fd, void *b, size_t n)
{
	if (interesting(fd)) {
		int f = fault("read", fdpath[fd]);
		if (f > 0) { errno = f; return -1; }
		if (f < 0) n = n > 1 ? n / 2 : n;
		ssize_t r = syscall(SYS_read, fd, b, n);
		int e = errno; char d[64]; snprintf(d, sizeof d, "%zu", n); event("read", r, e, fdpath[fd], d); errno = e;
		return r;
	}
	return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
	if (interesting(fd)) { int f = fault("read", fdpath[fd]); if (f > 0) { errno = f; return -1; } if (f < 0) n = n > 1 ? n / 2 : n; event("read", 0, 0, fdpath[fd], "pread"); }
	return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n)
{
	if (interesting(fd)) {
		int f = fault("write", fdpath[fd]);
		if (f > 0) { errno = f; event("write", -1, f, fdpath[fd], "injected"); errno = f; return -1; }
		if (f < 0) n = n > 1 ? n / 2 : n;
		ssize_t r = syscall(SYS_write, fd, b, n);
		int e = errno; char d[64]; snprintf(d, sizeof d, "%zu", n); event("write", r, e, fdpath[fd], d); errno = e;
		return r;
	}
	return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
	if (interesting(fd)) { int f = fault("write", fdpath[fd]); if (f > 0) { errno = f; return -1; } event("write", (long)n, 0, fdpath[fd], "pwrite"); }
	return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (interesting(fd)) {
		int f = fault("write", fdpath[fd]);
		if (f > 0) { errno = f; event("write", -1, f, fdpath[fd], "injected"); errno = f; return -1; }
		struct iovec one;
		if (f < 0) { one = v[0]; one.iov_len = one.iov_len > 1 ? one.iov_len / 2 : one.iov_len; v = &one; c = 1; }
		ssize_t r = syscall(SYS_writev, fd, v, c);
		int e = errno; event("write", r, e, fdpath[fd], "writev"); errno = e;
		return r;
	}
	return syscall(SYS_writev, fd, v, c);
}
static off_t do_seek(int fd, off_t o, int w)
{
	if (interesting(fd)) { int f = fault("seek", fdpath[fd]); if (f > 0) { errno = f; return -1; } }
	return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_seek(fd, o, w); }

static int path1(const char *op, int d, const char *p, char *a, size_t n)
{
	absol(d, p, a, n);
	int f = fault(op, a);
	if (f > 0) { event(op, -1, f, a, "injected"); errno = f; return -1; }
	return 0;
}
#define PATHCALL(op, d, p, det, call) do { char a[PATH_MAX * 2]; if (path1(op, d, p, a, sizeof a)) return -1; \
	int r = (int)(call); int e = errno; event(op, r, e, a, det); errno = e; return r; } while (0)
int mkdir(const char *p, mode_t m) { PATHCALL("mkdir", AT_FDCWD, p, "", syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHCALL("mkdir", d, p, "", syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p) { PATHCALL("rmdir", AT_FDCWD, p, "", syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int unlink(const char *p) { PATHCALL("unlink", AT_FDCWD, p, "", syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, const char *p, int fl)
{
	if (fl & AT_REMOVEDIR) PATHCALL("rmdir", d, p, "", syscall(SYS_unlinkat, d, p, fl));
	PATHCALL("unlink", d, p, "", syscall(SYS_unlinkat, d, p, fl));
}
int remove(const char *p)
{
	struct stat st;
	if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(p);
	return unlink(p);
}
int truncate(const char *p, off_t l) { PATHCALL("trunc", AT_FDCWD, p, "", syscall(SYS_truncate, p, l)); }
int truncate64(const char *p, off64_t l) { return truncate(p, l); }
int ftruncate(int fd, off_t l)
{
	if (interesting(fd)) {
		int f = fault("trunc", fdpath[fd]);
		if (f > 0) { errno = f; return -1; }
		int r = (int)syscall(SYS_ftruncate, fd, l); int e = errno; event("trunc", r, e, fdpath[fd], ""); errno = e; return r;
	}
	return (int)syscall(SYS_ftruncate, fd, l);
}
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
static int do_rename(int d1, const char *p, int d2, const char *q)
{
	char a[PATH_MAX * 2], b[PATH_MAX * 2];
	if (path1("rename", d1, p, a, sizeof a)) return -1;
	absol(d2, q, b, sizeof b);
	int r = (int)syscall(SYS_renameat2, d1, p, d2, q, 0); int e = errno;
	event("rename", r, e, a, "from"); event("rename", r, e, b, "to"); errno = e;
	return r;
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q); }
int renameat(int d, const char *p, int d2, const char *q) { return do_rename(d, p, d2, q); }
int link(const char *p, const char *q) { (void)p; PATHCALL("link", AT_FDCWD, q, "", syscall(SYS_linkat, AT_FDCWD, p, AT_FDCWD, q, 0)); }
int symlink(const char *p, const char *q) { PATHCALL("link", AT_FDCWD, q, "sym", syscall(SYS_symlinkat, p, AT_FDCWD, q)); }
int symlinkat(const char *p, int d, const char *q) { PATHCALL("link", d, q, "sym", syscall(SYS_symlinkat, p, d, q)); }
int linkat(int d1, const char *p, int d2, const char *q, int f) { PATHCALL("link", d2, q, "", syscall(SYS_linkat, d1, p, d2, q, f)); }
int chmod(const char *p, mode_t m) { PATHCALL("chmod", AT_FDCWD, p, "", syscall(SYS_fchmodat, AT_FDCWD, p, m)); }

int close(int fd)
{
	if (fd >= 0 && fd == logfd) return 0;
	if (interesting(fd)) {
		event("close", 0, 0, fdpath[fd], "");
		setfd(fd, 0);
	}
	return (int)syscall(SYS_close, fd);
}
int fclose(FILE *f)
{
	REAL(fclose);
	int fd = f ? fileno(f) : -1;
	if (fd >= 0 && fd < MAXFD && interesting(fd)) {
		event("close", 0, 0, fdpath[fd], "");
		setfd(fd, 0);
	}
	return real(f);
}
