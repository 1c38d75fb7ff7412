/* LD_PRELOAD: counts the operations that create or write regular files below $VP_FAULT_DIR and makes chosen ones fail.
   $VP_FAULT_AT=n and $VP_FAULT_KIND: the n-th operation. A file name with "flt-<kind>-<n>" in it: the n-th operation on that file.
   kinds: once (this operation fails, EIO), full (this and all later ones fail, ENOSPC), short (half of it is written, all later ones fail, ENOSPC),
          open (EACCES, only opening), eintr (interrupted once), half (half of it is written, no error)
   $VP_FAULT_LOG: one line per operation: number, call, path, size, kind of fault or "-" */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static long total, full;
static struct { char path[PATH_MAX]; long n, full; } files[64];
static int n_files;

enum { NONE, ONCE, FULL, SHORT, OPEN, EINTR_, HALF };
static const char* kinds[] = {"-", "once", "full", "short", "open", "eintr", "half"};

static int kind_of(const char* s, size_t len) {
	for (int i = 1; i < 7; i++)
		if (strlen(kinds[i]) == len && !strncmp(s, kinds[i], len)) return i;
	return NONE;
}

static int tracked(const char* p) {
	const char* d = getenv("VP_FAULT_DIR");
	return d && *d && !strncmp(p, d, strlen(d)) && p[strlen(d)] == '/';
}

static int absolute(const char* p, char* out) {
	char b[PATH_MAX];
	if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
	else {
		if (!getcwd(out, PATH_MAX)) return 0;
		if ((size_t)snprintf(b, sizeof b, "%s/%s", out, p) >= sizeof b) return 0;
	}
	/* a//b, a/./b, a/x/../b */
	char* o = out;
	for (char* s = b; *s;) {
		while (*s == '/') s++;
		char* e = s;
		while (*e && *e != '/') e++;
		size_t n = e - s;
		if (n == 0 || (n == 1 && *s == '.')) ;
		else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/') ; }
		else { *o++ = '/'; memcpy(o, s, n); o += n; }
		s = e;
	}
	*o = 0;
	return 1;
}

static int path_of(int fd, char* out) {
	char l[64];
	struct stat st;
	if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(l, out, PATH_MAX - 1);
	if (n <= 0) return 0;
	out[n] = 0;
	return 1;
}

/* which fault this operation gets */
static int fault(const char* call, const char* path, size_t size) {
	int f = NONE, opening = !strcmp(call, "open"), sending = !strcmp(call, "sendfile");
	if (!tracked(path)) return NONE;
	pthread_mutex_lock(&mutex);
	long n = ++total;
	const char* at = getenv("VP_FAULT_AT");
	const char* k = getenv("VP_FAULT_KIND");
	if (full) f = FULL;
	else if (at && k && atol(at) == n) {
		f = kind_of(k, strlen(k));
		if (f == FULL || f == SHORT) full = 1;
	}
	const char* s = strstr(path, "flt-");
	if (s) {
		s += 4;
		const char* e = strchr(s, '-');
		int i = 0;
		while (i < n_files && strcmp(files[i].path, path)) i++;
		if (i == n_files && n_files < 63) snprintf(files[n_files++].path, PATH_MAX, "%s", path);
		long m = ++files[i].n;
		if (files[i].full) f = FULL;
		else if (e && atol(e + 1) == m) {
			f = kind_of(s, e - s);
			if (f == FULL || f == SHORT) files[i].full = 1;
		}
	}
	if (f == OPEN && !opening) f = ONCE;
	if ((f == EINTR_ || f == HALF) && (opening || sending || size < 2)) f = NONE;
	if (f == SHORT && (opening || sending || size < 2)) f = FULL;
	const char* log = getenv("VP_FAULT_LOG");
	if (log && *log) {
		char b[PATH_MAX + 100];
		int len = snprintf(b, sizeof b, "%ld\t%s\t%s\t%zu\t%s\n", n, call, path, size, kinds[f]);
		int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if (fd >= 0) { syscall(SYS_write, fd, b, (size_t)len); syscall(SYS_close, fd); }
	}
	pthread_mutex_unlock(&mutex);
	return f;
}

static int refuse(int f) {
	if (f == NONE || f == EINTR_ || f == HALF || f == SHORT) return 0;
	errno = f == OPEN ? EACCES : f == FULL ? ENOSPC : EIO;
	return 1;
}

static int opening(const char* p, int flags) {
	char b[PATH_MAX];
	struct stat st;
	if ((flags & O_ACCMODE) == O_RDONLY || !absolute(p, b)) return 0;
	if (!stat(b, &st) && !S_ISREG(st.st_mode)) return 0;
	return refuse(fault("open", b, 0));
}

#define REAL(name, type) static __typeof__(type)* real; if (!real) real = (__typeof__(type)*)dlsym(RTLD_NEXT, name)
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }

int open(const char* p, int flags, ...) { MODE REAL("open", int (const char*, int, ...)); return opening(p, flags) ? -1 : real(p, flags, m); }
int open64(const char* p, int flags, ...) { MODE REAL("open64", int (const char*, int, ...)); return opening(p, flags) ? -1 : real(p, flags, m); }
int openat(int d, const char* p, int flags, ...) { MODE REAL("openat", int (int, const char*, int, ...)); return (d == AT_FDCWD || p[0] == '/') && opening(p, flags) ? -1 : real(d, p, flags, m); }
static int fmode(const char* m) { return m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : O_WRONLY; }
FILE* fopen(const char* p, const char* m) { REAL("fopen", FILE* (const char*, const char*)); return opening(p, fmode(m)) ? NULL : real(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL("fopen64", FILE* (const char*, const char*)); return opening(p, fmode(m)) ? NULL : real(p, m); }

ssize_t write(int fd, const void* b, size_t n) {
	REAL("write", ssize_t (int, const void*, size_t));
	char p[PATH_MAX];
	int e = errno, f = path_of(fd, p) ? fault("write", p, n) : NONE;
	errno = e;
	if (f == EINTR_) { errno = EINTR; return -1; }
	if (refuse(f)) return -1;
	return real(fd, b, f == HALF || f == SHORT ? n / 2 : n);
}

ssize_t writev(int fd, const struct iovec* v, int c) {
	REAL("writev", ssize_t (int, const struct iovec*, int));
	char p[PATH_MAX];
	size_t n = 0;
	for (int i = 0; i < c; i++) n += v[i].iov_len;
	int e = errno, f = path_of(fd, p) ? fault("writev", p, n) : NONE;
	errno = e;
	if (f == EINTR_) { errno = EINTR; return -1; }
	if (refuse(f)) return -1;
	if (f == HALF || f == SHORT) {	/* the first part, or half of it when it is alone */
		if (c > 1 && v[0].iov_len) return real(fd, v, 1);
		struct iovec h = v[c - 1];
		if (c > 1) { h = v[1]; }
		h.iov_len = h.iov_len / 2 + 1;
		return real(fd, &h, 1);
	}
	return real(fd, v, c);
}

ssize_t sendfile(int o, int i, off_t* off, size_t n) {
	REAL("sendfile", ssize_t (int, int, off_t*, size_t));
	char p[PATH_MAX];
	int e = errno, f = path_of(o, p) ? fault("sendfile", p, n) : NONE;
	errno = e;
	return refuse(f) ? -1 : real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) {
	REAL("sendfile64", ssize_t (int, int, off64_t*, size_t));
	char p[PATH_MAX];
	int e = errno, f = path_of(o, p) ? fault("sendfile", p, n) : NONE;
	errno = e;
	return refuse(f) ? -1 : real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned int fl) {
	REAL("copy_file_range", ssize_t (int, off64_t*, int, off64_t*, size_t, unsigned int));
	char p[PATH_MAX];
	int e = errno, f = path_of(o, p) ? fault("sendfile", p, n) : NONE;
	errno = e;
	return refuse(f) ? -1 : real(i, io, o, oo, n, fl);
}
