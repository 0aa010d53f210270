/*
 * Failing resources.  Linked into the tools with --wrap, so that what they
 * ask of the C library may be made to fail.  With FI_SPEC set, main is run
 * once as it is and then, each time in a child process, once for each of a
 * number of faults; what came of it goes to the file FI_OUT.
 *
 *   FI_SPEC=kind:max:seed	kind: a  one allocation (or opening) fails
 *				      A  it and all after it fail
 *				      r  one read fails
 *				      w  one print on standard output fails
 *				      l  only so many bytes of output fit
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <expat.h>

#define SITES	(1 << 19)
struct shared { long na, nr, nw; long hit; uint64_t site[SITES]; };	/* site: where the counted calls were made (first run only) */
static struct shared *sh;		/* NULL: pass all through */
static char kind;
static long at;

/* The call and the two functions around it. */
extern char __executable_start, etext;
extern char __start_fitext, __stop_fitext;	/* this file's own functions */
static int here(void *p) { return (char *)p >= &__start_fitext && (char *)p < &__stop_fitext; }
static __attribute__((noinline)) uint64_t
where(void)
{
	void **f = __builtin_frame_address(0), **g; uint64_t h = 1469598103934665603ULL; int i, n = 0;

	for (i = 0; i < 8 && n < 3; i++) {
		if ((char *)f[1] < &__executable_start || (char *)f[1] >= &etext) break;
		if (!here(f[1])) {
			h = (h ^ (uint64_t)((char *)f[1] - &__executable_start)) * 1099511628211ULL; n++;
		}
		g = f[0];
		if (g <= f || (char *)g > (char *)f + 65536 || ((uintptr_t)g & 7)) break;
		f = g;
	}
	return h;
}

static int
fail(int c, long *n, int e)
{
	if (sh == NULL)
		return 0;
	(*n)++;
	if (at == 0) {
		if (c == (kind == 'A' ? 'a' : kind) && *n < SITES)
			sh->site[*n] = where();
		return 0;
	}
	if ((kind == c && *n == at) || (kind == 'A' && c == 'a' && *n >= at)) {
		sh->hit = 1;
		errno = e;
		return 1;
	}
	return 0;
}
static long dummy;
#define FA	fail('a', sh ? &sh->na : &dummy, ENOMEM)
#define FR	fail('r', sh ? &sh->nr : &dummy, EIO)
#define FW(f)	((f) == stdout && fail('w', sh ? &sh->nw : &dummy, ENOSPC) && ((f)->_flags |= 0x20))
#define R(t, n, ...) extern t __real_##n(__VA_ARGS__); t __wrap_##n(__VA_ARGS__)

R(void *, malloc, size_t s) { return FA ? NULL : __real_malloc(s); }
R(void *, calloc, size_t a, size_t b) { return FA ? NULL : __real_calloc(a, b); }
R(void *, realloc, void *p, size_t s) { return FA ? NULL : __real_realloc(p, s); }
R(void *, reallocarray, void *p, size_t a, size_t b) { return FA ? NULL : __real_reallocarray(p, a, b); }
R(char *, strdup, const char *s) { return FA ? NULL : __real_strdup(s); }
R(char *, strndup, const char *s, size_t n) { return FA ? NULL : __real_strndup(s, n); }
R(int, vasprintf, char **r, const char *f, va_list a) { if (FA) return -1; return __real_vasprintf(r, f, a); }
int
__wrap_asprintf(char **r, const char *f, ...)
{
	va_list a; int c;
	va_start(a, f); c = __wrap_vasprintf(r, f, a); va_end(a);
	return c;
}
R(FILE *, fopen, const char *p, const char *m) { return fail('a', sh ? &sh->na : &dummy, EMFILE) ? NULL : __real_fopen(p, m); }
R(XML_Parser, XML_ParserCreate, const XML_Char *e) { return FA ? NULL : __real_XML_ParserCreate(e); }
R(int, fgetc, FILE *f) { if (FR) { f->_flags |= 0x20; return EOF; } return __real_fgetc(f); }
R(size_t, fread, void *p, size_t s, size_t n, FILE *f) { if (FR) { f->_flags |= 0x20; return 0; } return __real_fread(p, s, n, f); }
R(ssize_t, read, int d, void *p, size_t s) { return FR ? -1 : __real_read(d, p, s); }
R(int, fputs, const char *s, FILE *f) { return FW(f) ? EOF : __real_fputs(s, f); }
R(int, fputc, int c, FILE *f) { return FW(f) ? EOF : __real_fputc(c, f); }
R(int, putc, int c, FILE *f) { return FW(f) ? EOF : __real_putc(c, f); }
R(size_t, fwrite, const void *p, size_t s, size_t n, FILE *f) { return FW(f) ? 0 : __real_fwrite(p, s, n, f); }
R(int, puts, const char *s) { return FW(stdout) ? EOF : __real_puts(s); }
R(int, putchar, int c) { return FW(stdout) ? EOF : __real_putchar(c); }
R(int, vfprintf, FILE *f, const char *m, va_list a) { return FW(f) ? -1 : __real_vfprintf(f, m, a); }
int
__wrap_fprintf(FILE *f, const char *m, ...)
{
	va_list a; int c;
	va_start(a, m); c = __wrap_vfprintf(f, m, a); va_end(a);
	return c;
}
int
__wrap_printf(const char *m, ...)
{
	va_list a; int c;
	va_start(a, m); c = __wrap_vfprintf(stdout, m, a); va_end(a);
	return c;
}

#define PIPE (1024 * 1024)
static int fep[2] = { -1, -1 };

static char *
slurp(int fd, size_t *sz)
{
	struct stat st;
	char *b; ssize_t n; size_t o = 0;
	if (fd == fep[0]) {
		b = __real_malloc(PIPE + 1);
		while (o < PIPE && (n = __real_read(fd, b + o, PIPE - o)) > 0) o += (size_t)n;
		b[o] = '\0'; *sz = o;
		return b;
	}
	if (fstat(fd, &st) == -1) _exit(120);
	b = __real_malloc((size_t)st.st_size + 1);
	while (o < (size_t)st.st_size && (n = pread(fd, b + o, (size_t)st.st_size - o, (off_t)o)) > 0) o += (size_t)n;
	b[o] = '\0'; *sz = o;
	return b;
}

/* Runs main in a child: returns there, and here when it's done. */
static int
child(long k, int fo, int *st)
{
	pid_t p;
	struct rlimit rl;
	if (ftruncate(fo, 0) == -1) _exit(121);
	sh->na = sh->nr = sh->nw = sh->hit = 0;
	if ((p = fork()) == -1) _exit(122);
	if (p == 0) {
		at = k;
		if (lseek(fo, 0, SEEK_SET) == -1 || dup2(fo, 1) == -1 || dup2(fep[1], 2) == -1) _exit(123);
		close(fep[0]); close(fep[1]); close(fo);
		if (kind == 'l' && k > 0) {
			signal(SIGXFSZ, SIG_IGN);
			rl.rlim_cur = rl.rlim_max = (rlim_t)(k - 1);
			setrlimit(RLIMIT_FSIZE, &rl);
		}
		alarm(30);
		return 1;
	}
	while (waitpid(p, st, 0) == -1)
		if (errno != EINTR) _exit(124);
	return 0;
}

#define SEEN 65536
static uint64_t seen[SEEN];

__attribute__((constructor)) static void
init(void)
{
	const char *s = getenv("FI_SPEC"), *on = getenv("FI_OUT");
	char *o0, *e0, *o, *e, tmp[4096]; size_t os0, es0, os, es;
	long max, n, i, j, k, *pick, np; unsigned long seed; int fo, fr, st0, st; FILE *r; unsigned char *mark;
	struct shared *m;

	if (s == NULL || on == NULL) return;
	kind = s[0];
	if (sscanf(s + 1, ":%ld:%lu", &max, &seed) != 2) _exit(125);
	unsetenv("FI_SPEC");
	m = mmap(NULL, sizeof(*m), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) _exit(126);
	snprintf(tmp, sizeof(tmp), "%s.o", on);
	if ((fo = open(tmp, O_RDWR | O_CREAT | O_TRUNC, 0600)) == -1) _exit(126);
	/* The limit is for the output alone, so diagnostics don't go to a file. */
	if (pipe2(fep, O_NONBLOCK) == -1) _exit(126);
	(void)fcntl(fep[1], F_SETPIPE_SZ, PIPE);
	sh = m;
	if (child(0, fo, &st0)) return;
	n = kind == 'r' ? m->nr : kind == 'w' ? m->nw : m->na;
	sh = NULL;
	o0 = slurp(fo, &os0); e0 = slurp(fep[0], &es0);
	if (kind == 'l') n = (long)os0;
	if ((fr = open(on, O_WRONLY | O_CREAT | O_TRUNC, 0600)) == -1 || (r = fdopen(fr, "w")) == NULL) _exit(126);
	__real_fprintf(r, "base %d %zu %zu %ld\n", st0, os0, es0, n);
	fflush(r);
	mark = __real_calloc((size_t)n + 2, 1);
	pick = __real_calloc((size_t)n + 2, sizeof(*pick)); np = 0;
	if (n > max && kind != 'l') {	/* first one of each place, in an order of chance */
		for (i = 1; i <= n && i < SITES; i++) pick[np++] = i;
		for (i = np - 1; i > 0; i--) {
			seed = seed * 6364136223846793005UL + 1442695040888963407UL; j = (long)((seed >> 33) % (unsigned long)(i + 1));
			k = pick[i]; pick[i] = pick[j]; pick[j] = k;
		}
		for (i = j = 0; i < np; i++) {
			uint64_t h = m->site[pick[i]], b = h % SEEN;
			while (seen[b] != 0 && seen[b] != h && b < SEEN - 1) b++;
			if (seen[b] == h) continue;
			seen[b] = h; pick[j++] = pick[i];
		}
		np = j;
	}
	for (i = 0; i < (n < max ? n : max); i++) {
		if (n <= max) k = i + 1;
		else if (i == 0) k = 1;
		else if (i == 1) k = n;
		else if (i - 2 < np) k = pick[i - 2];
		else { seed = seed * 6364136223846793005UL + 1442695040888963407UL; k = (long)((seed >> 33) % (unsigned long)n) + 1; }
		if (mark[k]) continue;
		mark[k] = 1;
		sh = m;
		if (child(k, fo, &st)) return;
		sh = NULL;
		o = slurp(fo, &os); e = slurp(fep[0], &es);
		__real_fprintf(r, "%ld %d %d %d %zu %ld", k, st, os == os0 && memcmp(o, o0, os) == 0, es == es0 && memcmp(e, e0, es) == 0, es, m->hit);
		if (st != st0 || os != os0 || memcmp(o, o0, os)) {
			if (es > 1500) es = 1500;
			__real_fprintf(r, " ");
			for (os = 0; os < es; os++) __real_fprintf(r, "%02x", (unsigned char)e[os]);
		}
		__real_fprintf(r, "\n");
		fflush(r);
		free(o); free(e);
	}
	fclose(r);
	unlink(tmp);
	_exit(0);
}
