/* Models of the libc facilities the assembler uses (or could reasonably use).
   The same code runs under the symbolic executor and in the native replay. */
#include "libc.h"
#include "sx.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef FILE

uint8_t src[SRC_MAX];
int src_n;
const char *src_name = "in.asm";
int src_missing;
uint64_t out_pos[OUT_MAX];
uint8_t out_val[OUT_MAX];
uint8_t out_fd[OUT_MAX];
int out_n;
uint8_t txt[TXT_MAX];
int txt_n;
struct gx_file gx_files[NFILES] = {
    {.used = 1, .open = 1, .rd = 1, .kind = 2, .unget = -1},
    {.used = 1, .open = 1, .wr = 1, .kind = 2, .unget = -1},
    {.used = 1, .open = 1, .wr = 1, .kind = 2, .unget = -1},
};
int gx_nfiles = 3;
GX_FILE *gx_stdin = &gx_files[0], *gx_stdout = &gx_files[1], *gx_stderr = &gx_files[2];
int gx_bad_close;
int fi_alloc, fi_alloc_sticky, n_alloc;
int fi_read_at = -1, fi_out_open, fi_write, fi_flush, n_write, n_flush, n_fault;
void (*gx_on_exit)(int, int);

/* ------------------------------------------------------------- process */
void gx_exit(int status)
{
	if (gx_on_exit)
		gx_on_exit(status, 1);
	sx_done();
}
int gx_setvbuf(GX_FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
char *gx_setlocale(int c, const char *l) { (void)c; (void)l; return (char *)"C"; }
char *gx_strerror(int e) { (void)e; return (char *)"error"; }
char *gx_getenv(const char *n) { (void)n; return NULL; }
#ifdef GX_SYMBOLIC
static int gx_errno;
int *__errno_location(void) { return &gx_errno; }
#endif

/* ------------------------------------------------------------- memory */
static int fail_now(void)
{
	n_alloc++;
	if (fi_alloc && (n_alloc == fi_alloc || (fi_alloc_sticky && n_alloc > fi_alloc))) {
		n_fault++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
void *gx_malloc(size_t n) { return fail_now() ? NULL : malloc(n); }
void *gx_calloc(size_t a, size_t b) { return fail_now() ? NULL : calloc(a, b); }
void *gx_realloc(void *p, size_t n) { return fail_now() ? NULL : realloc(p, n); }
void gx_free(void *p) { free(p); }
char *gx_strndup(const char *s, size_t max)
{
	size_t n = 0;
	while (n < max && s[n])
		n++;
	char *p = gx_malloc(n + 1);
	if (!p)
		return NULL;
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
char *gx_strdup(const char *s) { return gx_strndup(s, (size_t)-1); }

/* ------------------------------------------------------------- files */
static uint64_t out_length(int fd)
{
	uint64_t n = (uint64_t)gx_files[fd].old;
	for (int i = 0; i < out_n; i++)
		if (out_fd[i] == fd)
			n = out_pos[i] >= n ? out_pos[i] + 1 : n;
	return n;
}
GX_FILE *gx_fopen(const char *name, const char *mode)
{
	int rd = mode[0] == 'r', wr = mode[0] == 'w' || mode[0] == 'a', plus = 0;
	for (int i = 1; mode[i]; i++)
		plus |= mode[i] == '+';
	if (gx_nfiles == NFILES)
		sx_fail("too many files are opened");
	int is_src = strcmp(name, src_name) == 0;
	if (is_src && src_missing) {
		errno = ENOENT;
		return NULL;
	}
	if (!is_src && (fi_out_open || rd)) {
		n_fault += fi_out_open;
		errno = EACCES;
		return NULL;
	}
	struct gx_file *f = &gx_files[gx_nfiles++];
	memset(f, 0, sizeof *f);
	f->used = f->open = 1;
	f->rd = rd || plus;
	f->wr = wr || plus;
	f->app = mode[0] == 'a';
	f->kind = is_src ? 0 : 1;
	f->unget = -1;
	f->old = !is_src && mode[0] != 'w' ? 7 : 0;
	int i = 0;
	for (; name[i] && i < 5199; i++)
		f->name[i] = name[i];
	f->name[i] = 0;
	return f;
}
static void use(GX_FILE *f)
{
	if (!f->open)
		sx_fail("a closed file is used");
}
static int flush_fault(GX_FILE *f)
{
	if (f->kind != 1)
		return 0;
	n_flush++;
	if (fi_flush && n_flush == fi_flush) {
		n_fault++;
		f->err = 1;
		errno = ENOSPC;
		return 1;
	}
	return 0;
}
int gx_fclose(GX_FILE *f)
{
	f->closes++;
	if (!f->open) {
		gx_bad_close++;
		sx_fail("a file is closed twice");
	}
	f->open = 0;
	return flush_fault(f) ? EOF : 0;
}
int gx_fflush(GX_FILE *f) { return f && f->kind == 1 && flush_fault(f) ? EOF : 0; }
int gx_fseek(GX_FILE *f, long off, int whence)
{
	use(f);
	if (f->kind == 1 && flush_fault(f))
		return -1;
	uint64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->pos : f->kind == 0 ? (uint64_t)src_n : out_length((int)(f - gx_files));
	if ((long)(base + (uint64_t)off) < 0) {
		errno = EINVAL;
		return -1;
	}
	f->pos = base + (uint64_t)off;
	f->eof = 0;
	f->unget = -1;
	return 0;
}
long gx_ftell(GX_FILE *f) { use(f); return (long)f->pos; }
void gx_rewind(GX_FILE *f) { gx_fseek(f, 0, SEEK_SET); f->err = 0; }
static void emit(int c)
{
	if (txt_n >= TXT_MAX)
		sx_fail("the assembler prints without end");
	txt[txt_n++] = (uint8_t)c;
}
int gx_fputc(int c, GX_FILE *f)
{
	use(f);
	if (f->kind == 2) {
		emit(c);
		return (uint8_t)c;
	}
	if (!f->wr) {
		f->err = 1;
		errno = EBADF;
		return EOF;
	}
	n_write++;
	if (fi_write && n_write >= fi_write) {
		n_fault++;
		f->err = 1;
		errno = ENOSPC;
		return EOF;
	}
	if (f->kind == 0)
		sx_fail("the source file is written to");
	if (out_n >= OUT_MAX)
		sx_fail("the assembler writes without end");
	if (f->app)
		f->pos = out_length((int)(f - gx_files));
	out_pos[out_n] = f->pos++;
	out_val[out_n] = (uint8_t)c;
	out_fd[out_n++] = (uint8_t)(f - gx_files);
	return (uint8_t)c;
}
int gx_fgetc(GX_FILE *f)
{
	use(f);
	if (f->unget >= 0) {
		int c = f->unget;
		f->unget = -1;
		f->pos++;
		return c;
	}
	if (!f->rd || f->kind == 2) {
		if (!f->rd)
			f->err = 1;
		else
			f->eof = 1;
		return EOF;
	}
	if (f->kind == 1) {
		int v = EOF;
		uint64_t len = out_length((int)(f - gx_files));
		if (f->pos < len)
			v = 0;
		for (int i = 0; i < out_n; i++)
			if (out_fd[i] == f - gx_files)
				v = out_pos[i] == f->pos ? out_val[i] : v;
		if (f->pos < len)
			f->pos++;
		else
			f->eof = 1;
		return v;
	}
	if (fi_read_at >= 0 && f->pos >= (uint64_t)fi_read_at) {
		n_fault++;
		f->err = 1;
		errno = EIO;
		return EOF;
	}
	if (f->pos >= (uint64_t)src_n) {
		f->eof = 1;
		return EOF;
	}
	return src[f->pos++];
}
int gx_ungetc(int c, GX_FILE *f)
{
	if (c == EOF)
		return EOF;
	f->unget = (uint8_t)c;
	f->pos--;
	f->eof = 0;
	return (uint8_t)c;
}
int gx_feof(GX_FILE *f) { use(f); return f->eof; }
int gx_ferror(GX_FILE *f) { use(f); return f->err; }
void gx_clearerr(GX_FILE *f) { use(f); f->eof = f->err = 0; }
char *gx_fgets(char *b, int n, GX_FILE *f)
{
	int i = 0;
	if (n <= 0)
		return NULL;
	while (i < n - 1) {
		int c = gx_fgetc(f);
		if (c == EOF) {
			if (i == 0 || f->err)
				return NULL;
			break;
		}
		b[i++] = (char)c;
		if (c == '\n')
			break;
	}
	b[i] = 0;
	return b;
}
ssize_t gx_getline(char **b, size_t *cap, GX_FILE *f)
{
	use(f);
	/* the end of the line first, then one copy */
	if (f->kind == 0 && f->unget < 0 && f->rd) {
		int start = (int)f->pos, end = start, stop = src_n;
		int fault = fi_read_at >= 0 && fi_read_at < src_n;
		if (fault)
			stop = fi_read_at;
		while (end < stop && src[end] != '\n')
			end++;
		if (end < stop)
			end++;
		else if (fault) {
			/* glibc returns the characters read before the error, if any */
			f->pos = (uint64_t)end;
			n_fault++;
			f->err = 1;
			errno = EIO;
			if (end == start)
				return -1;
		}
		size_t n = (size_t)(end - start);
		if (!*b || *cap < n + 1) { /* before the end of the file is noticed, as glibc does */
			char *q = gx_realloc(*b, n + 1);
			if (!q)
				return -1;
			*b = q;
			*cap = n + 1;
		}
		if (!fault && (end == start || src[end - 1] != '\n')) {
			f->eof = 1;
			if (end == start)
				return -1;
		}
		memcpy(*b, src + start, n);
		(*b)[n] = 0;
		f->pos = (uint64_t)end;
		return (ssize_t)n;
	}
	f->err = 1;
	return -1;
}
size_t gx_fwrite(const void *p, size_t sz, size_t n, GX_FILE *f)
{
	const uint8_t *q = p;
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < sz; j++)
			if (gx_fputc(q[i * sz + j], f) == EOF)
				return i;
	return n;
}
size_t gx_fread(void *p, size_t sz, size_t n, GX_FILE *f)
{
	uint8_t *q = p;
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < sz; j++) {
			int c = gx_fgetc(f);
			if (c == EOF)
				return i;
			q[i * sz + j] = (uint8_t)c;
		}
	return n;
}
int gx_fputs(const char *s, GX_FILE *f)
{
	for (; *s; s++)
		if (gx_fputc((uint8_t)*s, f) == EOF)
			return EOF;
	return 1;
}
int gx_puts(const char *s)
{
	gx_fputs(s, gx_stdout);
	emit('\n');
	return 1;
}
int gx_putchar(int c) { return gx_fputc(c, gx_stdout); }
void gx_perror(const char *s)
{
	if (s && *s) {
		gx_fputs(s, gx_stderr);
		gx_fputs(": ", gx_stderr);
	}
	gx_fputs("error\n", gx_stderr);
}
int gx_remove(const char *n) { (void)n; return 0; }

/* ------------------------------------------------------------- printf */
struct sink {
	GX_FILE *f;
	char *b;
	size_t cap, n;
};
static void put(struct sink *s, int c)
{
	if (s->f)
		gx_fputc(c, s->f);
	else if (s->n + 1 < s->cap)
		s->b[s->n] = (char)c;
	s->n++;
}
static void fmt(struct sink *s, const char *p, va_list ap)
{
	for (; *p; p++) {
		if (*p != '%') {
			put(s, (uint8_t)*p);
			continue;
		}
		const char *spec = p++;
		int zero = 0, left = 0, plus = 0, alt = 0, space = 0, width = 0, prec = -1, len = 0;
		for (;; p++) {
			if (*p == '0') zero = 1;
			else if (*p == '-') left = 1;
			else if (*p == '+') plus = 1;
			else if (*p == '#') alt = 1;
			else if (*p == ' ') space = 1;
			else break;
		}
		if (*p == '*') {
			width = (int)sx_conc((uint64_t)va_arg(ap, int));
			if (width < 0) {
				left = 1;
				width = -width;
			}
			p++;
		} else
			while (*p >= '0' && *p <= '9')
				width = width * 10 + *p++ - '0';
		if (*p == '.') {
			p++;
			prec = 0;
			if (*p == '*') {
				prec = (int)sx_conc((uint64_t)va_arg(ap, int));
				p++;
			} else
				while (*p >= '0' && *p <= '9')
					prec = prec * 10 + *p++ - '0';
		}
		while (*p == 'l' || *p == 'h' || *p == 'z' || *p == 'j' || *p == 't') {
			len += *p == 'h' ? -1 : *p == 'l' ? 1 : 2;
			p++;
		}
		if (*p == '%') {
			put(s, '%');
			continue;
		}
		if (*p == 'c') {
			int c = va_arg(ap, int);
			for (int i = 1; !left && i < width; i++)
				put(s, ' ');
			put(s, (uint8_t)c);
			for (int i = 1; left && i < width; i++)
				put(s, ' ');
			continue;
		}
		if (*p == 's') {
			const char *q = va_arg(ap, const char *);
			int n = 0;
			if (!q)
				q = "(null)";
			if (width)
				while ((prec < 0 || n < prec) && q[n])
					n++;
			for (int i = n; !left && i < width; i++)
				put(s, ' ');
			for (int i = 0; (prec < 0 || i < prec) && q[i]; i++)
				put(s, (uint8_t)q[i]);
			for (int i = n; left && i < width; i++)
				put(s, ' ');
			continue;
		}
		uint64_t v;
		int neg = 0, base = 10, up = 0;
		if (*p == 'd' || *p == 'i') {
			int64_t x = len >= 1 ? va_arg(ap, long) : va_arg(ap, int);
			x = (int64_t)sx_conc((uint64_t)x);
			if (len == -1)
				x = (short)x;
			if (len == -2)
				x = (signed char)x;
			neg = x < 0;
			v = neg ? 0 - (uint64_t)x : (uint64_t)x;
		} else {
			v = 0;
			if (*p == 'p') {
				v = (uint64_t)(uintptr_t)va_arg(ap, void *);
				alt = 1;
			} else if (*p == 'x' || *p == 'X' || *p == 'o' || *p == 'u')
				v = len >= 1 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			v = sx_conc(v);
			if (len == -1)
				v = (unsigned short)v;
			if (len == -2)
				v = (unsigned char)v;
			base = *p == 'x' || *p == 'X' || *p == 'p' ? 16 : *p == 'o' ? 8 : *p == 'u' ? 10 : 0;
			up = *p == 'X';
			if (!base && memchr("eEfFgGaAnmCSL", *p, 13))
				sx_fail("model: unsupported conversion in a format string");
			if (!base) { /* printed as it is */
				for (; spec < p; spec++)
					put(s, (uint8_t)*spec);
				if (!*p)
					return;
				put(s, (uint8_t)*p);
				continue;
			}
		}
		char d[70];
		int n = 0;
		uint64_t y = v;
		do {
			d[n++] = (up ? "0123456789ABCDEF" : "0123456789abcdef")[y % (unsigned)base];
			y /= (unsigned)base;
		} while (y);
		if (prec == 0 && v == 0)
			n = 0;
		while (n < prec && n < 60)
			d[n++] = '0';
		int extra = neg || plus || space ? 1 : 0;
		if (alt && base == 16 && v)
			extra += 2;
		if (prec >= 0 || left)
			zero = 0;
		for (int i = n + extra; !left && !zero && i < width; i++)
			put(s, ' ');
		if (neg || plus || space)
			put(s, neg ? '-' : plus ? '+' : ' ');
		if (alt && base == 16 && v) {
			put(s, '0');
			put(s, up ? 'X' : 'x');
		}
		for (int i = n + extra; zero && i < width; i++)
			put(s, '0');
		while (n)
			put(s, d[--n]);
		for (int i = n + extra; left && i < width; i++)
			put(s, ' ');
	}
}
int gx_vfprintf(GX_FILE *f, const char *p, va_list ap)
{
	struct sink s = {.f = f};
	fmt(&s, p, ap);
	return (int)s.n;
}
int gx_vprintf(const char *p, va_list ap) { return gx_vfprintf(gx_stdout, p, ap); }
int gx_printf(const char *p, ...)
{
	va_list ap;
	va_start(ap, p);
	int r = gx_vfprintf(gx_stdout, p, ap);
	va_end(ap);
	return r;
}
int gx_fprintf(GX_FILE *f, const char *p, ...)
{
	va_list ap;
	va_start(ap, p);
	int r = gx_vfprintf(f, p, ap);
	va_end(ap);
	return r;
}
int gx_vsnprintf(char *b, size_t n, const char *p, va_list ap)
{
	struct sink s = {.b = b, .cap = n};
	fmt(&s, p, ap);
	if (n)
		b[s.n < n ? s.n : n - 1] = 0;
	return (int)s.n;
}
int gx_snprintf(char *b, size_t n, const char *p, ...)
{
	va_list ap;
	va_start(ap, p);
	int r = gx_vsnprintf(b, n, p, ap);
	va_end(ap);
	return r;
}
int gx_sprintf(char *b, const char *p, ...)
{
	va_list ap;
	va_start(ap, p);
	int r = gx_vsnprintf(b, (size_t)1 << 30, p, ap);
	va_end(ap);
	return r;
}

/* ------------------------------------------------------------- ctype (C locale of glibc) */
int gx_isdigit(int c) { return (unsigned)c - '0' < 10; }
int gx_isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int gx_isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int gx_isxdigit(int c) { return (((unsigned)c | 32) - 'a' < 6) | ((unsigned)c - '0' < 10); }
int gx_isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5); }
int gx_isblank(int c) { return (c == ' ') | (c == '\t'); }
int gx_isupper(int c) { return (unsigned)c - 'A' < 26; }
int gx_islower(int c) { return (unsigned)c - 'a' < 26; }
int gx_isprint(int c) { return (unsigned)c - 32 < 95; }
int gx_isgraph(int c) { return (unsigned)c - 33 < 94; }
int gx_iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int gx_ispunct(int c) { return ((unsigned)c - 33 < 94) & !gx_isalnum(c); }
int gx_toupper(int c) { return (unsigned)c - 'a' < 26 ? c - 32 : c; }
int gx_tolower(int c) { return (unsigned)c - 'A' < 26 ? c + 32 : c; }

/* ------------------------------------------------------------- strings */
#ifdef GX_SYMBOLIC
size_t gx_strlen(const char *s)
{
	size_t n = 0;
	while (s[n])
		n++;
	return n;
}
size_t gx_strnlen(const char *s, size_t m)
{
	size_t n = 0;
	while (n < m && s[n])
		n++;
	return n;
}
char *gx_strcpy(char *d, const char *s)
{
	size_t i = 0;
	while ((d[i] = s[i]))
		i++;
	return d;
}
char *gx_stpcpy(char *d, const char *s)
{
	size_t i = 0;
	while ((d[i] = s[i]))
		i++;
	return d + i;
}
char *gx_strncpy(char *d, const char *s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i]; i++)
		d[i] = s[i];
	for (; i < n; i++)
		d[i] = 0;
	return d;
}
char *gx_strcat(char *d, const char *s) { gx_strcpy(d + gx_strlen(d), s); return d; }
char *gx_strncat(char *d, const char *s, size_t n)
{
	char *p = d + gx_strlen(d);
	size_t i = 0;
	for (; i < n && s[i]; i++)
		p[i] = s[i];
	p[i] = 0;
	return d;
}
char *gx_strchr(const char *s, int c)
{
	/* an unknown character in a known string: one path */
	if (sx_is_symbolic((uint8_t)c)) {
		size_t n = 0;
		while (!sx_is_symbolic((uint8_t)s[n]) && s[n])
			n++;
		if (!sx_is_symbolic((uint8_t)s[n])) {
			uintptr_t r = 0;
			for (n++; n-- > 0;)
				r = s[n] == (char)c ? (uintptr_t)(s + n) : r;
			return (char *)r;
		}
	}
	for (;; s++) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return NULL;
	}
}
char *gx_strrchr(const char *s, int c)
{
	const char *r = NULL;
	for (;; s++) {
		if (*s == (char)c)
			r = s;
		if (!*s)
			return (char *)r;
	}
}
char *gx_strstr(const char *h, const char *n)
{
	for (;; h++) {
		size_t i = 0;
		while (n[i] && h[i] == n[i])
			i++;
		if (!n[i])
			return (char *)h;
		if (!*h)
			return NULL;
	}
}
static int inset(char c, const char *set)
{
	int r = 0;
	for (; *set; set++)
		r |= *set == c;
	return r;
}
size_t gx_strspn(const char *s, const char *set)
{
	size_t n = 0;
	while (s[n] && inset(s[n], set))
		n++;
	return n;
}
size_t gx_strcspn(const char *s, const char *set)
{
	size_t n = 0;
	while (s[n] && !inset(s[n], set))
		n++;
	return n;
}
char *gx_strpbrk(const char *s, const char *set)
{
	s += gx_strcspn(s, set);
	return *s ? (char *)s : NULL;
}
int gx_strncasecmp(const char *a, const char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		int x = gx_tolower((uint8_t)a[i]), y = gx_tolower((uint8_t)b[i]);
		if (x != y || !x)
			return x - y;
	}
	return 0;
}
int gx_strcasecmp(const char *a, const char *b) { return gx_strncasecmp(a, b, (size_t)-1); }
void *gx_memchr(const void *p, int c, size_t n)
{
	const uint8_t *q = p;
	for (size_t i = 0; i < n; i++)
		if (q[i] == (uint8_t)c)
			return (void *)(q + i);
	return NULL;
}
static uint64_t strton(const char *s, char **end, int base, int sgn)
{
	const char *p = s;
	while (gx_isspace((uint8_t)*p))
		p++;
	int neg = 0;
	if (*p == '-' || *p == '+')
		neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && gx_isxdigit((uint8_t)p[2])) {
		p += 2;
		base = 16;
	} else if (base == 0)
		base = *p == '0' ? 8 : 10;
	uint64_t v = 0;
	int any = 0, ov = 0;
	for (;; p++) {
		int d = gx_isdigit((uint8_t)*p) ? *p - '0' : gx_isalpha((uint8_t)*p) ? (*p | 32) - 'a' + 10 : 99;
		if (d >= base)
			break;
		any = 1;
		if (v > (UINT64_MAX - (unsigned)d) / (unsigned)base)
			ov = 1;
		v = v * (unsigned)base + (unsigned)d;
	}
	if (end)
		*end = (char *)(any ? p : s);
	if (sgn && !ov && v > (neg ? (uint64_t)1 << 63 : INT64_MAX))
		ov = 1;
	if (ov) {
		errno = ERANGE;
		return sgn ? (neg ? (uint64_t)INT64_MIN : INT64_MAX) : UINT64_MAX;
	}
	return neg ? 0 - v : v;
}
unsigned long gx_strtoul(const char *s, char **end, int base) { return strton(s, end, base, 0); }
long gx_strtol(const char *s, char **end, int base) { return (long)strton(s, end, base, 1); }
void *gx_bsearch(const void *k, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		int c = cmp(k, (const char *)base + m * sz);
		if (c == 0)
			return (char *)base + m * sz;
		if (c < 0)
			hi = m;
		else
			lo = m + 1;
	}
	return NULL;
}
void gx_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	char *b = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
			for (size_t k = 0; k < sz; k++) {
				char t = b[(j - 1) * sz + k];
				b[(j - 1) * sz + k] = b[j * sz + k];
				b[j * sz + k] = t;
			}
}
int gx_atoi(const char *s) { return (int)gx_strtol(s, NULL, 10); }
#endif

/* ------------------------------------------------------------- argp (GNU getopt_long with permutation) */
void gx_argp_state_help(const struct argp_state *st, GX_FILE *f, unsigned flags)
{
	(void)st;
	(void)f;
	gx_fputs("Usage: ...\n", gx_stderr);
	if (flags & ARGP_HELP_EXIT_ERR)
		gx_exit(64);
	if (flags & ARGP_HELP_EXIT_OK)
		gx_exit(0);
}
void gx_argp_usage(const struct argp_state *st) { gx_argp_state_help(st, gx_stderr, ARGP_HELP_STD_USAGE); }
void gx_argp_error(const struct argp_state *st, const char *p, ...)
{
	(void)st;
	(void)p;
	gx_fputs("argument error\n", gx_stderr);
	gx_exit(64);
}
void gx_argp_failure(const struct argp_state *st, int status, int err, const char *p, ...)
{
	(void)st;
	(void)p;
	(void)err;
	gx_fputs("failure\n", gx_stderr);
	if (status)
		gx_exit(status);
}
error_t gx_argp_parse(const struct argp *a, int argc, char **argv, unsigned flags, int *index, void *input)
{
	struct argp_state st;
	memset(&st, 0, sizeof st);
	st.root_argp = a;
	st.argc = argc;
	st.argv = argv;
	st.next = 1;
	st.flags = flags;
	st.input = input;
	st.name = argc ? argv[0] : (char *)"";
	error_t e = a->parser(ARGP_KEY_INIT, NULL, &st);
	if (e && e != ARGP_ERR_UNKNOWN)
		return e;
	char *args[16];
	int nargs = 0, noopt = 0;
	for (int i = 1; i < argc; i++) {
		char *s = argv[i];
		if (noopt || s[0] != '-' || s[1] == 0) {
			if (nargs == 16)
				sx_fail("model: too many arguments");
			args[nargs++] = s;
			continue;
		}
		if (s[1] == '-' && s[2] == 0) {
			noopt = 1;
			continue;
		}
		if (s[1] == '-') {
			size_t n = 0;
			while (s[2 + n] && s[2 + n] != '=')
				n++;
			const struct argp_option *hit = NULL;
			int hits = 0, exact = 0, builtin = 0;
			static const char *const bi[] = {"help", "usage", "version"};
			for (const struct argp_option *o = a->options; o && (o->name || o->key); o++)
				if (o->name && strncmp(o->name, s + 2, n) == 0) {
					if (o->name[n] == 0) {
						if (!exact)
							hit = o;
						exact = 1;
					} else if (!exact)
						hit = o;
					hits++;
				}
			for (int k = 0; k < 3; k++)
				if (strncmp(bi[k], s + 2, n) == 0) {
					hits++;
					if (!hit || bi[k][n] == 0)
						builtin = k + 1;
				}
			if (hits == 0 || (hits > 1 && !exact))
				gx_argp_error(&st, "unrecognized option");
			if (builtin && !hit) {
				gx_fputs("Usage: ...\n", gx_stdout);
				gx_exit(0);
			}
			char *val = s[2 + n] == '=' ? s + 3 + n : NULL;
			if (hit->arg && !val && !(hit->flags & OPTION_ARG_OPTIONAL)) {
				if (i + 1 >= argc)
					gx_argp_error(&st, "option requires an argument");
				val = argv[++i];
			}
			if (!hit->arg && val)
				gx_argp_error(&st, "option doesn't allow an argument");
			st.next = i + 1;
			e = a->parser(hit->key, val, &st);
			if (e == ARGP_ERR_UNKNOWN)
				gx_argp_error(&st, "(PROGRAM ERROR) Option should have been recognized!?");
			if (e)
				return e;
			continue;
		}
		for (int k = 1; s[k]; k++) {
			const struct argp_option *hit = NULL;
			for (const struct argp_option *o = a->options; o && (o->name || o->key); o++)
				if (o->key == s[k])
					hit = o;
			if (!hit) {
				if (s[k] == '?' || s[k] == 'V') {
					gx_fputs("Usage: ...\n", gx_stdout);
					gx_exit(0);
				}
				gx_argp_error(&st, "invalid option");
			}
			char *val = NULL;
			int last = 0;
			if (hit->arg) {
				last = 1;
				if (s[k + 1])
					val = s + k + 1;
				else if (!(hit->flags & OPTION_ARG_OPTIONAL)) {
					if (i + 1 >= argc)
						gx_argp_error(&st, "option requires an argument");
					val = argv[++i];
				}
			}
			st.next = i + 1;
			e = a->parser(hit->key, val, &st);
			if (e == ARGP_ERR_UNKNOWN)
				gx_argp_error(&st, "(PROGRAM ERROR) Option should have been recognized!?");
			if (e)
				return e;
			if (last)
				break;
		}
	}
	for (int i = 0; i < nargs; i++) {
		st.next = argc - nargs + i + 1;
		e = a->parser(ARGP_KEY_ARG, args[i], &st);
		if (e == ARGP_ERR_UNKNOWN) {
			gx_argp_error(&st, "too many arguments");
		}
		if (e)
			return e;
		st.arg_num++;
	}
	if (nargs == 0) {
		e = a->parser(ARGP_KEY_NO_ARGS, NULL, &st);
		if (e && e != ARGP_ERR_UNKNOWN)
			return e;
	}
	e = a->parser(ARGP_KEY_END, NULL, &st);
	if (e && e != ARGP_ERR_UNKNOWN)
		return e;
	e = a->parser(ARGP_KEY_SUCCESS, NULL, &st);
	if (e && e != ARGP_ERR_UNKNOWN)
		return e;
	a->parser(ARGP_KEY_FINI, NULL, &st);
	if (index)
		*index = st.next;
	return 0;
}
