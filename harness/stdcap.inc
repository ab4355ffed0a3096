/* What the code prints to stdout goes to piece(stdout, s, n) while MINE(f) */
extern int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE * f, const char * fmt, va_list ap)
{
	if (!MINE(f))
		return __real_vfprintf(f, fmt, ap);
	char * b = NULL;
	sim_yield();
	int n = vasprintf(&b, fmt, ap);
	piece(f, b, n);
	free(b);
	return n;
}
int __wrap_vprintf(const char * fmt, va_list ap) { return __wrap_vfprintf(stdout, fmt, ap); }
int __wrap_printf(const char * fmt, ...) { va_list ap; va_start(ap, fmt); int n = __wrap_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int __wrap_fprintf(FILE * f, const char * fmt, ...) { va_list ap; va_start(ap, fmt); int n = __wrap_vfprintf(f, fmt, ap); va_end(ap); return n; }
extern size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void * p, size_t a, size_t b, FILE * f) { if (!MINE(f)) return __real_fwrite(p, a, b, f); piece(f, p, a * b); return b; }
extern int __real_fputs(const char *, FILE *);
int __wrap_fputs(const char * s, FILE * f) { return MINE(f) ? piece(f, s, strlen(s)) : __real_fputs(s, f); }
extern int __real_puts(const char *);
int __wrap_puts(const char * s)
{
	if (!on)
		return __real_puts(s);
	piece(stdout, s, strlen(s));
	return piece(stdout, "\n", 1);
}
#define PUTC(nm) extern int __real_##nm(int, FILE *); \
int __wrap_##nm(int c, FILE * f) { char x = c; return MINE(f) ? piece(f, &x, 1), c : __real_##nm(c, f); }
PUTC(fputc)
PUTC(putc)
PUTC(fputc_unlocked)
PUTC(putc_unlocked)
PUTC(_IO_putc)
extern int __real_putchar(int);
int __wrap_putchar(int c) { char x = c; return on ? piece(stdout, &x, 1), c : __real_putchar(c); }
extern int __real_putchar_unlocked(int);
int __wrap_putchar_unlocked(int c) { char x = c; return on ? piece(stdout, &x, 1), c : __real_putchar_unlocked(c); }
extern size_t __real_fwrite_unlocked(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite_unlocked(const void * p, size_t a, size_t b, FILE * f) { if (!MINE(f)) return __real_fwrite_unlocked(p, a, b, f); piece(f, p, a * b); return b; }
extern int __real_fputs_unlocked(const char *, FILE *);
int __wrap_fputs_unlocked(const char * s, FILE * f) { return MINE(f) ? piece(f, s, strlen(s)) : __real_fputs_unlocked(s, f); }
