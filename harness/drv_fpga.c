/* Driver for the FPGA component: GPIO layer and device are simulated.
 * script: "rnbecm/..." answers of the device (r/n: nstat high/low after a reset,
 * b/e: status after a byte, c/m: confd high/low after the last byte) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <ftw.h>
#include "radarcape/gpio.h"
#include "radarcape/fpga.h"
#include "util/cfgfile.h"
#include "sim.h"

static char * lines[20000];
static unsigned nlines;
static const char * script;
static bool conf;
static bool quiet = true;

/* ------------------------------------------------------------- system calls */
static int fds, maps;
static unsigned pfault;
static bool fault(const char * what)
{
	if (quiet || sim_rand_n(1000) >= pfault)
		return false;
	sim_ev("\"e\":\"fault\",\"c\":\"%s\"", what);
	return true;
}
#define OPEN(nm) \
extern int __real_##nm(const char *, int, int); \
int __wrap_##nm(const char * f, int fl, int m) \
{ \
	if (fault("open")) { errno = EMFILE; return -1; } \
	int fd = __real_##nm(f, fl, m); \
	if (!quiet && fd >= 0) ++fds; \
	return fd; \
}
OPEN(open)
OPEN(open64)
extern int __real_close(int);
int __wrap_close(int fd)
{
	if (!quiet) --fds;
	return __real_close(fd);
}
extern int __real_fstat(int, struct stat *);
int __wrap_fstat(int fd, struct stat * st)
{
	if (fault("fstat")) { errno = EIO; return -1; }
	return __real_fstat(fd, st);
}
#define MMAP(nm) \
extern void * __real_##nm(void *, size_t, int, int, int, off_t); \
void * __wrap_##nm(void * a, size_t l, int p, int f, int fd, off_t o) \
{ \
	if (fault("mmap")) { errno = ENOMEM; return MAP_FAILED; } \
	void * r = __real_##nm(a, l, p, f, fd, o); \
	if (!quiet && r != MAP_FAILED) ++maps; \
	return r; \
}
MMAP(mmap)
MMAP(mmap64)
extern int __real_munmap(void *, size_t);
int __wrap_munmap(void * a, size_t l)
{
	int r = __real_munmap(a, l);
	if (!quiet && r == 0) --maps;
	return r;
}

/* ------------------------------------------------------------------ device */
static const uint_fast32_t pin[2][5] = { { 45, 47, 46, 44, 61 }, { 38, 39, 34, 44, 37 } };
enum { CONFD, DCLK, NSTAT, DATA, NCONF };
static bool white, nconf, dclk, err, ready;
static unsigned got, len; /* bits */
static unsigned wr, wc; /* polls until ready, done */
static unsigned eb; /* error at this byte */
static unsigned us(void) { return sim_now() / 1000; }
static void newAttempt(void)
{
	got = 0;
	err = ready = conf = false;
	static const unsigned w[] = { 0, 0, 0, 1, 2, 5, 9, 10, 11, 1000 };
	wr = w[sim_rand_n(10)];
	wc = w[sim_rand_n(10)];
	eb = sim_rand_n(3) || !len ? UINT_MAX : sim_rand_n(len / 8);
}
static void lvl(uint_fast32_t p, bool v)
{
	sim_ev("\"e\":\"%s\",\"p\":%u,\"us\":%u", v ? "set" : "clr", (unsigned)p, us());
	if (p == pin[white][NCONF]) {
		if (nconf && !v)
			newAttempt();
		nconf = v;
	} else if (p == pin[white][DCLK]) {
		if (!dclk && v && nconf)
			++got;
		dclk = v;
	}
}
static bool next(char yes)
{
	char c = *script;
	if (c == 0)
		return false;
	++script;
	return c == yes;
}
static bool level(uint_fast32_t p)
{
	if (p == pin[white][NSTAT]) {
		if (!nconf || err)
			return false;
		if (script) {
			if (!ready)
				return ready = next('r');
			if (got == 0 || got % 8)
				return true;
			static unsigned last;
			return !(err = !next('b'));
		}
		if (!ready) {
			if (wr) {
				--wr;
				return false;
			}
			ready = true;
		}
		if (got / 8 > eb)
			err = true;
		return !err;
	}
	if (p == pin[white][CONFD]) {
		if (!nconf || got < len || err)
			return false;
		if (script)
			return conf = conf || next('c');
		if (wc) {
			--wc;
			return false;
		}
		return true;
	}
	return sim_rand_n(2);
}
void GPIO_setDirection(uint_fast32_t p, enum GPIO_DIRECTION d)
{
	sim_ev("\"e\":\"dir\",\"p\":%u,\"d\":%d", (unsigned)p, d == GPIO_DIRECTION_OUT);
}
void GPIO_set(uint_fast32_t p) { lvl(p, true); }
void GPIO_clear(uint_fast32_t p) { lvl(p, false); }
uint_fast32_t GPIO_read(uint_fast32_t p)
{
	bool v = level(p);
	sim_ev("\"e\":\"rd\",\"p\":%u,\"v\":%d,\"us\":%u", (unsigned)p, v, us());
	return v;
}
struct Component GPIO_comp = { .description = "GPIO", .dependencies = { NULL } };

/* --------------------------------------------------------------------- run */
static void put(const char * f, const void * b, size_t n)
{
	int fd = __real_open(f, O_CREAT | O_WRONLY | O_TRUNC, 0600);
	if (fd < 0 || write(fd, b, n) != (ssize_t)n)
		abort();
	__real_close(fd);
}
static int rm(const char * f, const struct stat * st, int t, struct FTW * w) { return remove(f); }
static void run(unsigned sc)
{
	char cwd[PATH_MAX], dir[] = "fpgaXXXXXX", root[PATH_MAX + 20];
	if (!getcwd(cwd, sizeof cwd) || !mkdtemp(dir) || chdir(dir) || !getcwd(root, sizeof root))
		abort();
	mkdir("fw", 0700);
	script = sim_opt.script ? lines[sc] : NULL;
	white = sim_rand_n(2);
	FPGA_bbwhite = white;
	uint8_t file[200];
	unsigned starts = script ? 1 : 1 + sim_rand_n(3);
	pfault = script || sim_rand_n(3) ? 0 : 150;
	sim_meta("\"white\":%d", white);
	nconf = true;
	sim_ev("\"e\":\"init\"");
	bool r = FPGA_comp.onConstruct(&FPGA_comp);
	sim_ev("\"e\":\"initd\",\"r\":%d", r);
	char * name = FPGA_comp.config->options[0].var;
	size_t max = FPGA_comp.config->options[0].maxlen;
	bool * conf1 = FPGA_comp.config->options[1].var;
	while (starts--) {
		for (int k = 0; !script && k < 4; ++k) {
			*conf1 = k & 1;
			strcpy(name, k & 2 ? "x" : "");
			bool q = !FPGA_comp.config->check || FPGA_comp.config->check(FPGA_comp.config);
			sim_ev("\"e\":\"chk\",\"conf\":%d,\"empty\":%d,\"r\":%d", k & 1, !(k & 2), q);
		}
		*conf1 = true;
		unsigned n = script ? 2 : sim_rand_n(5) ? sim_rand_n(5) : sim_rand_n(60);
		for (unsigned i = 0; i < n; ++i)
			file[i] = sim_rand_n(4) ? sim_rand() : sim_rand_n(2) ? 0 : 255;
		len = n * 8;
		/* where it is: relative to the firmware directory, absolute, or nowhere */
		unsigned where = script ? 0 : sim_rand_n(8);
		bool there = true;
		static char buf[PATH_MAX * 2];
		unlink("fw/f.rbf");
		unlink("abs.rbf");
		switch (where) {
		case 0: case 1: case 2: case 3:
			strcpy(name, "f.rbf");
			put("fw/f.rbf", file, n);
			break;
		case 4: case 5:
			snprintf(buf, sizeof buf, "%s/abs.rbf", root);
			put("abs.rbf", file, n);
			strcpy(name, buf);
			break;
		case 6: /* absolute, but not there: below the firmware directory */
			there = sim_rand_n(2);
			if (there)
				put("fw/f.rbf", file, n);
			strcpy(name, there ? "/f.rbf" : "/no.rbf");
			break;
		default:
			there = false;
			/* a name as long as the option allows */
			memset(name, 'x', max - 1);
			for (unsigned i = 100; i < max; i += 100)
				name[i] = '/';
			name[max - 1] = 0;
			if (sim_rand_n(2))
				name[sim_rand_n(20)] = 0;
		}
		fds = maps = 0;
		sim_ev("\"e\":\"start\",\"ok\":%d,\"f\":%s", there && n, sim_bytes(file, n));
		quiet = false;
		r = FPGA_comp.onStart(&FPGA_comp);
		quiet = true;
		sim_ev("\"e\":\"startd\",\"r\":%d,\"fds\":%d,\"maps\":%d", r, fds, maps);
	}
	if (chdir(cwd) == 0)
		nftw(dir, rm, 8, FTW_DEPTH | FTW_PHYS);
	sim_done();
}
static unsigned nscen(void) { return sim_opt.script ? nlines : 8; }
static const char * name(unsigned i) { return sim_opt.script ? "script" : "fpga"; }
int main(int argc, char ** argv)
{
	for (int i = 1; i < argc - 1; ++i)
		if (strcmp(argv[i], "--script") == 0) {
			FILE * f = fopen(argv[i + 1], "r");
			static char b[100000];
			while (nlines < 20000 && fgets(b, sizeof b, f)) {
				b[strcspn(b, "\n")] = 0;
				lines[nlines++] = strdup(b);
			}
			fclose(f);
		}
	return sim_main(argc, argv, nscen, run, name);
}
