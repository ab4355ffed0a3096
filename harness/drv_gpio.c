/* Driver for the GPIO layer, the watchdog and its daemon: the four controllers are
 * simulated: every access of the instrumented code to a mapped register is seen. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <getopt.h>
#include <grp.h>
#include <pwd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "radarcape/gpio.h"
#include "radarcape/watchdog.h"
#include "sim.h"

static const uintptr_t bases[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
enum { OE = 0x134 / 4, IN = 0x138 / 4, CLR = 0x190 / 4, SET = 0x194 / 4 };
static struct {
	uint32_t * map; /* valid mapping or NULL */
	uint32_t latch, oe, ext;
} ctl[4];
static struct { int c; unsigned reg; } pend = { -1 };

static char * bits(uint32_t v)
{
	static char buf[8][200];
	static int k;
	char * b = buf[k++ % 8], * p = b;
	*p++ = '[';
	for (int i = 0; i < 32; ++i)
		if (v >> i & 1)
			p += sprintf(p, "%s%d", p == b + 1 ? "" : ",", i);
	strcpy(p, "]");
	return b;
}
static void chg(int c, const char * k, uint32_t old, uint32_t new)
{
	if (old != new)
		sim_ev("\"e\":\"chg\",\"c\":%d,\"k\":\"%s\",\"on\":%s,\"off\":%s,\"ms\":%u", c, k, bits(new & ~old), bits(old & ~new), sim_ms());
}
static void syncDev(void)
{
	if (pend.c < 0)
		return;
	int c = pend.c;
	pend.c = -1;
	if (!ctl[c].map)
		return;
	uint32_t v = ctl[c].map[pend.reg], o = ctl[c].latch;
	switch (pend.reg) {
	case OE:
		chg(c, "oe", ctl[c].oe, v);
		ctl[c].oe = v;
		break;
	case SET:
		ctl[c].latch |= v;
		chg(c, "out", o, ctl[c].latch);
		break;
	case CLR:
		ctl[c].latch &= ~v;
		chg(c, "out", o, ctl[c].latch);
		break;
	default:
		sim_ev("\"e\":\"stray\",\"c\":%d,\"r\":%u", c, pend.reg * 4);
	}
}
void sim_on_access(void * a, bool write)
{
	/* preemption between the accesses to the registers */
	if (sim_mem_points && sim_self() && sim_rand_n(2))
		for (int c = 0; c < 4; ++c)
			if (ctl[c].map && (char *)a >= (char *)ctl[c].map && (char *)a < (char *)ctl[c].map + 4096) {
				syncDev();
				sim_yield();
				break;
			}
	syncDev();
	for (int c = 0; c < 4; ++c)
		if (ctl[c].map && (char *)a >= (char *)ctl[c].map && (char *)a < (char *)ctl[c].map + 4096) {
			unsigned reg = ((char *)a - (char *)ctl[c].map) / 4;
			ctl[c].map[OE] = ctl[c].oe;
			ctl[c].map[SET] = ctl[c].map[CLR] = ctl[c].latch;
			ctl[c].map[IN] = (ctl[c].latch & ~ctl[c].oe) | (ctl[c].ext & ctl[c].oe);
			if (write) {
				pend.c = c;
				pend.reg = reg;
			}
			return;
		}
}
void sim_on_sleep(uint64_t ns) { syncDev(); }

/* ------------------------------------------------------------- system calls */
#define FD 1000
static bool on;
static int failOpen, failMap, nmaps;
static int uid;
#define OPEN(nm) \
extern int __real_##nm(const char *, int, int); \
int __wrap_##nm(const char * f, int fl, int m) \
{ \
	if (strcmp(f, "/dev/mem")) \
		return __real_##nm(f, fl, m); \
	syncDev(); \
	bool ok = !failOpen && uid == 0; \
	sim_ev("\"e\":\"open\",\"r\":%d,\"rw\":%d,\"sync\":%d", ok, (fl & O_ACCMODE) == O_RDWR, (fl & O_SYNC) == O_SYNC); \
	if (!ok) { errno = EACCES; return -1; } \
	return FD; \
}
OPEN(open)
OPEN(open64)
extern int __real_close(int);
int __wrap_close(int fd)
{
	if (fd != FD)
		return __real_close(fd);
	syncDev();
	sim_ev("\"e\":\"close\"");
	return 0;
}
#define MMAP(nm) \
extern void * __real_##nm(void *, size_t, int, int, int, off_t); \
void * __wrap_##nm(void * a, size_t l, int p, int f, int fd, off_t o) \
{ \
	if (fd != FD) \
		return __real_##nm(a, l, p, f, fd, o); \
	syncDev(); \
	int c = 0; \
	while (c < 4 && bases[c] != (uintptr_t)o) \
		++c; \
	bool ok = c < 4 && l == 4096 && ++nmaps != failMap && !ctl[c].map; \
	sim_ev("\"e\":\"map\",\"c\":%d,\"r\":%d,\"rw\":%d", c, ok, p == (PROT_READ | PROT_WRITE) && f == MAP_SHARED); \
	if (!ok) { errno = ENOMEM; return MAP_FAILED; } \
	void * r = __real_mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); \
	ctl[c].map = r; \
	return r; \
}
extern void * __real_mmap(void *, size_t, int, int, int, off_t);
MMAP(mmap)
MMAP(mmap64)
extern int __real_munmap(void *, size_t);
int __wrap_munmap(void * a, size_t l)
{
	syncDev();
	for (int c = 0; c < 4; ++c)
		if (ctl[c].map == a && l == 4096) {
			sim_ev("\"e\":\"unmap\",\"c\":%d", c);
			ctl[c].map = NULL;
			mprotect(a, 4096, PROT_NONE);
			return 0;
		}
	if (on)
		sim_ev("\"e\":\"unmap\",\"c\":9");
	return on ? -1 : __real_munmap(a, l);
}
uid_t __wrap_getuid(void) { return uid; }
uid_t __wrap_geteuid(void) { return uid; }
/* the database of users and groups; which step of giving up the privileges fails */
static struct { int r; unsigned u, g; } pw, gr;
static int failPriv, npriv;
static int privStep(const char * c, unsigned v)
{
	syncDev();
	bool ok = ++npriv != failPriv;
	sim_ev("\"e\":\"priv\",\"c\":\"%s\",\"v\":%u,\"r\":%d", c, v & 0xffffff, ok);
	if (!ok)
		errno = sim_rand_n(2) ? EPERM : EAGAIN;
	return ok ? 0 : -1;
}
int __wrap_setgroups(size_t n, const gid_t * g) { return privStep("groups", n); }
int __wrap_setgid(gid_t g) { return privStep("gid", g); }
int __wrap_setuid(uid_t u)
{
	if (privStep("uid", u))
		return -1;
	uid = u;
	return 0;
}
static char nobody[] = "nobody", nox[] = "x", nodir[] = "/", * nomem[] = { NULL };
static int pwGet(const char * n, struct passwd * p)
{
	syncDev();
	if (strcmp(n, "nobody") || pw.r != 1)
		return pw.r == 2 ? EIO : -1;
	memset(p, 0, sizeof *p);
	p->pw_name = nobody;
	p->pw_passwd = p->pw_gecos = p->pw_shell = nox;
	p->pw_dir = nodir;
	p->pw_uid = pw.u;
	p->pw_gid = pw.g;
	return 0;
}
static int grGet(const char * n, struct group * g)
{
	syncDev();
	if (strcmp(n, "nobody") || gr.r != 1)
		return gr.r == 2 ? EIO : -1;
	memset(g, 0, sizeof *g);
	g->gr_name = nobody;
	g->gr_passwd = nox;
	g->gr_mem = nomem;
	g->gr_gid = gr.g;
	return 0;
}
int __wrap_getpwnam_r(const char * n, struct passwd * p, char * b, size_t l, struct passwd ** res)
{
	int r = pwGet(n, p);
	*res = r ? NULL : p;
	return r > 0 ? r : 0;
}
int __wrap_getgrnam_r(const char * n, struct group * g, char * b, size_t l, struct group ** res)
{
	int r = grGet(n, g);
	*res = r ? NULL : g;
	return r > 0 ? r : 0;
}
struct passwd * __wrap_getpwnam(const char * n)
{
	static struct passwd p;
	int r = pwGet(n, &p);
	if (r > 0)
		errno = r;
	return r ? NULL : &p;
}
struct group * __wrap_getgrnam(const char * n)
{
	static struct group g;
	int r = grGet(n, &g);
	if (r > 0)
		errno = r;
	return r ? NULL : &g;
}
int __wrap_setresgid(gid_t r, gid_t e, gid_t s) { return r == e && e == s ? __wrap_setgid(r) : -1; }
int __wrap_setregid(gid_t r, gid_t e) { return r == e ? __wrap_setgid(r) : -1; }
int __wrap_setresuid(uid_t r, uid_t e, uid_t s) { return r == e && e == s ? __wrap_setuid(r) : -1; }
int __wrap_setreuid(uid_t r, uid_t e) { return r == e ? __wrap_setuid(r) : -1; }
int __wrap_chdir(const char * d) { return 0; }

/* --------------------------------------------------------------------- run */
static bool construct(void)
{
	nmaps = 0;
	failOpen = sim_rand_n(12) == 0;
	failMap = sim_rand_n(8) ? 0 : 1 + (int)sim_rand_n(4);
	sim_ev("\"e\":\"cons\"");
	bool r = GPIO_comp.onConstruct(&GPIO_comp);
	syncDev();
	sim_ev("\"e\":\"consd\",\"r\":%d", r);
	return r;
}
static void ext(void)
{
	int c = sim_rand_n(4);
	ctl[c].ext = sim_rand() ^ sim_rand() << 16;
	syncDev();
	sim_ev("\"e\":\"ext\",\"c\":%d,\"x\":%s", c, bits(ctl[c].ext));
}
static void op(unsigned pin, unsigned o)
{
	static const char * const nm[] = { "set", "clr", "rd", "in", "out" };
	syncDev();
	sim_ev("\"e\":\"op\",\"o\":\"%s\",\"p\":%u", nm[o], pin);
	int r = 0;
	switch (o) {
	case 0: GPIO_set(pin); break;
	case 1: GPIO_clear(pin); break;
	case 2: r = GPIO_read(pin); break;
	default: GPIO_setDirection(pin, o == 3 ? GPIO_DIRECTION_IN : GPIO_DIRECTION_OUT);
	}
	syncDev();
	sim_ev("\"e\":\"opd\",\"r\":%d", r);
}
static void ops(void * a)
{
	unsigned n = 2 + sim_rand_n(12), t = (uintptr_t)a;
	while (n--) {
		/* threads have pins of their own; none uses that of the watchdog */
		unsigned p = sim_rand_n(sim_rand_n(2) ? 4 : 32) * 4 + t;
		if (p != 60)
			op(p, sim_rand_n(3));
		if (sim_rand_n(sim_mem_points ? 9 : 5) == 0)
			sim_sleep_ns(sim_rand_n(40) * 1000000000ull);
	}
}
static void * wd(void * a)
{
	WD_comp.main();
	return NULL;
}
extern int wd_main(int, char **);
static void * wdMain(void * a)
{
	static char * const args[][3] = { { "wd" }, { "wd" }, { "wd" }, { "wd" }, { "wd", "-h" }, { "wd", "--help" }, { "wd", "--none" } };
	char * const * av = args[(uintptr_t)a];
	int n = av[1] ? 2 : 1;
	optind = 0;
	opterr = 0;
	nmaps = 0;
	failOpen = sim_rand_n(8) == 0;
	failMap = sim_rand_n(6) ? 0 : 1 + (int)sim_rand_n(4);
	failPriv = sim_rand_n(3) ? 0 : 1 + (int)sim_rand_n(3);
	npriv = 0;
	pw.r = sim_rand_n(4) ? 1 : 2 * (int)sim_rand_n(2);
	gr.r = sim_rand_n(2) ? 1 : 2 * (int)sim_rand_n(2);
	pw.u = 1 + sim_rand_n(70000);
	pw.g = 1 + sim_rand_n(70000);
	gr.g = 1 + sim_rand_n(70000);
	/* what is found: 0: no such entry, 1: found, 2: failure */
	sim_ev("\"e\":\"main\",\"usage\":%d,\"root\":%d,\"pw\":[%d,%u,%u],\"gr\":[%d,%u]", n == 2, uid == 0, pw.r, pw.u, pw.g, gr.r, gr.g);
	int r = wd_main(n, (char **)av);
	syncDev();
	sim_ev("\"e\":\"maind\",\"r\":%d", r);
	return NULL;
}
static void watch(void * (*fn)(void *), void * arg)
{
	pthread_t pt;
	if (pthread_create(&pt, NULL, fn, arg))
		abort();
	int w[2];
	int n = fn == wd ? (sim_mem_points ? 2 : sim_rand_n(3)) : 0;
	for (int i = 0; i < n; ++i)
		w[i] = sim_spawn(ops, (void *)(uintptr_t)i, "ops");
	sim_sleep_ns(sim_rand_n(200) * 1000000000ull + 1000000ull * sim_rand_n(1000));
	for (int i = 0; i < n; ++i)
		while (!sim_dead(w[i]))
			sim_sleep_ns(1000000000ull);
	syncDev();
	sim_ev("\"e\":\"now\",\"ms\":%u", sim_ms());
	sim_ev("\"e\":\"cancel\"");
	pthread_cancel(pt);
	pthread_join(pt, NULL);
	syncDev();
	sim_ev("\"e\":\"cancelled\",\"ms\":%u", sim_ms());
}
static void run(unsigned sc)
{
	bool ex = sim_opt.extra && strstr(sim_opt.extra, "mem");
	sim_mem_points = ex;
	if (ex)
		sim_p_switch = 500;
	for (int c = 0; c < 4; ++c) {
		ctl[c].latch = sim_rand() ^ sim_rand() << 16;
		ctl[c].oe = sim_rand() ^ sim_rand() << 16;
		ctl[c].ext = sim_rand() ^ sim_rand() << 16;
	}
	sim_meta("\"latch\":[%s,%s,%s,%s],\"oe\":[%s,%s,%s,%s]", bits(ctl[0].latch), bits(ctl[1].latch), bits(ctl[2].latch), bits(ctl[3].latch),
		bits(ctl[0].oe), bits(ctl[1].oe), bits(ctl[2].oe), bits(ctl[3].oe));
	for (int c = 0; c < 4; ++c)
		sim_ev("\"e\":\"ext\",\"c\":%d,\"x\":%s", c, bits(ctl[c].ext));
	on = true;
	if (sc % 3 == 2) {
		uid = sim_rand_n(4) ? 0 : 1000;
		watch(wdMain, (void *)(uintptr_t)sim_rand_n(7));
		sim_done();
	}
	for (int cyc = 1 + sim_rand_n(3); cyc; --cyc) {
		if (!construct())
			continue;
		if (sc % 3 == 0) {
			for (unsigned n = sim_rand_n(30); n; --n)
				if (sim_rand_n(6) == 0)
					ext();
				else
					op(sim_rand_n(128), sim_rand_n(5));
			if (sim_opt.extra && strstr(sim_opt.extra, "all"))
				for (unsigned p = 0; p < 128; ++p)
					for (unsigned o = 0; o < 5; ++o)
						op(p, (o * 3 + p) % 5);
		} else {
			sim_ev("\"e\":\"wdc\"");
			WD_comp.onConstruct(&WD_comp);
			syncDev();
			sim_ev("\"e\":\"wdcd\"");
			for (int k = sim_rand_n(3); k; --k) {
				sim_ev("\"e\":\"wd\",\"ms\":%u", sim_ms());
				watch(wd, NULL);
			}
		}
		sim_ev("\"e\":\"des\"");
		GPIO_comp.onDestruct(&GPIO_comp);
		syncDev();
		sim_ev("\"e\":\"desd\"");
	}
	sim_done();
}
static unsigned nscen(void) { return 6; }
static const char * name(unsigned i) { return i % 3 == 0 ? "gpio" : i % 3 == 1 ? "watchdog" : "daemon"; }
#undef main
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
