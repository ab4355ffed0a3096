/* Driver for the descriptors of the sensor: everything that opens one, programs
 * started meanwhile. The table of the process is read after every system call of
 * the code under test; other threads may start a program at each of these points.
 * Forked processes are real, what they execute is only recorded. */
#define _GNU_SOURCE
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <linux/if.h>
#include <linux/if_arp.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include "radarcape/rc-input.h"
#include "trimble/trimble_input.h"
#include "radarcape/gpio.h"
#include "radarcape/fpga.h"
#include "radarcape/tb-misc.h"
#include "radarcape/tb-rshell.h"
#include "util/cfgfile.h"
#include "util/component.h"
#include "util/net_common.h"
#include "util/proc.h"
#include "util/serial_eth.h"
#include "util/port/mmap.h"
#include "util/log.h"
#include "sim.h"

#define NFD 200
static bool base[NFD], tab[NFD];
static bool on;
static char root[PATH_MAX];
static unsigned pfault;
static int cur; /* this process */
static unsigned * nproc;
static unsigned budget; /* programs started by other threads */

void __real__exit(int) __attribute__((noreturn));
extern int __real_fstat(int, struct stat *);

static char cwd[PATH_MAX], dir[20];
static int rm(const char * f, const struct stat * st, int t, struct FTW * w) { return remove(f); }
static void clean(void)
{
	on = false;
	if (chdir(cwd) == 0)
		nftw(dir, rm, 8, FTW_DEPTH | FTW_PHYS);
}

static int flagsOf(int fd) { return fcntl(fd, F_GETFD); }
/* changes of the table */
static void scan(void)
{
	if (!on)
		return;
	int e = errno;
	for (int fd = 3; fd < NFD; ++fd) {
		if (base[fd])
			continue;
		int f = flagsOf(fd);
		if (f < 0 && tab[fd]) {
			tab[fd] = false;
			sim_ev("\"e\":\"close\",\"p\":%d,\"fd\":%d", cur, fd);
		} else if (f >= 0 && !tab[fd]) {
			tab[fd] = true;
			sim_ev("\"e\":\"open\",\"p\":%d,\"fd\":%d,\"cx\":%d", cur, fd, f & FD_CLOEXEC);
		}
	}
	errno = e;
}
static const char * inherited(void)
{
	static char b[1000];
	unsigned l = sprintf(b, "[");
	for (int fd = 3; fd < NFD; ++fd) {
		int f = base[fd] ? -1 : flagsOf(fd);
		if (f >= 0 && !(f & FD_CLOEXEC))
			l += sprintf(b + l, "%s%d", l > 1 ? "," : "", fd);
	}
	strcpy(b + l, "]");
	return b;
}
static const char * instd(void)
{
	struct stat st;
	if (__real_fstat(0, &st) < 0)
		return "none";
	return S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 3) ? "null" : "other";
}
/* another thread starts a program here */
static void point(void)
{
	if (!on)
		return;
	scan();
	if (budget && !cur && sim_crand() % 4 == 0) {
		--budget;
		int e = errno;
		sim_ev("\"e\":\"other\",\"inh\":%s", inherited());
		errno = e;
	}
}
static bool fault(void)
{
	return on && pfault && sim_crand() % 1000 < pfault;
}

/* ------------------------------------------------------------- system calls */
static int memfd = -1;
#define OPEN(nm) \
extern int __real_##nm(const char *, int, int); \
int __wrap_##nm(const char * f, int fl, int m) \
{ \
	if (!on) \
		return __real_##nm(f, fl, m); \
	bool tty = strncmp(f, "/dev/tty", 8) == 0, mem = strcmp(f, "/dev/mem") == 0; \
	if (tty) \
		sim_ev("\"e\":\"tty\",\"nt\":%d", !!(fl & O_NOCTTY)); \
	if (fault()) { errno = EMFILE; return -1; } \
	char p[PATH_MAX + 10]; \
	snprintf(p, sizeof p, "%s/dev", root); \
	int fd = __real_##nm(tty || mem ? p : f, tty || mem ? fl & ~O_SYNC : fl, m); \
	if (mem) memfd = fd; \
	point(); \
	return fd; \
}
OPEN(open)
OPEN(open64)
extern int __real_close(int);
int __wrap_close(int fd)
{
	point();
	int r = __real_close(fd);
	if (fd == memfd)
		memfd = -1;
	scan();
	return r;
}
extern int __real_socket(int, int, int);
int __wrap_socket(int a, int t, int p)
{
	if (fault()) { errno = EMFILE; return -1; }
	int fd = __real_socket(a, t, p);
	point();
	return fd;
}
int __wrap_connect(int fd, const struct sockaddr * a, socklen_t l)
{
	point();
	if (fd < 0) { errno = EBADF; return -1; }
	if (sim_crand() % 3 == 0) { errno = ECONNREFUSED; return -1; }
	return 0;
}
static struct addrinfo ai[3];
static struct sockaddr_in sa[3];
int __wrap_getaddrinfo(const char * h, const char * s, const struct addrinfo * hi, struct addrinfo ** res)
{
	point();
	if (fault())
		return EAI_AGAIN;
	unsigned n = 1 + sim_rand_n(3);
	for (unsigned i = 0; i < n; ++i) {
		memset(&sa[i], 0, sizeof sa[i]);
		sa[i].sin_family = AF_INET;
		sa[i].sin_addr.s_addr = htonl(0x7f000001 + i);
		ai[i] = (struct addrinfo){ .ai_family = AF_INET, .ai_socktype = SOCK_STREAM, .ai_protocol = IPPROTO_TCP,
			.ai_addrlen = sizeof sa[i], .ai_addr = (void *)&sa[i], .ai_next = i + 1 < n ? &ai[i + 1] : NULL };
	}
	*res = ai;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo * a) { point(); }
int __wrap_tcgetattr(int fd, struct termios * t) { point(); memset(t, 0, sizeof *t); errno = EIO; return fault() ? -1 : 0; }
int __wrap_tcsetattr(int fd, int a, const struct termios * t) { point(); errno = EIO; return fault() ? -1 : 0; }
int __wrap_tcflush(int fd, int a) { point(); return 0; }
int __wrap_tcdrain(int fd) { point(); return 0; }
extern int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	if (!on || req != SIOCGIFHWADDR)
		return __real_ioctl(fd, req, r);
	point();
	if (sim_crand() % 2) { errno = ENODEV; return -1; }
	memset(&r->ifr_hwaddr, 0, sizeof r->ifr_hwaddr);
	r->ifr_hwaddr.sa_family = ARPHRD_ETHER;
	return 0;
}
extern FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * p, const char * m)
{
	if (!on)
		return __real_fopen(p, m);
	if (fault()) { errno = EMFILE; return NULL; }
	char q[PATH_MAX + 10];
	snprintf(q, sizeof q, "%s/dev", root);
	FILE * f = __real_fopen(strncmp(p, "/sys", 4) ? p : q, m);
	point();
	return f;
}
extern int __real_fclose(FILE *);
int __wrap_fclose(FILE * f)
{
	point();
	int r = __real_fclose(f);
	scan();
	return r;
}
extern int __real_fstat(int, struct stat *);
int __wrap_fstat(int fd, struct stat * st)
{
	point();
	if (fault()) { errno = EIO; return -1; }
	return __real_fstat(fd, st);
}
#define MMAP(nm) \
extern void * __real_##nm(void *, size_t, int, int, int, off_t); \
void * __wrap_##nm(void * a, size_t l, int p, int f, int fd, off_t o) \
{ \
	point(); \
	if (fault()) { errno = ENOMEM; return MAP_FAILED; } \
	if (on && fd >= 0 && fd == memfd) \
		return __real_##nm(NULL, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); \
	return __real_##nm(a, l, p, f, fd, o); \
}
MMAP(mmap)
MMAP(mmap64)

/* ------------------------------------------------------------ processes --- */
pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	if (!nproc) /* the harness itself */
		return __real_fork();
	scan();
	if (fault()) { errno = EAGAIN; return -1; }
	int c = ++*nproc;
	sim_ev("\"e\":\"fork\",\"p\":%d,\"c\":%d", cur, c);
	pid_t p = __real_fork();
	if (!p) {
		cur = c;
		return 0;
	}
	int st;
	siginfo_t si;
	waitid(P_PID, p, &si, WEXITED | WNOWAIT);
	(void)st;
	return p;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }
int __wrap_execve(const char * path, char * const argv[], char * const envp[])
{
	scan();
	sim_ev("\"e\":\"exec\",\"p\":%d,\"inh\":%s,\"in\":\"%s\"", cur, inherited(), instd());
	if (sim_crand() % 6 == 0) {
		errno = ENOENT;
		return -1;
	}
	if (!cur) {
		clean();
		sim_done();
	}
	__real__exit(sim_crand() % 2);
}
extern char ** environ;
int __wrap_execv(const char * path, char * const argv[]) { return __wrap_execve(path, argv, environ); }
void __wrap__Exit(int c) __attribute__((noreturn));
void __wrap__Exit(int c)
{
	if (!cur) {
		clean();
		sim_done();
	}
	__real__exit(c);
}
void __wrap__exit(int c) __attribute__((noreturn));
void __wrap__exit(int c) { __wrap__Exit(c); }
int __wrap_daemon(int a, int b) { return fault() ? -1 : 0; }
char * MAIN_progName = "/usr/bin/sensor";

/* --------------------------------------------------------------------- run */
static void put(const char * f, const char * s)
{
	int fd = __real_open(f, O_CREAT | O_WRONLY | O_TRUNC, 0600);
	if (fd < 0 || write(fd, s, strlen(s)) != (ssize_t)strlen(s))
		abort();
	__real_close(fd);
}
static void call(const char * f) { sim_ev("\"e\":\"call\",\"f\":\"%s\"", f); }
static void run(unsigned sc)
{
	strcpy(dir, "fdsXXXXXX");
	if (!getcwd(cwd, sizeof cwd) || !mkdtemp(dir) || chdir(dir) || !getcwd(root, sizeof root))
		abort();
	put("dev", "12:34:56:78:9a:bc\n");
	put("c.conf", "[FPGA]\n");
	mkdir("d", 0700);
	put("d/10-a.conf", "[FPGA]\n");
	put("d/20-b.conf", "[A]\n");
	mkdir("fw", 0700);
	put("fw/f.rbf", "abc");
	int z = __real_open("/dev/zero", O_RDONLY, 0);
	dup2(z, 0);
	__real_close(z);
	for (int fd = 0; fd < NFD; ++fd)
		base[fd] = flagsOf(fd) >= 0;
	pfault = sim_rand_n(3) ? 30 : 200;
	if (sim_rand_n(3) == 0)
		pfault = 0;
	budget = sim_rand_n(12);
	sim_meta("\"k\":\"fd\"");
	nproc = mmap(NULL, sizeof *nproc, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	RC_INPUT_init();
	TRIMBLE_INPUT_init();
	COMP_register(&SERIAL_comp);
	COMP_fixup();
	CFG_loadDefaults();
	strcpy(FPGA_comp.config->options[0].var, "f.rbf");
	*(bool *)FPGA_comp.config->options[1].var = true;
	on = true;
	sock_t conn[4] = { -1, -1, -1, -1 };
	struct MMAP * map = NULL;
	bool rc = false, tr = false, gpio = false;
	for (unsigned k = 4 + sim_rand_n(16); k; --k) {
		scan();
		switch (sim_rand_n(14)) {
		case 0: case 1: {
			unsigned i = sim_rand_n(4);
			if (conn[i] >= 0) {
				close(conn[i]);
				conn[i] = -1;
			} else
				conn[i] = NETC_connect("X", "host", 80);
			break;
		}
		case 2: case 3:
			if (rc)
				RC_INPUT_disconnect();
			else
				RC_INPUT_connect();
			rc = !rc;
			break;
		case 4: case 5:
			if (tr)
				TRIMBLE_INPUT_disconnect();
			else
				TRIMBLE_INPUT_connect();
			tr = !tr;
			break;
		case 6:
			if (map) {
				MMAP_close(map);
				map = NULL;
			} else
				map = MMAP_open("X", "c.conf");
			break;
		case 7:
			if (sim_rand_n(2))
				CFG_readFile("c.conf", true, true, true);
			else
				CFG_readDirectory("d", true, true, true, sim_rand_n(2));
			break;
		case 8:
			CFG_loadDefaults();
			strcpy(FPGA_comp.config->options[0].var, "f.rbf");
			SERIAL_ETH_getSerial(NULL);
			break;
		case 9:
			if (gpio)
				GPIO_comp.onDestruct(&GPIO_comp);
			gpio = !gpio && GPIO_comp.onConstruct(&GPIO_comp);
			if (gpio)
				FPGA_comp.onConstruct(&FPGA_comp);
			break;
		case 10:
			if (gpio)
				FPGA_comp.onStart(&FPGA_comp);
			break;
		default: {
			static uint8_t pay[8] = { 1, 2, 3, 4, 5, 6 };
			switch (sim_rand_n(9)) {
			case 0: case 1: case 2:
				call("background");
				TB_reverseShell(pay);
				break;
			case 3: case 4:
				call("background");
				TB_rebootSystem(pay);
				break;
			case 5: case 6: case 7:
				call("background");
				TB_upgradeDaemon(pay);
				break;
			default:
				call("replace");
				TB_restartDaemon(pay);
			}
			if (cur)
				__real__exit(1);
			call("back");
		}
		}
	}
	scan();
	on = false;
	sim_ev("\"e\":\"end\"");
	clean();
	sim_done();
}
/* the process ends with an emergency */
void glue_on_log(int level, const char * prefix, const char * msg)
{
	if (level == LOG_LEVEL_EMERG && !cur)
		clean();
}
static unsigned nscen(void) { return 8; }
static const char * name(unsigned i) { return "fd"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
