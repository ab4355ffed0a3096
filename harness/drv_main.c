/* Driver for the daemons' main(): configurations, arguments, parts which fail.
 * RC: radarcape/main.c, otherwise dump1090/dump1090.c; the parts are stubs. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <math.h>
#include <getopt.h>
#include <ftw.h>
#include <sys/stat.h>
#include <signal.h>
#include "util/component.h"
#include "util/cfgfile.h"
#include "util/log.h"
#include "core/serial.h"
#include "core/login.h"
#include "sim.h"

/* --------------------------------------------------------------- sections */
static const struct CFG_Section * secs[30];
static int nsecs;
#define NSECS nsecs
#include "cfgdump.h"
extern void __real_CFG_registerSection(const struct CFG_Section *);
void __wrap_CFG_registerSection(const struct CFG_Section * s)
{
	if (nsecs < 30)
		secs[nsecs++] = s;
	__real_CFG_registerSection(s);
}
static bool haveMeta;
extern void __real_CFG_loadDefaults(void);
void __wrap_CFG_loadDefaults(void)
{
	if (!haveMeta)
		meta();
	haveMeta = true;
	__real_CFG_loadDefaults();
}

static uint32_t bufSize, serial;
static bool serialGiven, filSync, statOn, tbOn, relayOn;
static uint_fast16_t port;
static char host[20];
static void bufFix(const struct CFG_Section * s)
{
	if (bufSize < 2)
		bufSize = 2;
}
static bool bufCheck(const struct CFG_Section * s)
{
	sim_ev("\"e\":\"chk\",%s", all());
	return bufSize != 3;
}
#define SEC(v, nm, n, ...) static const struct CFG_Section v = { .name = nm, .n_opt = n, __VA_ARGS__ }
SEC(cBuf, "BUFFER", 1, .fix = &bufFix, .check = &bufCheck, .options = { { .name = "Size", .type = CFG_VALUE_TYPE_INT, .var = &bufSize, .def = { .integer = 5 } } });
SEC(cInput, "INPUT", 2, .options = { { .name = "Host", .type = CFG_VALUE_TYPE_STRING, .var = host, .maxlen = sizeof host, .def = { .string = "localhost" } },
	{ .name = "Port", .type = CFG_VALUE_TYPE_PORT, .var = &port, .def = { .port = 10003 } } });
SEC(cFilter, "FILTER", 1, .options = { { .name = "SyncFilter", .type = CFG_VALUE_TYPE_BOOL, .var = &filSync, .def = { .boolean = true } } });
SEC(cStat, "STATISTICS", 1, .options = { { .name = "enabled", .type = CFG_VALUE_TYPE_BOOL, .var = &statOn, .def = { .boolean = true } } });
SEC(cTb, "TALKBACK", 1, .options = { { .name = "enabled", .type = CFG_VALUE_TYPE_BOOL, .var = &tbOn, .def = { .boolean = true } } });
SEC(cDev, "Device", 1, .options = { { .name = "serial", .type = CFG_VALUE_TYPE_INT, .var = &serial, .given = &serialGiven, .defaultEmpty = true } });

void FILTER_setSynchronizedFilter(bool s) { filSync = s; }
void INPUT_reconfigure() {}

/* ------------------------------------------------------------------ parts */
enum { TB, RELAY, RECV, STAT, SERIAL, TRIMBLE, FPGA, WD, BUF, NET, FIL, INP, NPART };
static const char * const pname[] = { "TB", "RELAY", "RECV", "STAT", "SERIAL", "TRIMBLE", "FPGA", "WD", "BUF", "NET", "FILTER", "INPUT" };
static int failInit, failStart, deferStop[NPART];
static bool begin(int i)
{
	bool ok = i != failInit;
	sim_ev("\"e\":\"init\",\"c\":\"%s\",\"r\":%d", pname[i], ok);
	return ok;
}
static bool startc(int i)
{
	bool ok = i != failStart;
	sim_ev("\"e\":\"start\",\"c\":\"%s\",\"r\":%d", pname[i], ok);
	return ok;
}
static bool stopc(int i)
{
	bool ok = deferStop[i]-- <= 0;
	sim_ev("\"e\":\"stop\",\"c\":\"%s\",\"r\":%d", pname[i], ok);
	return ok;
}
#define PART(sym, idx, ...) \
	static bool sym##_i(void) { return begin(idx); } \
	static void sym##_d(void) { sim_ev("\"e\":\"destruct\",\"c\":\"%s\"", pname[idx]); } \
	static bool sym##_s(void) { return startc(idx); } \
	static bool sym##_p(bool d) { return stopc(idx); } \
	struct Component sym = { .description = #sym, .onConstruct = &sym##_i, .onDestruct = &sym##_d, .onStart = &sym##_s, .onStop = &sym##_p, __VA_ARGS__ }
PART(BUFX_comp, BUF, .config = &cBuf, .dependencies = { NULL });
PART(NETX_comp, NET, .dependencies = { NULL });
PART(FILX_comp, FIL, .config = &cFilter, .dependencies = { NULL });
PART(INPX_comp, INP, .config = &cInput, .dependencies = { NULL });
PART(TB_comp, TB, .config = &cTb, .enabled = &tbOn, .dependencies = { &NETX_comp, &FILX_comp, NULL });
PART(RELAY_comp, RELAY, .dependencies = { &BUFX_comp, &NETX_comp, NULL });
PART(RECV_comp, RECV, .dependencies = { &INPX_comp, &BUFX_comp, &FILX_comp, NULL });
PART(STAT_comp, STAT, .config = &cStat, .enabled = &statOn, .start = &statOn, .dependencies = { NULL });
PART(SERIAL_comp, SERIAL, .config = &cDev, .dependencies = { NULL });
#ifdef RC
PART(TRIMBLE_comp, TRIMBLE, .dependencies = { NULL });
PART(FPGA_comp, FPGA, .dependencies = { NULL });
PART(WD_comp, WD, .dependencies = { NULL });
bool FPGA_bbwhite;
#endif

/* ------------------------------------------------------------------ others */
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t) { sim_ev("\"e\":\"type\",\"ty\":%d", t); }
void LOGIN_setUsername(const char * u) { sim_ev("\"e\":\"user\",\"u\":%s", sim_bytes(u, strlen(u))); }
void TB_register(uint32_t t, size_t len, void (*fn)(const uint8_t *)) { sim_ev("\"e\":\"tb\",\"ty\":%u,\"l\":%zu", t, len); }
/* waiting for the signal: it comes only when it is blocked and waited for */
static bool blocked;
static int maskSig(int how, const sigset_t * set, sigset_t * old)
{
	if (old) {
		sigemptyset(old);
		if (blocked)
			sigaddset(old, SIGINT);
	}
	if (set) {
		bool in = sigismember(set, SIGINT);
		blocked = how == SIG_SETMASK ? in : how == SIG_BLOCK ? blocked || in : blocked && !in;
	}
	return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t * set, sigset_t * old) { return maskSig(how, set, old); }
int __wrap_sigprocmask(int how, const sigset_t * set, sigset_t * old) { return maskSig(how, set, old); }
static void waitSig(const sigset_t * set)
{
	bool ok = blocked && sigismember(set, SIGINT);
#ifdef RC
	sim_ev("\"e\":\"wait\",\"int\":%d,\"white\":%d", ok, FPGA_bbwhite);
#else
	sim_quiesce();
	sim_ev("\"e\":\"wait\",\"int\":%d,\"white\":0", ok);
#endif
}
int __wrap_sigwait(const sigset_t * set, int * sig)
{
	waitSig(set);
	*sig = SIGINT;
	return 0;
}
int __wrap_sigwaitinfo(const sigset_t * set, siginfo_t * i)
{
	waitSig(set);
	if (i)
		memset(i, 0, sizeof *i), i->si_signo = SIGINT;
	return SIGINT;
}
void TB_reverseShell(const uint8_t * p) {}
void TB_restartDaemon(const uint8_t * p) {}
void TB_rebootSystem(const uint8_t * p) {}
void TB_upgradeDaemon(const uint8_t * p) {}
static bool serialOk;
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s)
{
	sim_ev("\"e\":\"serial\",\"r\":%d", serialOk);
	if (s)
		*s = 1;
	return serialOk ? SERIAL_RETURN_SUCCESS : SERIAL_RETURN_FAIL_PERM;
}
void GPS_setPositionWithFix(double a, double b, double c)
{
	char x[3][100];
	dbl(x[0], a);
	dbl(x[1], b);
	dbl(x[2], c);
	sim_ev("\"e\":\"pos\",\"x\":[%s,%s,%s]", x[0], x[1], x[2]);
}

/* ------------------------------------------------------------------ files */
static char dir[60], cwd[500];
static int rmf(const char * p, const struct stat * st, int f, struct FTW * w) { return remove(p); }
static void cleanup(void)
{
	if (chdir(cwd))
		abort();
	nftw(dir, &rmf, 10, FTW_DEPTH | FTW_PHYS);
}
void glue_on_log(int level, const char * prefix, const char * msg)
{
	if (level == LOG_LEVEL_EMERG)
		cleanup();
}
static void put(const char * f, const char * b, size_t n)
{
	int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, b, n) != (ssize_t)n)
		abort();
	close(fd);
}
static const char * pick(const char * const * a, unsigned n) { return a[sim_rand_n(n)]; }
#define PICK(a) pick(a, sizeof a / sizeof *a)
static size_t content(char * b)
{
	static const char * const lines[] = { "[Buffer]\nsize=4\n", "[buffer]\nSize = 1\n", "[BUFFER]\nsize = 3\n", "[BUFFER]\nsize = x\n", "[input]\nport=1234\n",
		"[INPUT]\nhost = skydev\nPort=30006\n", "[INPUT]\nport = 70000\n", "[FILTER]\nsyncfilter=true\n", "[filter]\nSyncFilter = false\n",
		"[STATISTICS]\nenabled=false\n", "[TALKBACK]\nenabled = 0\n", "[Device]\nserial=42\n", "[DEVICE]\ntype = hptoa\n", "[Device]\nType=OpenSky\n",
		"[Device]\nType=other\n", "[IDENT]\nUsername = someone\n", "[Ident]\nusername=\n", "[nothing]\nx=1\n", "[broken\n", "# nothing\n\n",
		"[GPS]\nlatitude = 90.5\n", "[GPS]\nlongitude=-180.25\n", "[GPS]\nLatitude=\n", "[GPS]\nlatitude=-90\n", "[gps]\nlongitude=180\naltitude=-12.5\n" };
	size_t n = 0;
	for (unsigned k = sim_rand_n(4); k; --k)
		n += sprintf(b + n, "%s", PICK(lines));
	return n;
}
static int fileJson(char * o, const char * name, const char * b, size_t n)
{
	int k = sprintf(o, "{\"n\":");
	k += hex(o + k, name, strlen(name));
	k += sprintf(o + k, ",\"b\":");
	k += hex(o + k, b, n);
	return k + sprintf(o + k, "}");
}
/* a directory of configuration files */
static int confDir(char * o, const char * d, bool position)
{
	static const char * const nm[] = { "05-x.conf", "10-y.conf", "20.conf", "7.conf", "100.conf" };
	char f[100], b[1000];
	int k = sprintf(o, "[");
	bool any = false;
	unsigned mask = sim_rand_n(2) ? sim_rand() & sim_rand() : 0;
	for (unsigned i = 0; i < sizeof nm / sizeof *nm; ++i)
		if (mask & 1u << i) {
			size_t n = content(b);
			sprintf(f, "%s/%s", d, nm[i]);
			put(f, b, n);
			k += sprintf(o + k, any ? "," : "");
			k += fileJson(o + k, nm[i], b, n);
			any = true;
		}
	if (position) {
		static const char * const lats[] = { "47.125", "-90", "90", "89.5", "-89.5", "0", "9e1", "-.001", "90.000001", "-91", "nan", "-inf" };
		static const char * const lons[] = { "8.5", "180", "-180", "179.5", "-179.5", "0", "1.8e2", "100", "-180.000001", "181", "-NaN", "infinity" };
		size_t n = sprintf(b, "[GPS]\nLatitude=%s\nLongitude = %s\n%s\n", lats[sim_rand_n(sim_rand_n(6) ? 8 : 12)],
			lons[sim_rand_n(sim_rand_n(6) ? 8 : 12)], sim_rand_n(12) ? "altitude=400" : "");
		sprintf(f, "%s/1.conf", d);
		put(f, b, n);
		k += sprintf(o + k, any ? "," : "");
		k += fileJson(o + k, "1.conf", b, n);
	}
	return k + sprintf(o + k, "]");
}
extern int prog_main(int, char **);
static void run(unsigned sc)
{
	if (!getcwd(cwd, sizeof cwd))
		abort();
	strcpy(dir, "mainXXXXXX");
	if (!mkdtemp(dir) || chdir(dir))
		abort();
	for (int i = 0; i < NPART; ++i)
		deferStop[i] = sim_rand_n(6) == 0;
	failInit = sim_rand_n(5) ? -1 : (int)sim_rand_n(NPART);
	failStart = sim_rand_n(5) ? -1 : (int)sim_rand_n(NPART);
	serialOk = sim_rand_n(5);
	sim_meta("\"variant\":\"" VARIANT "\",\"deps\":{\"TB\":[\"NET\",\"FILTER\"],\"RELAY\":[\"BUF\",\"NET\"],\"RECV\":[\"INPUT\",\"BUF\",\"FILTER\"],"
		"\"STAT\":[],\"SERIAL\":[],\"TRIMBLE\":[],\"FPGA\":[],\"WD\":[],\"BUF\":[],\"NET\":[],\"FILTER\":[],\"INPUT\":[]}");
	char * more = malloc(20000);
	int k = 0;
	char * argv[6] = { "prog" };
	int argc = 1;
	bool save = false, usage = false, bad = false;
#ifdef RC
	mkdir("etc", 0700);
	bool present = sim_rand_n(6);
	char b[1000];
	size_t n = content(b);
	if (present)
		put("etc/openskyd.conf", b, n);
	k += sprintf(more + k, "\"present\":%d,\"b\":", present);
	k += hex(more + k, b, n);
	bool black = false;
#ifdef STANDALONE
	if (sim_rand_n(3) == 0) {
		argv[argc++] = "--black";
		black = true;
	}
#endif
	if (sim_rand_n(4) == 0) {
		save = true;
		bad = sim_rand_n(4) == 0;
		argv[argc++] = "--save";
		argv[argc++] = bad ? (sim_rand_n(2) ? "no/where" : "/dev/full") : "saved.conf";
	}
	if (sim_rand_n(12) == 0) {
		usage = true;
		static char * const u[] = { "-h", "--help", "--nonsense", "-x", "--save" };
		argv[argc++] = u[sim_rand_n(5)];
	}
	k += sprintf(more + k, ",\"save\":%d,\"usage\":%d,\"bad\":%d,\"black\":%d", save, usage, bad, black);
#else
	/* what is there already */
	unsigned have = sim_rand_n(8); /* 0: nothing, 1: a file, 2: the directory only */
	if (have == 1)
		put("var", "x", 1);
	else if (have > 1)
		mkdir("var", 0700);
	if (have > 2)
		mkdir("var/conf.d", 0700);
	k += sprintf(more + k, "\"varfile\":%d,\"var\":", have == 1);
	k += have > 2 ? confDir(more + k, "var/conf.d", sim_rand_n(4)) : sprintf(more + k, "[]");
	bool etc = sim_rand_n(8);
	if (etc) {
		mkdir("etc", 0700);
		mkdir("etc/conf.d", 0700);
	}
	k += sprintf(more + k, ",\"etc\":");
	k += etc ? confDir(more + k, "etc/conf.d", sim_rand_n(4)) : sprintf(more + k, "[]");
#endif
	argv[argc] = NULL;
	sim_ev("\"e\":\"main\",%s", more);
	optind = 0;
	opterr = 0;
	int rc = prog_main(argc, argv);
	sim_quiesce();
	{
		static char b[8000];
		int fd = open("saved.conf", O_RDONLY);
		ssize_t n = fd < 0 ? 0 : read(fd, b, sizeof b);
		k = sprintf(more, "\"file\":%d,\"b\":", fd >= 0);
		hex(more + k, b, n);
		close(fd);
	}
	sim_ev("\"e\":\"end\",\"r\":%d,%s", rc, more);
	cleanup();
	sim_done();
}
static unsigned nscen(void) { return 8; }
static const char * name(unsigned i) { return "main"; }
#undef main
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
