/* Driver for core/tb.c and the packet processors of the radarcape: a scripted
 * network, real processors with recorded processes or recording processors.
 * Forked processes are real, everything they execute is only recorded. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"
#include "core/input.h"

#include "util/component.h"
#include "util/cfgfile.h"
#include "radarcape/tb-misc.h"
#include "radarcape/tb-rshell.h"
#include "sim.h"

/* ------------------------------------------------------------ processes --- */
static int cur; /* this process */
static unsigned * nproc;
static bool procFaults;
static struct { pid_t pid; int st, id; } ended[40];
static unsigned nended;
pid_t __real_fork(void);
void __real__exit(int) __attribute__((noreturn));
void __wrap__Exit(int) __attribute__((noreturn));
struct rusage;
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_fork(void)
{
	if (!nproc) /* the harness itself */
		return __real_fork();
	if (procFaults && sim_crand() % 6 == 0) {
		sim_ev("\"e\":\"fork\",\"p\":%d,\"c\":0", cur);
		errno = EAGAIN;
		return -1;
	}
	int c = ++*nproc;
	sim_ev("\"e\":\"fork\",\"p\":%d,\"c\":%d", cur, c);
	pid_t p = __real_fork();
	if (!p) {
		cur = c;
		nended = 0;
		return 0;
	}
	int st;
	__real_waitpid(p, &st, 0);
	sim_ev("\"e\":\"over\",\"p\":%d", c);
	ended[nended % 40].id = c;
	ended[nended % 40].pid = p;
	ended[nended++ % 40].st = st;
	sim_crand();
	return p;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }
pid_t __wrap_waitpid(pid_t p, int * st, int fl)
{
	if (!nproc)
		return __real_waitpid(p, st, fl);
	for (unsigned i = 0; i < nended && i < 40; ++i)
		if (ended[i].pid == p) {
			if (st)
				*st = ended[i].st;
			ended[i].pid = 0;
			sim_ev("\"e\":\"wait\",\"p\":%d,\"c\":%d,\"ok\":%d", cur, ended[i].id, ended[i].st == 0);
			return p;
		}
	errno = ECHILD;
	return -1;
}
int __wrap_execve(const char * path, char * const argv[], char * const envp[])
{
	char b[8000];
	size_t l = 0;
	for (unsigned i = 0; argv[i] && l < 6000; ++i)
		l += snprintf(b + l, sizeof b - l, "%s\"%s\"", i ? "," : "", argv[i]);
	b[l] = 0;
	unsigned r = sim_crand() % (procFaults ? 5 : 1); /* 3: killed, 4: could not be executed */
	sim_ev("\"e\":\"exec\",\"p\":%d,\"path\":\"%s\",\"argv\":[%s],\"env\":%d,\"r\":%d", cur, path, b,
		envp && envp[0] ? 1 : 0, r < 2 ? 0 : r == 2 ? 1 : r);
	if (r == 4) {
		errno = ENOENT;
		return -1;
	}
	if (!cur)
		sim_done();
	if (r == 3)
		kill(getpid(), SIGKILL);
	__real__exit(r < 2 ? 0 : 1);
}
extern char ** environ;
int __wrap_execv(const char * path, char * const argv[]) { return __wrap_execve(path, argv, environ); }
void __wrap__exit(int c) __attribute__((noreturn));
void __wrap__exit(int c) { __wrap__Exit(c); }
pid_t __wrap_wait4(pid_t p, int * st, int fl, struct rusage * u) { return __wrap_waitpid(p, st, fl); }
void __wrap__Exit(int c)
{
	sim_ev("\"e\":\"pexit\",\"p\":%d,\"rc\":%d", cur, c);
	if (!cur)
		sim_done();
	__real__exit(c);
}
int __wrap_daemon(int nochdir, int noclose)
{
	bool ok = !(procFaults && sim_crand() % 6 == 0);
	sim_ev("\"e\":\"daemon\",\"p\":%d,\"ok\":%d", cur, ok);
	return ok ? 0 : -1;
}
FILE * __real_fopen(const char * p, const char * m);
FILE * __wrap_fopen(const char * p, const char * m)
{
	if (strncmp(p, "/sys", 4) == 0) {
		errno = EACCES;
		return sim_crand() % 2 ? NULL : __real_fopen("/dev/null", m);
	}
	return __real_fopen(p, m);
}
char * MAIN_progName;
bool FPGA_bbwhite;

/* -------------------------------------------------------------- network --- */
const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
static uint8_t stream[300000];
static size_t slen, spos;
static size_t cuts[64]; /* ends of connections */
static unsigned ncuts, ccut;
static unsigned seg; /* maximum read size */
static unsigned syncs;
static bool exact; /* reads end with the packets */
static size_t ends[20000];
static unsigned nends, cend;

static void childBack(void)
{
	if (cur) {
		/* a forked process came back */
		sim_ev("\"e\":\"escaped\",\"p\":%d", cur);
		__real__exit(1);
	}
}
void NET_waitConnected(void)
{
	childBack();
	sim_ev("\"e\":\"conn\"");
	if (ccut > ncuts) {
		sim_ev("\"e\":\"end\"");
		sim_done();
	}
}
static void probe(void)
{
	bool a = FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, 17 << 3);
	bool b = FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_SHORT, 11 << 3);
	sim_ev("\"e\":\"probe\",\"a\":%d,\"b\":%d", a, b);
}
ssize_t NET_receive(uint8_t * buf, size_t len)
{
	childBack();
	probe();
	if (syncs && sim_rand_n(syncs) == 0) {
		FILTER_setSynchronized(true);
		sim_ev("\"e\":\"sync\"");
	}
	size_t end = ccut < ncuts ? cuts[ccut] : slen;
	size_t n = 1 + sim_rand_n(seg);
	if (exact) {
		while (cend < nends && ends[cend] <= spos)
			++cend;
		if (cend < nends)
			n = ends[cend] - spos;
	}
	if (n > len)
		n = len;
	if (n > end - spos)
		n = end - spos;
	if (!n && len) {
		++ccut;
		ssize_t r = sim_rand_n(2) ? 0 : -1;
		sim_ev("\"e\":\"recv\",\"max\":%zu,\"d\":[],\"r\":%zd", len, r);
		return r;
	}
	/* the whole buffer is ours */
	memset(buf, sim_rand() | 4, len);
	memcpy(buf, stream + spos, n);
	sim_ev("\"e\":\"recv\",\"max\":%zu,\"d\":%s,\"r\":%zu", len, sim_bytes(buf, n), n);
	spos += n;
	return n;
}
void INPUT_reconfigure(void)
{
	sim_ev("\"e\":\"reconf\",\"ext\":%d", FILTER_getConfiguration()->extSquitter);
}

/* ----------------------------------------------------------- processors --- */
static size_t rlen[8];
static void rec(unsigned t, const uint8_t * p) { sim_ev("\"e\":\"cb\",\"ty\":%u,\"pl\":%s", t, sim_bytes(p, rlen[t])); }
#define R(i) static void rec##i(const uint8_t * p) { rec(i, p); }
R(0) R(1) R(2) R(3) R(4) R(5)
static const TB_ProcessorFn recs[] = { rec0, rec1, rec2, rec3, rec4, rec5 };

static void put(const void * b, size_t l)
{
	if (slen + l <= sizeof stream) {
		memcpy(stream + slen, b, l);
		slen += l;
	}
}
static void packet(unsigned ty, unsigned len, const uint8_t * pl, size_t n)
{
	uint8_t h[4] = { ty >> 8, ty, len >> 8, len };
	put(h, 4);
	put(pl, n);
	if (nends < 20000)
		ends[nends++] = slen;
}
static int regLen[8];
static void randomPacket(unsigned wild)
{
	uint8_t pl[300];
	for (unsigned i = 0; i < sizeof pl; ++i)
		pl[i] = sim_rand_n(3) ? sim_rand() : sim_rand_n(7);
	unsigned ty = sim_rand_n(6), k = sim_rand_n(24);
	if (k >= wild)
		k = 100;
	unsigned len = 4 + (regLen[ty] >= 0 ? regLen[ty] : (int)sim_rand_n(6));
	switch (k) {
	case 0: ty = 6 + sim_rand_n(3); break;
	case 1: ty = sim_rand_n(65536); break;
	case 2: case 3: len = 4 + sim_rand_n(125); break;
	case 4: len = 4 + sim_rand_n(9); break;
	case 5: { /* impossible length */
		static const unsigned bad[] = { 0, 1, 2, 3, 129, 130, 132, 200, 256, 260, 1024, 0x8004, 0xffff, 0x0400 };
		len = bad[sim_rand_n(14)];
		packet(ty, len, pl, sim_rand_n(sim_rand_n(2) ? 8 : 140));
		return;
	}
	case 6: /* header only or truncated */
		packet(ty, len, pl, sim_rand_n(len - 3));
		return;
	case 7: put(pl, 1 + sim_rand_n(sim_rand_n(3) ? 5 : 140)); return;
	case 8: len = 128; break;
	case 9: len = 4; break;
	}
	if (len - 4 <= sizeof pl)
		packet(ty, len, pl, len - 4);
}
static void script(unsigned i)
{
	/* line i of the script: read sizes and bytes of one connection */
	FILE * f = __real_fopen(sim_opt.script, "r");
	char * line = malloc(1 << 20);
	for (unsigned k = 0; k <= i; ++k)
		if (!fgets(line, 1 << 20, f))
			sim_done();
	for (char * p = line; *p && *p != '\n';) {
		uint8_t b;
		if (*p == '|') {
			ends[nends++] = slen;
			++p;
		} else if (*p == '/') {
			cuts[ncuts++] = slen;
			++p;
		} else {
			b = strtoul(p, &p, 10);
			put(&b, 1);
			if (*p == ' ')
				++p;
		}
	}
	fclose(f);
	exact = true;
}
static bool ex(const char * s) { return sim_opt.extra && strstr(sim_opt.extra, s); }
static void run(unsigned i)
{
	nproc = mmap(NULL, sizeof *nproc, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sim_thread_events = false;
	static char prog[3000];
	strcpy(prog, "/usr/bin/openskyd");
	if (sim_rand_n(4) == 0) {
		size_t l = sim_rand_n(2) ? 900 + sim_rand_n(200) : 1 + sim_rand_n(2500);
		memset(prog, 'p', l);
		prog[l] = 0;
	}
	MAIN_progName = prog;
	FPGA_bbwhite = sim_rand_n(2);
	bool real = ex("script") || ex("filter") ? false : i & 1;
	procFaults = sim_rand_n(2);
	COMP_register(&TB_comp);
	COMP_register(&FILTER_comp);
	COMP_fixup();
	COMP_setSilent(true);
	CFG_loadDefaults();
	bool s = sim_rand_n(2), x = sim_rand_n(2);
	CFG_setBoolean("FILTER", "SyncFilter", s);
	CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", x);
	for (unsigned k = 0; k < 6; ++k)
		regLen[k] = -1;
	regLen[4] = 2; /* filter */
	char rj[200] = "";
	if (real) {
		TB_register(TB_PACKET_TYPE_REVERSE_SHELL, 6, &TB_reverseShell);
		TB_register(TB_PACKET_TYPE_RESTART, 0, &TB_restartDaemon);
		TB_register(TB_PACKET_TYPE_REBOOT, 0, &TB_rebootSystem);
		TB_register(TB_PACKET_TYPE_UPGRADE_DAEMON, 0, &TB_upgradeDaemon);
		regLen[0] = 6;
		regLen[1] = regLen[2] = regLen[3] = 0;
	}
	if (ex("script")) {
		TB_register(0, 0, recs[0]);
		TB_register(5, 1, recs[5]);
		regLen[0] = 0;
		rlen[5] = regLen[5] = 1;
	} else
		for (unsigned k = 0; k < 6; ++k)
			if (k != 4 && regLen[k] < 0 && sim_rand_n(5)) {
				regLen[k] = rlen[k] = k == 5 ? 4 : sim_rand_n(3) ? sim_rand_n(9) : sim_rand_n(125);
				TB_register(k, rlen[k], recs[k]);
				if (sim_rand_n(8) == 0) {
					TB_unregister(k);
					if (sim_rand_n(2)) {
						rlen[k] = regLen[k] = sim_rand_n(9);
						TB_register(k, rlen[k], recs[k]);
					} else
						regLen[k] = -1;
				}
			}
	TB_register(6 + sim_rand_n(100000), 0, recs[0]);
	TB_unregister(6 + sim_rand_n(100000));
	for (unsigned k = 0; k < 6; ++k)
		sprintf(rj + strlen(rj), "%s%d", k ? "," : "", regLen[k]);
	sim_meta("\"reg\":[%s],\"real\":%d,\"prog\":\"%s\",\"white\":%d,\"sync\":%d,\"ext\":%d", rj, real, prog,
		FPGA_bbwhite, s, x);
	seg = sim_rand_n(4) == 0 ? 1 : sim_rand_n(2) ? 1 + sim_rand_n(12) : 1 + sim_rand_n(200);
	exact = sim_rand_n(6) == 0;
	syncs = sim_rand_n(4) * 3;
	if (ex("script"))
		script(i);
	else if (ex("filter")) {
		/* masks and configurations, all of them in 64 scenarios */
		syncs = 2;
		exact = true;
		bool all = ex("all");
		for (unsigned m = 0; m < 256; ++m)
			for (unsigned c = 0; c < 256; ++c)
				if ((all || ((m | c) & 0x38) == 0) && ((m * 7 + c) & 63) == i) {
					uint8_t p[2] = { m, c };
					packet(4, 6, p, 2);
				}
	} else {
		unsigned n = 1 + sim_rand_n(sim_rand_n(3) ? 20 : 80);
		unsigned cutp = sim_rand_n(3) ? 0 : 2 + sim_rand_n(20);
		unsigned wild = sim_rand_n(3) ? sim_rand_n(25) : 0;
		while (n--) {
			randomPacket(wild);
			if (cutp && ncuts < 60 && sim_rand_n(cutp) == 0) {
				size_t cut = slen - (sim_rand_n(2) && slen - (ncuts ? cuts[ncuts - 1] : 0) > 3 ? sim_rand_n(4) : 0);
				cuts[ncuts++] = cut;
			}
		}
	}
	if (!COMP_initAll())
		sim_done();
	TB_comp.main();
	sim_ev("\"e\":\"returned\"");
	sim_done();
}
static unsigned nscen(void)
{
	if (!ex("script"))
		return ex("filter") ? 64 : 8;
	unsigned n = 0;
	int c;
	FILE * f = __real_fopen(sim_opt.script, "r");
	while ((c = fgetc(f)) != EOF)
		n += c == '\n';
	fclose(f);
	return n;
}
static const char * name(unsigned i) { return "tb"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
