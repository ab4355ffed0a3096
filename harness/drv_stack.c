/* The whole feed: network, login, relay, talkback, serial request, position,
 * receiver, filter and buffer of the real code; the harness supplies the
 * receiver input, the collector server, faults and life cycles. */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include "core/network.h"
#include "core/login.h"
#include "core/relay.h"
#include "core/tb.h"
#include "core/gps.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "core/recv.h"
#include "core/input.h"
#include "dump1090/req-serial.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "sim.h"
#include "simnet.h"
#include "netwrap.h"

extern unsigned simnet_live_gai(void);
#define SV "sv"
#define SERFILE SV "/conf.d/05-serial.conf"

/* ------------------------------------------------------------ the input */
struct frame { bool ok; int ft; bool mlat; uint8_t pay[14]; size_t plen; uint8_t raw[46]; size_t n; };
static struct frame inq[512];
static unsigned inh, int_;
static int inConn;
static unsigned conDelay;
static bool inReady(void * p) { return inh != int_; }
static void in_push(struct frame f) { if (int_ < 512) inq[int_++] = f; }

void INPUT_connect(void)
{
	if (conDelay && sim_p(300))
		sim_block(NULL, NULL, sim_now() + (1 + sim_crand() % conDelay) * NS_PER_MS, true);
	sim_yield();
	sim_testcancel();
	++inConn;
	sim_ev("\"e\":\"icon\",\"k\":%d", inConn);
}
void INPUT_disconnect(void)
{
	if (!inConn)
		return; /* not connected: nothing to do */
	--inConn;
	sim_ev("\"e\":\"idis\",\"k\":%d", inConn);
}
void INPUT_reconfigure(void) { sim_ev("\"e\":\"irec\",\"x\":%d", FILTER_getConfiguration()->extSquitter); }
bool INPUT_getFrame(struct OPENSKY_RawFrame * raw, struct OPENSKY_DecodedFrame * dec)
{
	sim_ev("\"e\":\"iget\"");
	/* partially filled while waiting */
	raw->rawLen = 3;
	memset(raw->raw, 0x77, sizeof raw->raw);
	sim_yield();
	sim_block(inReady, NULL, 0, true);
	if (inh == int_)
		sim_testcancel();
	struct frame * f = &inq[inh++];
	if (!f->ok) {
		sim_ev("\"e\":\"in\",\"ok\":0");
		return false;
	}
	memset(dec, 0x5a, sizeof *dec);
	dec->frameType = f->ft;
	/* time stamps which are zero in some of their parts */
	static const uint64_t stamps[] = { 0x123456789aull, 1, 7ull << 32, 1ull << 47, 0x10000, 0xffffffffffffull, 1ull << 31 };
	dec->mlat = f->mlat ? stamps[f->raw[2] % 7] : 0;
	dec->siglevel = -3;
	dec->payloadLen = f->plen;
	memcpy(dec->payload, f->pay, f->plen);
	raw->rawLen = f->n;
	memcpy(raw->raw, f->raw, f->n);
	sim_ev("\"e\":\"in\",\"ok\":1,\"ft\":%d,\"m\":%d,\"p\":%d,\"b\":%s", f->ft, f->mlat, f->pay[0],
		sim_bytes(f->raw, f->n));
	return true;
}
const struct Component INPUT_comp = { .description = "INPUT", .dependencies = { NULL } };

/* ----------------------------------------------------- serial on disk */
static long lastDisk = -1;
static void checkDisk(void)
{
	FILE * f = fopen(SERFILE, "r");
	long v = -1;
	if (f) {
		char line[200];
		bool sect = false;
		while (fgets(line, sizeof line, f)) {
			char * p = line;
			while (*p == ' ' || *p == '\t')
				++p;
			if (*p == '[')
				sect = !strncasecmp(p, "[device]", 8);
			if (sect && !strncasecmp(p, "serial", 6) && strchr(p, '='))
				v = (long)strtoul(strchr(p, '=') + 1, NULL, 10);
		}
		fclose(f);
	}
	if (v != lastDisk) {
		lastDisk = v;
		uint8_t b[4] = { v >> 24, v >> 16, v >> 8, v };
		sim_ev("\"e\":\"disk\",\"v\":%s", v < 0 ? "[]" : sim_bytes(b, 4));
	}
}
void netwrap_before_send(void);
void netwrap_before_send(void) { checkDisk(); }

/* ------------------------------------------------------------- server */
static unsigned answerP, answerDelay, answers;
static int reqAt[64]; /* pending answers: connection, time */
static struct { int c; uint64_t at; } ans[64];
static unsigned nAns;
static uint8_t last2[2];
void simnet_on_tx(int c, const void * b, size_t n);
void simnet_on_tx(int c, const void * b, size_t n)
{
	static int lc;
	static uint8_t p;
	if (lc != c)
		p = 0;
	lc = c;
	for (size_t i = 0; i < n; ++i) {
		uint8_t x = ((const uint8_t *)b)[i];
		if (p == 0x1a && x == 0x1a)
			p = 0;
		else {
			if (p == 0x1a && x == 66 && nAns < 64 && answers && sim_rand_n(1000) < answerP) {
				--answers;
				ans[nAns].c = c;
				ans[nAns++].at = sim_now() + (answerDelay ? sim_rand_n(answerDelay) * NS_PER_MS : 0);
			}
			p = x;
		}
	}
}
static void packet(int c, unsigned type, const uint8_t * pl, unsigned n)
{
	uint8_t b[132] = { type >> 8, type, (n + 4) >> 8, n + 4 };
	memcpy(b + 4, pl, n);
	unsigned len = n + 4, off = 0;
	while (off < len) {
		unsigned k = sim_rand_n(2) ? len - off : 1 + sim_rand_n(len - off);
		srv_data(c, b + off, k);
		off += k;
		if (off < len && sim_rand_n(2))
			sim_sleep_ns(sim_rand_n(1500) * NS_PER_MS + 1);
	}
}
static uint32_t someSerial(void)
{
	switch (sim_rand_n(8)) {
	case 0: return 0x1a1a001a;
	case 1: return 0;
	case 2: return 0x80000000 | sim_rand();
	case 3: return sim_rand_n(2) ? 0xffffffff : 1;
	default: return sim_rand();
	}
}
static void serve(void)
{
	for (unsigned i = 0; i < nAns; ++i)
		if (ans[i].at <= sim_now()) {
			uint8_t s[4];
			uint32_t v = someSerial();
			s[0] = v >> 24; s[1] = v >> 16; s[2] = v >> 8; s[3] = v;
			int c = ans[i].c;
			ans[i] = ans[--nAns];
			if (srv_up(c))
				packet(c, TB_PACKET_TYPE_SERIAL_RES, s, 4);
			break;
		}
}

/* ----------------------------------------------------------- positions */
static bool gpsRun;
static int tG;
static void be(double d, uint8_t * o)
{
	uint64_t u;
	memcpy(&u, &d, 8);
	for (int i = 7; i >= 0; --i, u >>= 8)
		o[i] = u;
}
static void gpsOp(unsigned k)
{
	static const double vals[] = { 0.0, -0.0, 48.123456789, -180.0, 90.0, 1e-300, 6.5, 1e10, 26.0 };
	double d[3];
	uint8_t b[24];
	for (int i = 0; i < 3; ++i) {
		if (sim_rand_n(4) == 0) {
			uint64_t u = 0x1a1a40001a000000ull ^ ((uint64_t)sim_rand() << 8);
			u = (u & 0x3fffffffffffffffull) | 0x4000000000000000ull;
			u = (u & ~(0x7ffull << 52)) | ((uint64_t)0x401 << 52);
			memcpy(&d[i], &u, 8);
		} else
			d[i] = vals[sim_rand_n(9)] * (sim_rand_n(2) ? 1 : 0.37);
		be(d[i], b + 8 * i);
	}
	switch (k) {
	case 0: case 1:
		sim_ev("\"e\":\"g\",\"op\":\"pf\",\"b\":%s", sim_bytes(b, 24));
		GPS_setPositionWithFix(d[0], d[1], d[2]);
		break;
	case 2:
		sim_ev("\"e\":\"g\",\"op\":\"p\",\"b\":%s", sim_bytes(b, 24));
		GPS_setPosition(d[0], d[1], d[2]);
		break;
	case 3: case 4:
		sim_ev("\"e\":\"g\",\"op\":\"%s\",\"b\":[]", k == 3 ? "fix" : "nofix");
		GPS_setHasFix(k == 3);
		break;
	case 5:
		sim_ev("\"e\":\"g\",\"op\":\"reset\",\"b\":[]");
		GPS_reset();
		break;
	}
	sim_ev("\"e\":\"gr\"");
}
static void gpsMain(void * p)
{
	unsigned k = 2 + sim_rand_n(8);
	while (k--) {
		if (sim_rand_n(3))
			sim_sleep_ns((uint64_t)sim_rand_n(9000) * NS_PER_MS + 1);
		gpsOp(sim_rand_n(16) ? sim_rand_n(5) : 5);
	}
}

/* --------------------------------------------------------------- feed */
static bool gpsMode, early;
static struct frame mkframe(void)
{
	static unsigned no;
	struct frame f;
	memset(&f, 0, sizeof f);
	f.ok = true;
	unsigned r = sim_rand_n(10);
	f.ft = r == 0 ? '1' : r <= 2 ? '2' : r == 3 ? '4' : '3';
	f.mlat = f.ft == '4' && sim_rand_n(3);
	f.plen = f.ft == '1' ? 2 : f.ft == '2' ? 7 : 14;
	for (size_t i = 0; i < f.plen; ++i)
		f.pay[i] = sim_rand();
	if (sim_rand_n(3))
		f.pay[0] = (17 + sim_rand_n(2)) << 3 | sim_rand_n(8);
	++no;
	f.n = 0;
	f.raw[f.n++] = 0x1a;
	f.raw[f.n++] = f.ft;
	f.raw[f.n++] = 0x80 | (no & 0x3f);
	f.raw[f.n++] = 0x80 | (no >> 6);
	unsigned extra = sim_rand_n(4) ? sim_rand_n(5) : sim_rand_n(42);
	while (extra--)
		f.raw[f.n++] = sim_rand_n(6) ? 0x40 + sim_rand_n(60) : 0x1a;
	return f;
}

static void setupAll(bool first)
{
	COMP_register(&NET_comp);
	COMP_register(&TB_comp);
	COMP_register(&BUF_comp);
	COMP_register(&FILTER_comp);
	COMP_register(&RELAY_comp);
	COMP_register(&RECV_comp);
	COMP_register(&SERIAL_comp);
	COMP_register(&INPUT_comp);
	COMP_fixup();
	COMP_setSilent(true);
	CFG_loadDefaults();
	bool ok = CFG_readDirectory(SV "/conf.d", true, true, false, true);
	bool ok2 = CFG_check();
	sim_ev("\"e\":\"cfg\",\"ok\":%d", ok && ok2);
	bool ok3 = COMP_initAll();
	sim_ev("\"e\":\"init\",\"ok\":%d", ok3);
}

static void drain(void)
{
	struct BUFFER_Statistics b;
	BUFFER_getStatistics(&b);
	sim_ev("\"e\":\"drain\",\"q\":%u,\"p\":%u", (unsigned)b.queueSize, (unsigned)b.poolSize);
}

static void drainAll(void)
{
	struct BUFFER_Statistics b;
	while (1) {
		BUFFER_getStatistics(&b);
		if (!b.queueSize)
			break;
		const struct OPENSKY_RawFrame * f = BUF_getFrame();
		sim_ev("\"e\":\"df\",\"b\":%s", sim_bytes(f->raw, f->rawLen));
		BUF_releaseFrame(f);
	}
	BUFFER_getStatistics(&b);
	sim_ev("\"e\":\"drained\",\"q\":%u,\"p\":%u,\"d\":%u", (unsigned)b.queueSize, (unsigned)b.poolSize,
		(unsigned)b.discardedAll);
}

static void lifeStep(void)
{
	switch (sim_rand_n(4)) {
	case 0: sim_sleep_ns((uint64_t)sim_rand_n(9000) * NS_PER_MS + 1); break;
	case 1: sim_sleep_ns((uint64_t)sim_rand_n(400) * NS_PER_MS + 1); break;
	case 2: for (unsigned k = sim_rand_n(25); k; --k) sim_yield(); break;
	}
	serve();
	int c = srv_current();
	switch (sim_rand_n(12)) {
	case 0:
		if (c && simnet.faults > 0) { --simnet.faults; srv_close(c); }
		break;
	case 1:
		if (c && simnet.faults > 0) { --simnet.faults; srv_reset(c); }
		break;
	case 2: case 3: case 4: case 5: case 6:
		for (unsigned k = 1 + sim_rand_n(3); k; --k)
			in_push(mkframe());
		break;
	case 7: {
		struct frame f = { .ok = false };
		if (sim_rand_n(3) == 0)
			in_push(f);
		else {
			struct frame g = mkframe();
			g.ft = '4';
			g.raw[1] = '4';
			g.mlat = true;
			in_push(g);
		}
		break;
	}
	case 8: case 9: {
		uint8_t p[20];
		p[0] = sim_rand_n(3) ? sim_rand_n(4) : sim_rand();
		p[1] = sim_rand();
		unsigned r = sim_rand_n(6);
		if (c)
			packet(c, r == 0 ? sim_rand_n(9) : TB_PACKET_TYPE_FILTER, p, r == 1 ? sim_rand_n(5) : 2);
		break;
	}
	case 10: {
		uint8_t p[200];
		for (unsigned i = 0; i < sizeof p; ++i)
			p[i] = sim_rand_n(3) ? 0 : sim_rand_n(8);
		if (c)
			srv_data(c, p, 1 + sim_rand_n(sim_rand_n(4) ? 10 : 200));
		break;
	}
	case 11: {
		/* unsolicited or late serial number */
		uint32_t v = someSerial();
		uint8_t s[4] = { v >> 24, v >> 16, sim_rand_n(2) ? 0x1a : v >> 8, v };
		if (c && sim_rand_n(4) == 0)
			packet(c, TB_PACKET_TYPE_SERIAL_RES, s, 4);
		break;
	}
	}
}

static void life(unsigned steps)
{
	COMP_resetAll();
	sim_ev("\"e\":\"starting\"");
	bool ok = COMP_startAll();
	sim_ev("\"e\":\"start\",\"ok\":%d", ok);
	tG = 0;
	if (gpsMode)
		tG = sim_spawn(gpsMain, NULL, "G");
	simnet.stuck = false;
	simnet.stick_send = simnet.stick_conn = 0;
	switch (sim_rand_n(8)) {
	case 0: case 1: case 2: simnet.stick_send = 1 + sim_rand_n(sim_rand_n(2) ? 5 : 20); break;
	case 3: simnet.stick_conn = 1 + sim_rand_n(3); break;
	}
	for (unsigned i = 0; i < steps && !simnet.stuck; ++i)
		lifeStep();
	early = simnet.stuck || sim_rand_n(2);
	if (!early) {
		simnet.faults = 0;
		simnet.p_connslow = 0;
		for (unsigned i = 0; i < 12; ++i) {
			sim_sleep_ns(9000 * NS_PER_MS);
			serve();
			int c = srv_current();
			if (i == 9 && c) {
				uint8_t s[4] = { 0, 0, 26, 7 };
				packet(c, TB_PACKET_TYPE_SERIAL_RES, s, 4);
			}
		}
		sim_quiesce();
		sim_ev("\"e\":\"calm\"");
	}
	if (tG && !sim_dead(tG)) {
		/* a position update must finish before the feed is stopped */
		while (!sim_dead(tG))
			sim_sleep_ns(500 * NS_PER_MS);
	}
	sim_ev("\"e\":\"stopping\"");
	if (early)
		for (unsigned k = sim_rand_n(60); k; --k)
			sim_yield();
	COMP_stopAll();
	sim_quiesce();
	sim_ev("\"e\":\"stopped\",\"live\":%u,\"locks\":%u,\"open\":%u,\"gai\":%u,\"in\":%d", sim_live_threads(),
		sim_locked_mutexes(), simnet_open(), simnet_live_gai(), inConn);
}

static unsigned nscen(void) { return 8; }
static void run(unsigned i)
{
	char dir[40];
	snprintf(dir, sizeof dir, "st-%d", (int)getpid());
	mkdir(dir, 0700);
	if (chdir(dir))
		sim_ev("\"e\":\"nodir\"");
	sim_thread_events = true;
	sim_p_switch = sim_rand_n(3) ? 30 + sim_rand_n(300) : 0;
	sim_spurious = sim_rand_n(3) == 0;
	gpsMode = sim_opt.extra && strstr(sim_opt.extra, "gps");
	bool serialGiven = sim_opt.extra && strstr(sim_opt.extra, "req") ? false : sim_rand_n(2);
	bool badfs = !serialGiven && sim_rand_n(12) == 0;
	bool hist = sim_rand_n(3) != 0;
	unsigned timeout = sim_rand_n(3) == 0 ? 1500 : 200 + sim_rand_n(5000);
	bool sync = sim_rand_n(2), ext = sim_rand_n(2);
	uint32_t serial = sim_rand_n(3) ? sim_rand() : 0x1a01021a;
	mkdir(SV, 0700);
	mkdir(SV "/conf.d", 0700);
	FILE * f = fopen(SV "/conf.d/10-base.conf", "w");
	fprintf(f, "[NETWORK]\nHost = srv.example\nPort = 10004\nTimeout = %u\n", timeout);
	fprintf(f, "[BUFFER]\nHistory = %s\nStaticBacklog = 600\nDynamicBacklog = %u\nDynamicIncrements = %u\nGC = 0\n",
		hist ? "true" : "false", 1 + sim_rand_n(20), sim_rand_n(4));
	fprintf(f, "[FILTER]\nCRC = 1\nModeSExtSquitterOnly = %d\nSyncFilter = %d\n", ext, sync);
	if (serialGiven)
		fprintf(f, "[Device]\nserial = %u\n", (unsigned)serial);
	fclose(f);
	unsigned dev = 1 + sim_rand_n(9);
	char user[64] = "";
	unsigned ul = sim_rand_n(3) == 0 ? 0 : 1 + sim_rand_n(45);
	unsigned esc = sim_rand_n(4) ? 8 : 1;
	for (unsigned k = 0; k < ul; ++k)
		user[k] = sim_rand_n(esc) ? 'a' + sim_rand_n(26) : 0x1a;
	user[ul] = 0;
	/* the last one set is the one which counts */
	if (sim_rand_n(2))
		LOGIN_setUsername("a-rather-long-user-name-given-before");
	LOGIN_setDeviceType(dev);
	LOGIN_setUsername(ul ? user : NULL);
	uint8_t ub[40] = { 0 }, sb[4] = { serial >> 24, serial >> 16, serial >> 8, serial };
	if (ul <= 40)
		memcpy(ub, user, ul);
	unsigned v1, v2, v3;
	sscanf(PACKAGE_VERSION, "%u.%u.%u", &v1, &v2, &v3);
	sim_meta("\"hist\":%d,\"to\":%u,\"sync\":%d,\"ext\":%d,\"dev\":%u,\"ver\":[%u,%u,%u],\"user\":%s,"
		"\"serial\":%s,\"badfs\":%d,\"stat\":600,\"host\":\"srv.example\",\"port\":10004,\"fams\":[4,6,0]",
		hist, timeout, sync, ext, dev, v1, v2, v3, ul && ul <= 40 ? sim_bytes(ub, 40) : "[]",
		serialGiven ? sim_bytes(sb, 4) : "[]", badfs);
	memset(&simnet, 0, sizeof simnet);
	simnet.naddr = 1 + sim_rand_n(3);
	simnet.fam[0] = 4;
	simnet.fam[1] = 6;
	bool faulty = sim_opt.extra && strstr(sim_opt.extra, "nofault") ? false : sim_rand_n(5) != 0;
	if (faulty) {
		simnet.faults = 1 + sim_rand_n(8);
		simnet.p_gai = sim_rand_n(4) ? 0 : 300;
		simnet.p_conn = sim_rand_n(3) ? 200 : 0;
		simnet.p_senderr = sim_rand_n(3) ? 60 : 200;
		simnet.p_recverr = sim_rand_n(3) ? 100 : 0;
	}
	simnet.p_connslow = sim_rand_n(3) ? 0 : 400;
	simnet.p_part = sim_rand_n(3) ? 300 : 0;
	simnet.p_sendblock = sim_rand_n(4) ? 0 : 150;
	simnet.p_recvpart = sim_rand_n(2) ? 0 : 500;
	conDelay = sim_rand_n(2) ? 3000 : 0;
	answerP = sim_rand_n(3) ? 1000 : 500;
	answers = sim_rand_n(4) ? 5 : 0;
	answerDelay = sim_rand_n(4) == 0 ? 90000 : sim_rand_n(3) ? 9000 : 0;
	sim_mem_points = sim_opt.extra && strstr(sim_opt.extra, "mem");
	setupAll(true);
	COMP_resetAll();
	if (sim_rand_n(2))
		for (unsigned k = 1 + sim_rand_n(3); k; --k)
			gpsOp(sim_rand_n(5));
	if (badfs) {
		/* the directory vanishes (and cannot be created as a file exists) */
		unlink(SV "/conf.d/10-base.conf");
		rmdir(SV "/conf.d");
	}
	unsigned lives = 1 + (sim_rand_n(3) == 0) + (sim_rand_n(3) == 0);
	for (unsigned k = 0; k < lives; ++k) {
		life(3 + sim_rand_n(22));
		drain();
		inh = int_ = 0;
		if (k + 1 == lives)
			break;
		if (faulty)
			simnet.faults = sim_rand_n(6);
		if (!badfs && sim_rand_n(2)) {
			drainAll();
			COMP_destructAll();
			COMP_unregisterAll();
			CFG_unregisterAll();
			TB_unregister(TB_PACKET_TYPE_SERIAL_RES);
			checkDisk();
			sim_ev("\"e\":\"restart\"");
			setupAll(false);
		}
	}
	drainAll();
	unlink(SV "/conf.d/10-base.conf");
	unlink(SERFILE);
	rmdir(SV "/conf.d");
	rmdir(SV);
	if (chdir("..") == 0)
		rmdir(dir);
	sim_ev("\"e\":\"end\"");
	sim_done();
}
static const char * name(unsigned i) { return "feed"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
