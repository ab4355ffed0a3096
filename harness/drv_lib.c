/* Driver for the feeder libraries: real library, filter, buffer, position,
 * components; stubs for relay, talkback, login, network and serial lookup. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/buffer.h"
#include "core/filter.h"
#include "core/gps.h"
#include "core/network.h"
#include "core/login.h"
#include "core/serial.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "sim.h"

extern void lib_init(void), lib_enable(void), lib_disable(void), lib_pos(double, double, double), lib_nopos(void);
extern void lib_configure(int, uint32_t), lib_status(int), lib_output(const uint8_t *, int);
extern void lib_submit(uint64_t, bool, bool, int8_t, const uint8_t *, size_t);

static int failStart; /* 0: none, 1: talkback, 2: relay */
static bool startc(const char * n, int i)
{
	bool ok = failStart != i;
	sim_ev("\"e\":\"start\",\"c\":\"%s\",\"r\":%d", n, ok);
	return ok;
}
static bool tbStart(void) { return startc("TB", 1); }
static bool relayStart(void) { return startc("RELAY", 2); }
static bool tbStop(bool d) { sim_ev("\"e\":\"stop\",\"c\":\"TB\""); return true; }
static bool relayStop(bool d) { sim_ev("\"e\":\"stop\",\"c\":\"RELAY\""); return true; }
const struct Component TB_comp = { .description = "TB", .onStart = &tbStart, .onStop = &tbStop, .dependencies = { &FILTER_comp, NULL } };
const struct Component RELAY_comp = { .description = "RELAY", .onStart = &relayStart, .onStop = &relayStop, .dependencies = { &BUF_comp, NULL } };
const struct Component INPUT_comp = { .description = "IN", .dependencies = { NULL } };
void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE t) { sim_ev("\"e\":\"type\",\"ty\":%d", t); }
static int sendFails;
bool NET_send(const void * b, size_t n)
{
	bool ok = !sendFails || sim_rand_n(3);
	sim_ev("\"e\":\"send\",\"b\":%s,\"r\":%d", sim_bytes(b, n), ok);
	return ok;
}
static unsigned nscen(void);
static bool serOk;
/* the library's own test: success or not */
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s)
{
	if (s)
		*s = 77;
	return serOk ? SERIAL_RETURN_SUCCESS : SERIAL_RETURN_FAIL_PERM;
}

static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
static void drain(void)
{
	for (int k = 0; k < 200; ++k) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(1);
		if (!f)
			break;
		sim_ev("\"e\":\"frame\",\"b\":%s", sim_bytes(f->raw, f->rawLen));
		BUF_releaseFrame(f);
	}
	sim_ev("\"e\":\"drained\"");
}
static void serial(void)
{
	uint32_t s = 0;
	enum SERIAL_RETURN r = SERIAL_getSerial(&s);
	sim_ev("\"e\":\"serial\",\"r\":%d,\"h\":%u,\"l\":%u", r == SERIAL_RETURN_SUCCESS, s >> 16, s & 65535);
}
static uint8_t byte(void)
{
	switch (sim_rand_n(5)) {
	case 0: return 0x1a;
	case 1: return 17 * 8 + sim_rand_n(16);
	default: return sim_rand();
	}
}
static unsigned queued;
#ifdef GP
static void submit1(uint64_t day, uint32_t s, uint32_t ns, bool utc, bool sync, int8_t rssi, const uint8_t * p, size_t n)
{
	sim_ev("\"e\":\"sub\",\"s\":%u,\"ns\":%u,\"utc\":%d,\"sync\":%d,\"rssi\":%u,\"p\":%s", s, ns, utc, sync, (uint8_t)rssi, sim_bytes(p, n));
	lib_submit((day * 86400 + s) * 1000000000ull + ns, utc, sync, rssi, p, n);
	sim_ev("\"e\":\"subr\"");
}
static void submit(void)
{
	static const uint8_t lens[] = { 7, 14, 7, 14, 7, 14, 14, 2, 0, 1, 6, 8, 13, 15, 21 };
	size_t n = lens[sim_rand_n(sizeof lens)];
	uint8_t * p = malloc(n ? n : 1);
	for (size_t i = 0; i < n; ++i)
		p[i] = byte();
	if (n && sim_rand_n(2))
		p[0] = 17 * 8 + sim_rand_n(16);
	static const uint32_t sb[] = { 0, 1, 3, 4, 255, 1023, 1024, 26, 0x1a0, 86399, 43200, 65535, 65536 };
	static const uint32_t nb[] = { 0, 1, 999999999, 0x1a, 0x1a1a, 0x1a1a1a1a, 999999998, 16777215, 16777216, 500000000, 26 << 16 };
	uint32_t s = sim_rand_n(2) ? sb[sim_rand_n(13)] : sim_rand_n(86400);
	uint32_t ns = sim_rand_n(2) ? nb[sim_rand_n(11)] : sim_rand_n(1000000000);
	if (sim_rand_n(6) == 0) { /* a time stamp all of whose bytes need escaping, nearly */
		s = 0x1a1a1a >> 6 & 0x1ffff;
		ns = 0x1a1a1a1a & 0x3fffffff;
	}
	static const uint64_t days[] = { 0, 1, 6, 7, 365, 18000, 213502 };
	submit1(days[sim_rand_n(7)], s, ns, sim_rand_n(8), sim_rand_n(2), byte(), p, n);
	free(p);
	++queued;
}
#else
static void submit(void)
{
	int t = '1' + sim_rand_n(8);
	if (t > '4')
		t = t & 1 ? '2' : '3';
	if (sim_rand_n(40) == 0)
		t = sim_rand_n(60);
	size_t n = 7 + (t == '1' ? 2 : t == '2' ? 7 : 14);
	uint8_t * p = malloc(n);
	for (size_t i = 0; i < n; ++i)
		p[i] = byte();
	if (sim_rand_n(2))
		p[7] = 17 * 8 + sim_rand_n(16);
	sim_ev("\"e\":\"sub\",\"ty\":%d,\"p\":%s", t, sim_bytes(p, n));
	lib_output(p, t);
	sim_ev("\"e\":\"subr\"");
	free(p);
	++queued;
}
#endif
static void pos(void)
{
	double d[3];
	static const double v[] = { 0, 1, -1, 47.5, -122.25, 8848, 1e-3 };
	for (int i = 0; i < 3; ++i)
		d[i] = v[sim_rand_n(7)];
	uint8_t b[24];
	for (int i = 0; i < 3; ++i) {
		uint64_t x;
		memcpy(&x, &d[i], 8);
		for (int k = 0; k < 8; ++k)
			b[8 * i + k] = x >> (56 - 8 * k);
	}
	sim_ev("\"e\":\"pos\",\"b\":%s", sim_bytes(b, 24));
	lib_pos(d[0], d[1], d[2]);
	sim_ev("\"e\":\"posr\"");
}
static void enable(int fail)
{
	failStart = fail;
	sim_ev("\"e\":\"en\"");
	lib_enable();
	sim_ev("\"e\":\"enr\"");
}
static void disable(void)
{
	sim_ev("\"e\":\"dis\"");
	lib_disable();
	sim_ev("\"e\":\"disr\"");
}
static void configure(void)
{
	int ty = sim_rand_n(30);
	uint32_t s = sim_rand_n(3) ? sim_rand() : sim_rand_n(3);
	sim_ev("\"e\":\"conf\",\"ty\":%d,\"h\":%u,\"l\":%u", ty, s >> 16, s & 65535);
	lib_configure(ty, s);
}
static void ask(void)
{
	sim_ev("\"e\":\"ask\"");
	bool r = GPS_sendPosition();
	sim_ev("\"e\":\"askr\",\"r\":%d", r);
}
static void setSync(bool x)
{
	FILTER_setSynchronizedFilter(x);
	sim_ev("\"e\":\"setsync\",\"x\":%d", x);
}
static void unsync(void)
{
	FILTER_reset();
	sim_ev("\"e\":\"unsync\"");
}
static void nopos(void)
{
#ifdef GP
	sim_ev("\"e\":\"nopos\"");
	lib_nopos();
	sim_ev("\"e\":\"posr\"");
#endif
}
static void status(int s)
{
#ifndef GP
	sim_ev("\"e\":\"status\",\"s\":%d", s);
	lib_status(s);
	sim_ev("\"e\":\"posr\"");
#endif
}
/* 0: a type or reply which the filter stops, 1: passes, 2: unsupported */
static void submitKind(int k)
{
	uint8_t p[21] = { 1, 2, 3, 4, 0x1a, 6, 7, 8 };
#ifdef GP
	p[0] = k ? 17 * 8 + sim_rand_n(16) : 11 * 8;
	submit1(sim_rand_n(7), sim_rand_n(86400), sim_rand_n(1000000000), k < 2 || sim_rand_n(2), true, sim_rand(), p, k < 2 ? 7 + 7 * sim_rand_n(2) : 9);
#else
	p[7] = k ? 17 * 8 + sim_rand_n(16) : 11 * 8;
	int t = k == 2 ? sim_rand_n(2) ? '1' : '4' : '2' + sim_rand_n(2);
	sim_ev("\"e\":\"sub\",\"ty\":%d,\"p\":%s", t, sim_bytes(p, t == '1' ? 9 : t == '2' ? 14 : 21));
	lib_output(p, t);
	sim_ev("\"e\":\"subr\"");
#endif
}
static char * lines[1 << 13];
static unsigned nlines;
static void run(unsigned sc)
{
	bool conf = sim_rand_n(12);
	serOk = sim_rand_n(12);
	sendFails = sim_rand_n(2);
	if (ex("script"))
		sendFails = 0, serOk = true;
#ifdef GP
	sim_meta("\"gp\":1,\"ok\":0");
#else
	sim_meta("\"gp\":0,\"ok\":%d", serOk);
#endif
	sim_ev("\"e\":\"init\"");
	lib_init();
	/* only the frames as they are submitted matter here */
	sim_ev("\"e\":\"initr\",\"sync\":%d,\"ext\":%d", FILTER_getConfiguration()->sync, FILTER_getConfiguration()->extSquitter);
	unsigned k = 4 + sim_rand_n(60);
#ifdef GP
	if (ex("times")) {
		/* one frame for each of a range of time stamps */
		k = 0;
		sim_ev("\"e\":\"conf\",\"ty\":1,\"h\":0,\"l\":5");
		lib_configure(1, 5);
		sim_ev("\"e\":\"en\"");
		lib_enable();
		sim_ev("\"e\":\"enr\"");
		const uint8_t p[7] = { 17 * 8, 1, 2, 3, 4, 5, 6 };
		for (unsigned i = 0; i < 120; ++i) {
			uint32_t w = 86400 / nscen(), s = sc * w + sim_rand_n(w);
			submit1(i * 1000, s, i < 60 ? (1u << i / 2) - (i & 1) : sim_rand_n(1000000000), true, true, i + 100, p, 7);
			if (i % 8 == 7)
				drain();
		}
	}
#endif
	if (ex("script")) {
		k = 0;
		for (char * w = strtok(lines[sc], " \n"); w; w = strtok(NULL, " \n")) {
			if (!strcmp(w, "conf")) configure();
			else if (!strcmp(w, "en")) enable(0);
			else if (!strcmp(w, "en1")) enable(1);
			else if (!strcmp(w, "en2")) enable(2);
			else if (!strcmp(w, "dis")) disable();
			else if (!strncmp(w, "sub", 3)) submitKind(w[3] - '0');
			else if (!strcmp(w, "drain")) drain();
			else if (!strncmp(w, "sync", 4)) setSync(w[4] == '1');
			else if (!strcmp(w, "unsync")) unsync();
			else if (!strcmp(w, "pos")) pos();
			else if (!strcmp(w, "nopos")) nopos();
			else if (!strncmp(w, "st", 2)) status(w[2] - '0');
			else if (!strcmp(w, "ask")) ask();
			else abort();
		}
	}
	bool first = conf;
	for (; k; --k) {
		if (queued > 30) {
			drain();
			queued = 0;
		}
		int what = sim_rand_n(20);
#ifdef GP
		/* usually the library is configured first */
		if (first && what > 1 && what < 5)
			what = 0;
#endif
		switch (what) {
		case 0: case 1:
			if (conf) {
				first = false;
				configure();
			}
			break;
		case 2: case 3: case 4:
			enable(sim_rand_n(5) ? 0 : 1 + sim_rand_n(2));
			break;
		case 5: disable(); break;
		case 6: drain(); queued = 0; break;
		case 7: pos(); break;
		case 8: nopos(); status(sim_rand_n(3)); break;
		case 9: ask(); break;
		case 10: {
			bool x = sim_rand_n(2);
			if (sim_rand_n(2))
				setSync(x);
			else {
				FILTER_setModeSExtSquitter(x);
				sim_ev("\"e\":\"setext\",\"x\":%d", x);
			}
			break;
		}
		case 11:
			if (sim_rand_n(3) == 0)
				unsync();
			break;
#ifdef GP
		case 12: serial(); break;
#endif
		default: submit();
		}
	}
	drain();
	sim_done();
}
static unsigned nscen(void)
{
	if (ex("script")) {
		FILE * f = nlines ? NULL : fopen(sim_opt.script, "r");
		char * l = NULL;
		size_t cap = 0;
		while (f && getline(&l, &cap, f) > 0 && nlines < 1 << 13)
			lines[nlines++] = strdup(l);
		return nlines;
	}
	return ex("timesx") ? 4800 : ex("times") ? 480 : 8;
}
static const char * name(unsigned i) { return "lib"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
