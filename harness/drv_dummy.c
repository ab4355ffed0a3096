/* Driver for the simulated receivers (openskyd-rc-dummy): the real receiving
 * loop and reader on radarcape/dummy.c (D_RC), or the real loop of the GPS
 * receiver on trimble/trimble_input_dummy.c. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include "core/buffer.h"
#include "core/filter.h"
#include "core/gps.h"
#include "core/input.h"
#include "core/network.h"
#include "core/recv.h"
#include "trimble/trimble_recv.h"
#include "util/component.h"
#include "sim.h"

static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
void __wrap_CFG_registerSection(const void * s) {}
/* the time of day, in virtual time */
static const char * tod(void)
{
	static char b[60];
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	sprintf(b, "\"sod\":%u,\"ns\":%u", (unsigned)(ts.tv_sec % 86400), (unsigned)ts.tv_nsec);
	return b;
}
/* the random numbers of the code under test */
static unsigned mode, odds;
long __wrap_random(void)
{
	if (sim_rand_n(100) < odds)
		return (long)(sim_rand() & 0x7fffff00) | 0x1a;
	if (mode)
		return mode == 1 ? 0x7fffffff - sim_rand_n(3) : 99999 - sim_rand_n(2);
	return sim_rand() & 0x7fffffff;
}
void __wrap_srandom(unsigned s) {}
int __wrap_rand(void) { return (int)__wrap_random(); }
void __wrap_srand(unsigned s) {}

#ifdef D_RC
const struct Component BUF_comp = { .description = "BUF", .dependencies = { NULL } };
static struct OPENSKY_RawFrame * held;
struct OPENSKY_RawFrame * BUF_newFrame()
{
	held = malloc(sizeof *held);
	memset(held, 0xee, sizeof *held);
	return held;
}
static void done(struct OPENSKY_RawFrame * f, const char * how)
{
	bool mine = f && f == held;
	sim_ev("\"e\":\"%s\",\"mine\":%d,\"d\":%s,%s", how, mine, mine ? sim_bytes(f->raw, f->rawLen <= 46 ? f->rawLen : 46) : "[]", tod());
	if (mine) {
		free(held);
		held = NULL;
	}
}
void BUF_commitFrame(struct OPENSKY_RawFrame * f) { done(f, "commit"); }
void BUF_abortFrame(struct OPENSKY_RawFrame * f) { done(f, "abort"); }
#else
static void * held;
const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
void GPS_reset() { sim_ev("\"e\":\"greset\""); }
void GPS_setPosition(double a, double b, double c) { sim_ev("\"e\":\"pos\""); }
void GPS_setHasFix(bool f) { sim_ev("\"e\":\"fix\",\"v\":%d", f); }
void GPS_setPositionWithFix(double a, double b, double c) { sim_ev("\"e\":\"pos\""); }
#endif

static void mainThread(void * x)
{
#ifndef D_RC
	TRIMBLE_comp.main();
#else
	if (!ex("raw"))
		RECV_comp.main();
	/* all frames, and nothing in between */
	INPUT_connect();
	struct OPENSKY_RawFrame raw;
	struct OPENSKY_DecodedFrame d;
	while (true) {
		memset(&raw, 0xee, sizeof raw);
		memset(&d, 0xee, sizeof d);
		bool r = INPUT_getFrame(&raw, &d);
		uint8_t m[6];
		for (int i = 0; i < 6; ++i)
			m[i] = d.mlat >> (40 - 8 * i);
		sim_ev("\"e\":\"frame\",\"r\":%d,\"ty\":%d,\"d\":%s,\"m\":%s,\"sig\":%d,\"p\":%s,%s", r, d.frameType,
			sim_bytes(raw.raw, raw.rawLen <= 46 ? raw.rawLen : 46), sim_bytes(m, 6), (uint8_t)d.siglevel,
			sim_bytes(d.payload, d.payloadLen <= 14 ? d.payloadLen : 14), tod());
		if (sim_rand_n(20) == 0)
			INPUT_reconfigure();
	}
#endif
}
static unsigned nscen(void) { return 4; }
static void run(unsigned i)
{
	sim_thread_events = true;
	mode = sim_rand_n(4) ? 0 : 1 + sim_rand_n(2);
	odds = sim_rand_n(3) * 40;
#ifdef D_RC
	struct FILTER_Configuration * f = (struct FILTER_Configuration *)FILTER_getConfiguration();
	f->extSquitter = sim_rand_n(2);
	f->sync = sim_rand_n(2);
	f->crc = sim_rand_n(2);
	INPUT_comp.onRegister();
	sim_meta("\"kind\":\"rc\",\"raw\":%d,\"sync\":%d,\"ext\":%d,\"rnd\":%d", ex("raw"), f->sync, f->extSquitter, mode == 0 && odds == 0);
#else
	TRIMBLE_comp.onRegister();
	sim_meta("\"kind\":\"tr\",\"raw\":0,\"sync\":0,\"ext\":0,\"rnd\":0");
#endif
	/* any time of the day, sometimes shortly before midnight */
	uint64_t ns = (sim_rand_n(3) ? sim_rand_n(86400) : 86400 - 1500000000 % 86400 - 1 - sim_rand_n(3)) * 1000000000ull;
	sim_sleep_ns(ns + sim_rand_n(1000000000));
	for (unsigned cyc = 1 + (sim_rand_n(4) == 0); cyc; --cyc) {
#ifdef D_RC
		FILTER_comp.onConstruct(NULL);
		if (INPUT_comp.onConstruct)
			INPUT_comp.onConstruct(NULL);
#else
		TRIMBLE_comp.onConstruct(NULL);
#endif
		sim_ev("\"e\":\"start\",%s", tod());
		int t = sim_spawn(&mainThread, NULL, "input");
		if (sim_rand_n(4) == 0)
			for (unsigned k = sim_rand_n(40); k; --k)
				sim_yield();
		else
			sim_sleep_ns(sim_rand_n(sim_rand_n(4) ? 3000 : 14000) * NS_PER_MS + sim_rand_n(NS_PER_MS));
		sim_ev("\"e\":\"stop\",%s", tod());
		sim_cancel(t);
		while (!sim_dead(t))
			sim_sleep_ns(500 * NS_PER_MS);
		sim_ev("\"e\":\"end\",\"held\":%d,\"locks\":%u", held != NULL, sim_locked_mutexes());
	}
	sim_done();
}
static const char * name(unsigned i) { return "dummy"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
