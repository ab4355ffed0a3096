/* Driver for core/gps.c: updating threads, a requesting thread and a network
 * that accepts or refuses messages, fast or slow. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/gps.h"
#include "core/network.h"
#include "util/component.h"
#include "sim.h"

const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
static unsigned pFail, pSlow;
static int forced = -1;
bool NET_send(const void * buf, size_t len)
{
	sim_ev("\"e\":\"send\",\"d\":%s", sim_bytes(buf, len));
	if (pSlow && sim_p(pSlow))
		sim_block(NULL, NULL, sim_now() + (1 + sim_crand() % 3000) * NS_PER_MS, true);
	sim_testcancel();
	bool ok = forced >= 0 ? forced : !sim_p(pFail);
	sim_ev("\"e\":\"sent\",\"ok\":%d", ok);
	return ok;
}
static uint64_t rnd64(void) { return (uint64_t)sim_rand() << 32 | sim_rand(); }
static double rdouble(void)
{
	double d;
	uint64_t u = rnd64();
	switch (sim_rand_n(6)) {
	case 0: u = 0x1a1a1a1a1a1a1a1aull; break;
	case 1: u &= 0x1aff1aff1aff1affull; break;
	case 2: return (int)sim_rand_n(361) - 180;
	case 3: u = sim_rand_n(2) ? 0 : 1ull << 63; break;
	}
	memcpy(&d, &u, 8);
	if (d != d)
		d = 47.5;
	return d;
}
static void be(uint8_t * o, double d)
{
	uint64_t u;
	memcpy(&u, &d, 8);
	for (int i = 0; i < 8; ++i)
		o[i] = u >> (56 - 8 * i);
}
enum { RESET, RNEED, SETF, SET, FIX0, FIX1, REQ, NOPS };
static void op(int k)
{
	bool r = true;
	switch (k) {
	case RESET:
		sim_ev("\"e\":\"call\",\"op\":\"reset\"");
		GPS_reset();
		break;
	case RNEED:
		sim_ev("\"e\":\"call\",\"op\":\"rneed\"");
		GPS_resetNeedFlag();
		break;
	case SETF: case SET: {
		/* often the same position again, or one which differs in one coordinate only */
		static double a, b, c;
		unsigned w = sim_rand_n(8);
		if (w >= 4 || w == 1)
			a = rdouble();
		if (w >= 4 || w == 2)
			b = rdouble();
		if (w >= 4 || w == 3)
			c = rdouble();
		uint8_t o[24];
		be(o, a);
		be(o + 8, b);
		be(o + 16, c);
		sim_ev("\"e\":\"call\",\"op\":\"set\",\"fx\":%d,\"b\":%s", k == SETF, sim_bytes(o, 24));
		if (k == SETF)
			GPS_setPositionWithFix(a, b, c);
		else
			GPS_setPosition(a, b, c);
		break;
	}
	case FIX0: case FIX1:
		sim_ev("\"e\":\"call\",\"op\":\"fix\",\"fx\":%d", k == FIX1);
		GPS_setHasFix(k == FIX1);
		break;
	case REQ:
		sim_ev("\"e\":\"call\",\"op\":\"req\"");
		r = GPS_sendPosition();
		break;
	}
	sim_ev("\"e\":\"ret\",\"ok\":%d", r);
}
static void updater(void * p)
{
	for (unsigned k = 1 + sim_rand_n(14); k; --k) {
		unsigned r = sim_rand_n(10);
		op(r < 4 ? SETF : r < 6 ? SET : r < 7 ? FIX0 : r < 9 ? FIX1 : RESET);
		if (sim_rand_n(3) == 0)
			sim_sleep_ns((1 + sim_rand_n(4000)) * NS_PER_MS);
	}
}
static void requester(void * p)
{
	for (unsigned k = 1 + sim_rand_n(10); k; --k) {
		op(RNEED);
		if (sim_rand_n(6))
			op(REQ);
		if (sim_rand_n(2))
			sim_sleep_ns((1 + sim_rand_n(6000)) * NS_PER_MS);
	}
}
static bool ex(const char * s) { return sim_opt.extra && strstr(sim_opt.extra, s); }
static void run(unsigned i)
{
	sim_thread_events = true;
	sim_meta("\"x\":0");
	if (ex("enum")) {
		/* all sequences of operations and outcomes that start with the i-th pair */
		unsigned len = ex("enum6") ? 6 : ex("enum5") ? 5 : 4, n = 1;
		for (unsigned k = 2; k < len; ++k)
			n *= 9;
		for (unsigned j = 0; j < n; ++j) {
			op(RESET);
			unsigned x = j * 81 + i;
			for (unsigned k = 0; k < len; ++k, x /= 9) {
				/* 7: with fix, refused; 8: request, refused */
				unsigned o = x % 9;
				forced = o < 7;
				op(o == 7 ? SETF : o == 8 ? REQ : o);
			}
		}
		sim_done();
	}
	sim_p_switch = sim_rand_n(4) ? 100 + sim_rand_n(400) : 0;
	sim_mem_points = ex("mem");
	pFail = sim_rand_n(3) ? 300 : 0;
	pSlow = sim_rand_n(3) ? 400 : 0;
	int th[4], n = 0;
	for (unsigned k = 1 + sim_rand_n(2); k; --k)
		th[n++] = sim_spawn(updater, NULL, "U");
	if (sim_rand_n(5))
		th[n++] = sim_spawn(requester, NULL, "R");
	if (sim_rand_n(3) == 0) {
		sim_sleep_ns((1 + sim_rand_n(9000)) * NS_PER_MS);
		sim_cancel(th[sim_rand_n(n)]);
	}
	for (int k = 0; k < n; ++k)
		while (!sim_dead(th[k]))
			sim_sleep_ns(100 * NS_PER_MS);
	sim_ev("\"e\":\"idle\",\"locks\":%u", sim_locked_mutexes());
	/* what is known and needed now */
	pFail = 0;
	op(SETF);
	op(REQ);
	sim_done();
}
static unsigned nscen(void) { return ex("enum") ? 81 : 8; }
static const char * name(unsigned i) { return "gps"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
