/* Driver for core/network.c: a sender and a receiver thread that use the
 * network as relay and talkback do (optionally a second sending thread),
 * a scripted peer, faults, stop and restart. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/network.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "sim.h"
#include "simnet.h"
#include "netwrap.h"

static bool dfs, finalPhase, useForce, useCheck, quick;
static unsigned sndDelay, slowRecv, rcvSize;
static int tS, tS2, tR;

static unsigned prng;
static unsigned rnd(unsigned n) { prng = prng * 1103515245u + 12345u; return n ? (prng >> 12) % n : 0; }

static unsigned msgno;
static size_t mkmsg(uint8_t * b, int who)
{
	size_t l = 1 + rnd(quick ? 12 : 46);
	unsigned k = ++msgno;
	for (size_t i = 0; i < l; ++i)
		b[i] = i == 0 ? k : i == 1 ? k >> 8 : (uint8_t)(k * 7 + i * 13 + who);
	return l;
}
static void pause_(unsigned ms)
{
	if (ms)
		sim_block(NULL, NULL, sim_now() + (uint64_t)ms * NS_PER_MS, true);
	sim_testcancel();
}
static void sender(void * p)
{
	while (1) {
		NET_waitConnected();
		bool ok = true;
		while (ok) {
			uint8_t b[64];
			size_t l = mkmsg(b, 0);
			unsigned r = rnd(16);
			if (!finalPhase && useForce && r == 0) {
				NET_forceDisconnect();
				break;
			}
			if (useCheck && r < 4) {
				ok = NET_checkConnected();
				if (!ok)
					break;
			}
			ok = NET_send(b, l);
			if (ok && sndDelay)
				pause_(rnd(sndDelay));
		}
	}
}
static void sender2(void * p)
{
	while (1) {
		pause_(1 + rnd(7000));
		uint8_t b[64];
		size_t l = mkmsg(b, 1);
		NET_send(b, l);
	}
}
static void receiver(void * p)
{
	uint8_t b[128];
	while (1) {
		NET_waitConnected();
		while (1) {
			ssize_t n = NET_receive(b, 1 + rnd(rcvSize));
			if (n <= 0)
				break;
			if (slowRecv)
				pause_(rnd(slowRecv));
		}
	}
}

static void quiet(const char * what)
{
	sim_quiesce();
	net_stats(what);
}

static void netFaults(unsigned lvl)
{
	memset(&simnet, 0, sizeof simnet);
	simnet.naddr = 1 + sim_rand_n(4);
	for (unsigned i = 0; i < simnet.naddr; ++i)
		simnet.fam[i] = sim_rand_n(6) == 0 ? 0 : sim_rand_n(2) ? 4 : 6;
	if (sim_rand_n(12)) {
		unsigned good = sim_rand_n(simnet.naddr);
		if (!simnet.fam[good])
			simnet.fam[good] = 4;
	}
	simnet.faults = sim_rand_n(lvl + 1);
	simnet.p_gai = sim_rand_n(3) ? 0 : 400;
	simnet.p_conn = sim_rand_n(3) ? 350 : 0;
	simnet.p_connslow = sim_rand_n(3) ? 0 : 500;
	simnet.p_part = sim_rand_n(3) ? 400 : 0;
	simnet.p_senderr = sim_rand_n(3) ? 80 : 0;
	simnet.p_sendblock = sim_rand_n(4) ? 0 : 150;
	simnet.p_recverr = sim_rand_n(3) ? 150 : 0;
	simnet.p_recvpart = sim_rand_n(2) ? 0 : 500;
	simnet.p_sock = sim_rand_n(6) ? 0 : 300;
}

static void life(unsigned steps, bool two)
{
	finalPhase = false;
	COMP_resetAll();
	sim_ev("\"e\":\"starting\"");
	bool ok = COMP_startAll();
	sim_ev("\"e\":\"start\",\"ok\":%d", ok);
	tS = sim_spawn(sender, NULL, "S");
	tR = sim_spawn(receiver, NULL, "R");
	tS2 = two ? sim_spawn(sender2, NULL, "S2") : 0;
	simnet.stuck = false;
	simnet.stick_send = simnet.stick_conn = 0;
	if (!dfs)
		switch (sim_rand_n(8)) {
		case 0: simnet.stick_send = 1 + sim_rand_n(10); break;
		case 1: simnet.stick_conn = 1 + sim_rand_n(3); break;
		}
	for (unsigned i = 0; i < steps && !simnet.stuck; ++i) {
		switch (sim_rand_n(3)) {
		case 0: sim_sleep_ns((uint64_t)sim_rand_n(12000) * NS_PER_MS + 1); break;
		case 1: sim_sleep_ns((uint64_t)sim_rand_n(300) * NS_PER_MS + 1); break;
		default: for (unsigned k = sim_rand_n(30); k; --k) sim_yield();
		}
		int c = srv_current();
		switch (sim_rand_n(6)) {
		case 0: if (c) srv_close(c); break;
		case 1: if (c) srv_reset(c); break;
		case 2: case 3: {
			uint8_t b[40];
			size_t l = 1 + sim_rand_n(40);
			for (size_t j = 0; j < l; ++j)
				b[j] = sim_rand();
			if (c)
				srv_data(c, b, l);
			break;
		}
		case 4: if (sim_rand_n(3) == 0) quiet("quiet"); break;
		default: break;
		}
	}
	bool early = simnet.stuck || sim_rand_n(3) == 0;
	if (!early) {
		/* everything works again: both directions have to recover */
		finalPhase = true;
		simnet.faults = 0;
		simnet.p_connslow = simnet.p_sendblock = 0;
		bool possible = false;
		for (unsigned i = 0; i < simnet.naddr; ++i)
			possible |= simnet.fam[i] != 0;
		sim_sleep_ns((dfs ? 15000ull : 45000ull) * NS_PER_MS);
		quiet("quiet");
		int c = srv_current();
		uint8_t b[20];
		for (size_t j = 0; j < sizeof b; ++j)
			b[j] = sim_rand();
		if (c && srv_up(c))
			srv_data(c, b, sizeof b);
		sim_sleep_ns((dfs ? 8000ull : 45000ull) * NS_PER_MS);
		quiet("quiet");
		sim_ev("\"e\":\"conv\",\"ok\":%d,\"c\":%d", possible, srv_current());
	}
	/* dependents of the network are cancelled first, each may take a second;
	 * the connector holds its lock while it tries to connect */
	int th[3] = { tS, tR, tS2 };
	for (int k = 0; k < 3; ++k)
		if (th[k]) {
			sim_cancel(th[k]);
			for (int j = 0; j < 10 && !sim_dead(th[k]); ++j)
				sim_sleep_ns(100 * NS_PER_MS);
		}
	COMP_stopAll();
	uint64_t to = sim_now() + 20000ull * NS_PER_MS;
	while ((!sim_dead(tS) || !sim_dead(tR) || (two && !sim_dead(tS2))) && sim_now() < to)
		sim_sleep_ns(100 * NS_PER_MS);
	sim_quiesce();
	sim_ev("\"e\":\"stopped\",\"dead\":%d,\"live\":%u,\"locks\":%u,\"open\":%u,\"gai\":%u",
		sim_dead(tS) && sim_dead(tR) && (!two || sim_dead(tS2)), sim_live_threads(), sim_locked_mutexes(),
		simnet_open(), simnet_live_gai());
}

static unsigned nscen(void) { return 8; }
static void run(unsigned i)
{
	dfs = sim_opt.extra && strstr(sim_opt.extra, "dfs");
	prng = sim_rand();
	quick = true;
	sim_thread_events = true;
	sim_p_switch = sim_rand_n(3) ? 30 + sim_rand_n(300) : 0;
	sim_spurious = sim_rand_n(3) == 0;
	bool two = (i & 1) != 0;
	useForce = !two && (i & 2);
	useCheck = !two && (i & 4);
	sndDelay = sim_rand_n(3) == 0 ? 200 : 4000;
	slowRecv = sim_rand_n(3) == 0 ? 3000 : 0;
	rcvSize = sim_rand_n(2) ? 128 : 8;
	if (dfs) {
		quick = true;
		sndDelay = 3000;
		sim_spurious = false;
	}
	COMP_register(&NET_comp);
	COMP_fixup();
	COMP_setSilent(true);
	CFG_loadDefaults();
	unsigned port = 1 + sim_rand_n(65535);
	char host[20];
	snprintf(host, sizeof host, "h%u.example", sim_rand_n(1000));
	CFG_setString("NETWORK", "Host", host);
	CFG_setPort("NETWORK", "Port", port);
	netFaults(dfs ? 2 : 1 + sim_rand_n(14));
	if (dfs) {
		simnet.naddr = 1;
		simnet.fam[0] = 4;
		simnet.p_connslow = simnet.p_sendblock = simnet.p_sock = simnet.p_part = simnet.p_recvpart = 0;
		simnet.p_senderr = 100;
	}
	char fams[60] = "";
	for (unsigned k = 0; k < simnet.naddr; ++k)
		sprintf(fams + strlen(fams), k ? ",%u" : "%u", simnet.fam[k]);
	sim_meta("\"host\":\"%s\",\"port\":%u,\"fams\":[%s],\"two\":%d", host, port, fams, two);
	sim_mem_points = sim_opt.extra && strstr(sim_opt.extra, "mem");
	bool ok = COMP_initAll();
	sim_ev("\"e\":\"init\",\"ok\":%d", ok);
	COMP_resetAll();
	life(dfs ? 3 : 3 + sim_rand_n(14), two);
	if (!dfs && sim_rand_n(2)) {
		simnet.faults = sim_rand_n(4);
		life(1 + sim_rand_n(6), two);
	}
	sim_ev("\"e\":\"end\"");
	sim_done();
}
static const char * name(unsigned i) { return "net"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
