/* Driver for the inputs: the real receiving loop with the Radarcape reader or
 * the real loop of the GPS receiver, connected by network or by UART (chosen
 * when compiling), on simulated devices; a thread changes the settings. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <netinet/in.h>
#include <netdb.h>
#include <sys/socket.h>
#include "core/buffer.h"
#include "core/filter.h"
#include "core/gps.h"
#include "core/input.h"
#include "core/network.h"
#include "core/recv.h"
#include "trimble/trimble_recv.h"
#include "util/cfgfile.h"
#include "util/component.h"
#include "sim.h"
#include "simnet.h"

extern unsigned simnet_live_gai(void);
static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }

/* ---------------------------------------------------------- configuration */
static const struct CFG_Section * sects[4];
static unsigned nSects;
void __wrap_CFG_registerSection(const struct CFG_Section * s) { if (nSects < 4) sects[nSects++] = s; }
static const struct CFG_Option * opt(const char * name)
{
	for (unsigned i = 0; i < nSects; ++i)
		for (size_t k = 0; k < sects[i]->n_opt; ++k)
			if (!strcasecmp(sects[i]->options[k].name, name))
				return &sects[i]->options[k];
	return NULL;
}

/* ----------------------------------------------------------------- buffer */
#ifndef DRV_TR
const struct Component BUF_comp = { .description = "BUF", .dependencies = { NULL } };
static struct OPENSKY_RawFrame * held;
struct OPENSKY_RawFrame * BUF_newFrame()
{
	sim_yield();
	sim_ev("\"e\":\"new\",\"held\":%d", held != NULL);
	held = malloc(sizeof *held);
	memset(held, 0xee, sizeof *held);
	return held;
}
static void done(struct OPENSKY_RawFrame * f, const char * how)
{
	bool mine = f && f == held;
	sim_ev("\"e\":\"%s\",\"mine\":%d,\"d\":%s", how, mine, mine ? sim_bytes(f->raw, f->rawLen <= 46 ? f->rawLen : 46) : "[]");
	if (mine) {
		free(held);
		held = NULL;
	}
}
void BUF_commitFrame(struct OPENSKY_RawFrame * f) { sim_yield(); done(f, "commit"); }
void BUF_abortFrame(struct OPENSKY_RawFrame * f) { sim_yield(); done(f, "abort"); }
static void (*theMain)(void);
#else
const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
static void * held;
static const char * be(double d)
{
	uint64_t u;
	uint8_t o[8];
	memcpy(&u, &d, 8);
	for (int i = 0; i < 8; ++i)
		o[i] = u >> (56 - 8 * i);
	return sim_bytes(o, 8);
}
void GPS_reset() { sim_ev("\"e\":\"greset\""); }
void GPS_setPositionWithFix(double a, double b, double c) { sim_ev("\"e\":\"commit\",\"mine\":1,\"d\":%s", be(c)); }
#endif

/* ----------------------------------------------------------------- device */
static void put(uint8_t * o, size_t * n, int b, int esc)
{
	o[(*n)++] = b;
	if (b == esc)
		o[(*n)++] = b;
}
static bool settings;
static size_t message(uint8_t * o)
{
	size_t n = 0;
#ifndef DRV_TR
	static const uint8_t types[] = { '1', '2', '3', '3', '3', '4', '4' };
	int t = types[sim_rand_n(sizeof types)];
	unsigned w = t == '1' ? 9 : t == '2' ? 14 : 21;
	o[n++] = 0x1a;
	o[n++] = t;
	bool zero = sim_rand_n(3) == 0; /* not synchronized */
	for (unsigned i = 0; i < w; ++i) {
		int b = sim_rand_n(5) ? (int)(sim_rand() & 255) : 0x1a;
		if (i < 6 && zero)
			b = 0;
		if (i == 7 && (t == '2' || t == '3') && (settings || sim_rand_n(2)))
			b = (sim_rand_n(2) ? 17 : 18) << 3 | (b & 7);
		put(o, &n, b, 0x1a);
	}
#else
	o[n++] = 0x10;
	o[n++] = 0x8f;
	bool good = sim_rand_n(4);
	for (unsigned i = 1; i < 69; ++i) {
		int b = sim_rand_n(4) ? (int)(sim_rand() & 255) : 0x10;
		if (i == 1)
			b = 0xac;
		if (i == 2)
			b = 7;
		if (i == 3 || i == 9 || i == 10 || i == 13)
			b = 0;
		if (i == 11)
			b &= ~1;
		if (i == 12)
			b &= ~0x20;
		if (i == 13 && !good)
			b = 8;
		if (i >= 37 && i < 53)
			b = 0;
		if (i == 53)
			b = 0x40;
		put(o, &n, b, 0x10);
	}
	o[n++] = 0x10;
	o[n++] = 3;
#endif
	return n;
}
static bool finished;
static void deviceThread(void * x)
{
	for (unsigned k = 5 + sim_rand_n(40); k && !finished; --k) {
		int c = srv_current();
		unsigned r = sim_rand_n(20);
		if (srv_up(c)) {
			uint8_t o[400];
			size_t n = 0;
			if (r < 16) {
				if (sim_rand_n(8) == 0)
					for (unsigned g = sim_rand_n(10); g; --g)
						o[n++] = sim_rand();
				for (unsigned g = 1 + sim_rand_n(2); g; --g)
					n += message(o + n);
				if (sim_rand_n(5) == 0)
					n = 1 + sim_rand_n(n);
				srv_data(c, o, n);
			} else if (r == 16)
				srv_reset(c);
			else if (r == 17) {
#ifdef DRV_NET
				srv_close(c);
#endif
			}
		}
		if (sim_rand_n(4))
			sim_sleep_ns((1 + sim_rand_n(sim_rand_n(3) ? 300 : 25000)) * NS_PER_MS);
		else
			sim_yield();
	}
}
/* ------------------------------------------------- the user of the settings */
static void settingsThread(void * x)
{
#ifndef DRV_TR
	for (unsigned k = 2 + sim_rand_n(20); k && !finished; --k) {
		bool v = sim_rand_n(2);
		sim_ev("\"e\":\"set\",\"x\":%d", v);
		FILTER_setModeSExtSquitter(v);
		sim_ev("\"e\":\"setd\",\"x\":%d", v);
		if (sim_rand_n(3))
			sim_sleep_ns((1 + sim_rand_n(sim_rand_n(3) ? 20 : 12000)) * NS_PER_MS);
		else
			sim_yield();
	}
#endif
}
/* another part of the program, which opens and closes connections of its own */
static unsigned others;
static void otherThread(void * x)
{
	struct sockaddr_in sa = { .sin_family = AF_INET, .sin_port = htons(4711), .sin_addr.s_addr = htonl(0x0a0000c8) };
	for (unsigned k = sim_rand_n(12); k && !finished; --k) {
		int s = socket(AF_INET, SOCK_STREAM, 0);
		if (s >= 0) {
			++others;
			connect(s, (struct sockaddr *)&sa, sizeof sa);
			if (sim_rand_n(3))
				sim_sleep_ns((1 + sim_rand_n(15000)) * NS_PER_MS);
			else
				sim_yield();
			--others;
			close(s);
		}
		sim_sleep_ns((1 + sim_rand_n(sim_rand_n(2) ? 20 : 12000)) * NS_PER_MS);
	}
}
static bool always(void * x) { return false; }
static unsigned nscen(void) { return 8; }
static void mainThread(void * x)
{
#ifndef DRV_TR
	RECV_comp.main();
#else
	TRIMBLE_comp.main();
#endif
}
static void run(unsigned i)
{
	sim_thread_events = true;
	settings = false;
#ifndef DRV_TR
	settings = ex("set");
	struct FILTER_Configuration * f = (struct FILTER_Configuration *)FILTER_getConfiguration();
	f->extSquitter = i & 1;
	f->sync = sim_rand_n(2);
	f->crc = sim_rand_n(2);
	INPUT_comp.onRegister();
	bool fec = sim_rand_n(2);
	if (INPUT_comp.config)
		for (size_t k = 0; k < INPUT_comp.config->n_opt; ++k)
			if (!strcasecmp(INPUT_comp.config->options[k].name, "fec"))
				*(bool *)INPUT_comp.config->options[k].var = fec;
	sim_meta("\"kind\":\"rc\",\"ext\":%d,\"sync\":%d,\"crc\":%d,\"fec\":%d", f->extSquitter, f->sync, f->crc, fec);
#else
	TRIMBLE_comp.onRegister();
	sim_meta("\"kind\":\"tr\",\"ext\":0,\"sync\":0");
#endif
	unsigned port = 1 + sim_rand_n(65535);
#ifdef DRV_NET
	strcpy(opt("host")->var, "dev.example");
	*(uint_fast16_t *)opt("port")->var = port;
#endif
	simnet.naddr = 1 + sim_rand_n(3);
	for (unsigned k = 0; k < simnet.naddr; ++k)
		simnet.fam[k] = sim_rand_n(6) ? (sim_rand_n(2) ? 4 : 6) : 0;
	sim_meta("\"set\":%d,\"dev\":\"%s\",\"host\":\"dev.example\",\"port\":%u,\"fams\":[%d,%d,%d],\"max\":1024", settings,
#ifdef DRV_NET
		"net",
#else
		"uart",
#endif
		port, simnet.fam[0], simnet.fam[1], simnet.fam[2]);
	simnet.faults = sim_rand_n(12);
	simnet.p_gai = simnet.p_open = sim_rand_n(3) * 150;
	simnet.p_conn = sim_rand_n(3) * 200;
	simnet.p_sock = sim_rand_n(4) ? 0 : 200;
	simnet.p_tty = sim_rand_n(3) * 60;
	simnet.p_ttywrite = sim_rand_n(3) * 30;
	simnet.p_connslow = sim_rand_n(3) * 200;
	simnet.p_recverr = sim_rand_n(4) ? 0 : 100;
	simnet.p_recvpart = sim_rand_n(2) * 300;
	sim_p_switch = sim_rand_n(3) * 150;
	for (unsigned cyc = 1 + (sim_rand_n(4) == 0); cyc; --cyc) {
		finished = false;
#ifndef DRV_TR
		FILTER_comp.onConstruct(NULL);
		if (INPUT_comp.onConstruct)
			INPUT_comp.onConstruct(NULL);
#else
		TRIMBLE_comp.onConstruct(NULL);
#endif
		sim_ev("\"e\":\"start\"");
		int t = sim_spawn(&mainThread, NULL, "input");
		int d = sim_spawn(&deviceThread, NULL, "device");
		int s = settings ? sim_spawn(&settingsThread, NULL, "settings") : -1;
		int o = ex("other") ? sim_spawn(&otherThread, NULL, "other") : -1;
		switch (sim_rand_n(3)) {
		case 0:
			for (unsigned k = sim_rand_n(60); k; --k)
				sim_yield();
			break;
		case 1:
			sim_sleep_ns(sim_rand_n(60000) * NS_PER_MS);
			break;
		default:
			while (!sim_dead(d))
				sim_sleep_ns(500 * NS_PER_MS);
			sim_sleep_ns(11000 * NS_PER_MS);
			sim_quiesce();
		}
		finished = true;
		while (s != -1 && !sim_dead(s))
			sim_sleep_ns(500 * NS_PER_MS);
		while (o != -1 && !sim_dead(o))
			sim_sleep_ns(500 * NS_PER_MS);
		sim_ev("\"e\":\"stop\"");
		sim_cancel(t);
		while (!sim_dead(t) || !sim_dead(d))
			sim_sleep_ns(500 * NS_PER_MS);
		sim_ev("\"e\":\"end\",\"open\":%u,\"gai\":%u,\"locks\":%u,\"held\":%d", simnet_open(), simnet_live_gai(),
			sim_locked_mutexes(), held != NULL);
	}
	sim_done();
}
static const char * name(unsigned i) { return "input"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
