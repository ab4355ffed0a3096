/* Driver for trimble/trimble_parser.c and trimble/trimble_recv.c: byte streams
 * of a GPS receiver cut into reads in every possible way, failures, and the
 * loop which evaluates the packets. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/gps.h"
#include "core/network.h"
#include "trimble/trimble_input.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_recv.h"
#include "util/component.h"
#include "sim.h"

#define BOM 0x10
#define EOM 0x03
const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
static uint8_t s[1 << 20], mark[1 << 20]; /* a read ends behind a marked byte */
static size_t n, at;
static bool loop, con;
static unsigned pWFail;
static int rounds; /* connections until the loop is stopped */
static void scenario(void);
static bool ex(const char * x);

void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() {}
void TRIMBLE_INPUT_connect()
{
	if (loop) {
		con = false;
		if (!ex("fields"))
			sim_sleep_ns(sim_rand_n(3) * 10000 * NS_PER_MS);
		sim_testcancel();
		if (--rounds < 0)
			sim_block(NULL, NULL, 0, true);
		con = true;
		scenario();
	}
	sim_ev("\"e\":\"iconn\"");
}
void TRIMBLE_INPUT_disconnect()
{
	con = false;
	sim_ev("\"e\":\"mdis\"");
}
size_t TRIMBLE_INPUT_write(const uint8_t * buf, size_t len)
{
	size_t r = sim_p(pWFail) ? sim_crand() % len : len;
	sim_ev("\"e\":\"iw\",\"d\":%s,\"r\":%u", sim_bytes(buf, len), (unsigned)r);
	return r;
}
size_t TRIMBLE_INPUT_read(uint8_t * buf, size_t len)
{
	size_t k = 0;
	if (loop) {
		sim_yield();
		sim_testcancel();
	}
	while (at + k < n && k < len) {
		++k;
		if (mark[at + k - 1])
			break;
	}
	memcpy(buf, s + at, k);
	at += k;
	if (k == 0)
		con = false;
	sim_ev("\"e\":\"%s\",\"d\":%s", loop ? "mread" : "read", sim_bytes(buf, k));
	return k;
}
void GPS_reset() { sim_ev("\"e\":\"greset\""); }
void GPS_resetNeedFlag() { sim_ev("\"e\":\"gother\""); }
void GPS_setPosition(double a, double b, double c) { sim_ev("\"e\":\"gother\""); }
void GPS_setHasFix(bool f) { sim_ev("\"e\":\"gother\""); }
bool GPS_sendPosition() { sim_ev("\"e\":\"gother\""); return true; }
static const char * be(double d)
{
	uint64_t u;
	uint8_t o[8];
	memcpy(&u, &d, 8);
	for (int i = 0; i < 8; ++i)
		o[i] = u >> (56 - 8 * i);
	return sim_bytes(o, 8);
}
void GPS_setPositionWithFix(double a, double b, double c)
{
	sim_ev("\"e\":\"gpos\",\"lat\":%s,\"lon\":%s,\"alt\":%s", be(a), be(b), be(c));
}

static void put(int b, bool m) { if (n < sizeof s) { s[n] = b; mark[n++] = m; } }
static void packet(const uint8_t * b, size_t len)
{
	put(BOM, 0);
	put(b[0], 0);
	for (size_t i = 1; i < len; ++i) {
		put(b[i], 0);
		if (b[i] == BOM)
			put(BOM, 0);
	}
	put(BOM, 0);
	put(EOM, 0);
}
static void clear(void) { n = at = 0; }
static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
static int anyByte(void)
{
	static const uint8_t c[] = { BOM, BOM, BOM, EOM, EOM, 0x8f, 0xac, 0, 0xff };
	return sim_rand_n(4) ? c[sim_rand_n(sizeof c)] : sim_rand() & 255;
}
static unsigned max;
static void some(void)
{
	uint8_t b[1200];
	/* around the size of the buffer */
	unsigned len = sim_rand_n(4) == 0 ? max - 2 + sim_rand_n(4) : 1 + sim_rand_n(max < 80 ? max : 80), m = sim_rand_n(4);
	if (len < 1 || len > sizeof b)
		len = 1;
	do
		b[0] = anyByte();
	while (b[0] == BOM || b[0] == EOM);
	for (unsigned i = 1; i < len; ++i)
		b[i] = m == 0 ? BOM : m == 1 ? anyByte() : m == 2 ? (sim_rand() & 1 ? BOM : EOM) : sim_rand();
	packet(b, len);
}
static void cuts(void)
{
	unsigned style = sim_rand_n(6), p = 1 + sim_rand_n(60);
	for (size_t i = 0; i < n; ++i)
		mark[i] = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? s[i] == BOM : style == 3 ? i + 1 < n && s[i + 1] == BOM
			: sim_rand_n(p) == 0;
}
static void get(bool * failed)
{
	uint8_t * b = malloc(max); /* an overrun is caught */
	memset(b, 0xee, max);
	sim_ev("\"e\":\"get\"");
	size_t k = TRIMBLE_PARSER_getFrame(b, max);
	if (k)
		sim_ev("\"e\":\"pkt\",\"d\":%s", sim_bytes(b, k <= max ? k : max));
	else
		sim_ev("\"e\":\"fail\"");
	*failed = !k;
	free(b);
}
static void readAll(void)
{
	bool f = false;
	while (!f)
		get(&f);
}
static void conn(void) { TRIMBLE_PARSER_connect(); }

/* ---- positions ---- */
static char tab[1 << 18];
static size_t ntab;
static double angle(bool known)
{
	double d;
	uint64_t u = (uint64_t)sim_rand() << 32 | sim_rand();
	switch (sim_rand_n(6)) {
	case 0: u = 0x1010101010101010ull; memcpy(&d, &u, 8); break;
	case 1: u = 0x3fe0000000000000ull | (u & 0x0010101010101010ull); memcpy(&d, &u, 8); break;
	case 2: d = (sim_rand_n(3) - 1.0) * 1.5707963267948966; break;
	case 3: d = (sim_rand_n(3) - 1.0) * 0.0; break;
	default: d = (double)u / 18446744073709551616.0 * 6.283185307179586 - 3.141592653589793; break;
	}
	if (known)
		ntab += snprintf(tab + ntab, sizeof tab - ntab, "%s[%s,%s]", ntab ? "," : "", be(d), be(d * 57.2957795130823208767981548141051703));
	return d;
}
static void be8(uint8_t * o, double d)
{
	uint64_t u;
	memcpy(&u, &d, 8);
	for (int i = 0; i < 8; ++i)
		o[i] = u >> (56 - 8 * i);
}
/* a timing packet: good except for the byte at position w (0: none), which is v */
static void timing(unsigned len, int w, int v)
{
	static double lat, lon;
	uint8_t b[80];
	for (unsigned i = 0; i < sizeof b; ++i)
		b[i] = sim_rand_n(3) ? sim_rand() : BOM;
	b[0] = 0x8f;
	b[1] = 0xac;
	b[2] = 7;
	b[3] = 0;
	b[9] = b[10] = 0;
	b[11] &= ~0x01; /* test mode */
	b[12] &= ~0x20; /* self survey */
	b[13] = 0;
	if (sim_rand_n(3) || !ntab) {
		lat = angle(true);
		lon = angle(true);
	}
	double alt = sim_rand_n(2) ? (int)sim_rand_n(9000) - 100 + sim_rand_n(1000) / 1000. : angle(false);
	be8(b + 37, lat);
	be8(b + 45, lon);
	be8(b + 53, alt);
	if (w)
		b[w] = v;
	packet(b, len);
}
static unsigned scen, part;
static void scenario(void)
{
	clear();
	if (ex("fields")) {
		/* all values of every field of the status, one at a time; every length */
		static const int f[] = { 2, 3, 9, 10, 11, 12, 13, 1, 4, 14, 15, 16 };
		int w = f[scen % 12];
		if (scen < 12) {
			for (int v = 0; v < 256; ++v)
				if (v % 2 == (int)part % 2)
					timing(69, w, v);
		} else if (scen == 12)
			for (unsigned l = 2; l <= 78; ++l)
				timing(l, 0, 0);
		else {
			for (int v = 0; v < 256; ++v) { /* other packets of the same size */
				timing(69, 0, 0);
				uint8_t b[69] = { v, 0xac, 7 };
				if (v != BOM && v != EOM && v != 0x8f)
					packet(b, 69);
			}
		}
		++part;
	} else
		for (unsigned k = 1 + sim_rand_n(12); k; --k) {
			static const uint8_t f[] = { 2, 3, 9, 10, 11, 12, 13 };
			unsigned r = sim_rand_n(12);
			if (r < 4)
				timing(69, 0, 0);
			else if (r < 6)
				timing(69, f[sim_rand_n(sizeof f)], sim_rand_n(3) ? 1 << sim_rand_n(8) : sim_rand() & 255);
			else if (r < 7)
				timing(2 + sim_rand_n(78), 0, 0);
			else if (r < 8)
				some();
			else if (r < 10)
				for (unsigned z = 1 + sim_rand_n(20); z; --z)
					put(anyByte(), 0);
			else if (r < 11) { /* truncated */
				size_t b = n;
				timing(69, 0, 0);
				n = b + 1 + sim_rand_n(n - b);
			} else { /* a byte too many */
				size_t b = n;
				timing(69, 0, 0);
				size_t i = b + 1 + sim_rand_n(30);
				memmove(s + i + 1, s + i, n - i);
				s[i] = sim_rand();
				mark[n++] = 0;
			}
		}
	cuts();
}
static char * lines[1 << 16];
static unsigned nlines;
static void load(void)
{
	FILE * f = fopen(sim_opt.script, "r");
	char * l = NULL;
	size_t cap = 0;
	while (f && getline(&l, &cap, f) > 0 && nlines < 1 << 16)
		lines[nlines++] = strdup(l);
}
static unsigned nscen(void)
{
	if (ex("script")) {
		if (!nlines)
			load();
		return (nlines + 15) / 16;
	}
	return ex("enum") ? 64 : ex("fields") ? 14 : ex("loop") ? 4 : 8;
}
static void mainThread(void * x) { TRIMBLE_comp.main(); }
static void run(unsigned i)
{
	scen = i;
	if (TRIMBLE_comp.onConstruct)
		TRIMBLE_comp.onConstruct(NULL);
	if (ex("loop") || ex("fields")) {
		max = 1024; /* of the loop; no packet here comes near it, except for some() */
		loop = true;
		sim_thread_events = true;
		pWFail = ex("fields") ? 0 : sim_rand_n(3) * 150;
		rounds = ex("fields") ? 2 : 1 + sim_rand_n(5);
		int t = sim_spawn(&mainThread, NULL, "trimble");
		if (ex("fields") || sim_rand_n(2))
			sim_quiesce();
		else
			sim_sleep_ns(sim_rand_n(60000) * NS_PER_MS);
		sim_cancel(t);
		while (!sim_dead(t))
			sim_sleep_ns(1000 * NS_PER_MS);
		sim_ev("\"e\":\"end\",\"con\":%d", con);
		sim_meta("\"max\":1024,\"tab\":[%s]", tab);
		sim_done();
	}
	static const unsigned sizes[] = { 2, 3, 6, 18, 69, 128, 200, 1024 };
	max = ex("script") || ex("enum") ? 6 : sizes[i % 8];
	sim_meta("\"max\":%u", max);
	if (ex("script")) {
		for (unsigned k = 16 * i; k < 16 * i + 16 && k < nlines; ++k) {
			clear();
			conn();
			char * q = lines[k];
			while (*q && *q != '\n') {
				if (*q == '/') {
					readAll();
					clear();
					conn();
					++q;
					continue;
				}
				int b = strtol(q, &q, 10);
				put(b, *q == '|');
				++q;
			}
			some();
			some();
			readAll();
		}
	} else if (ex("enum")) {
		static const uint8_t ab[4] = { BOM, EOM, 0x46, 0xac };
		unsigned len = ex("enum7") ? 7 : 6, c = 1 << (2 * len);
		for (unsigned j = i; j < c; j += 64) {
			clear();
			conn();
			for (unsigned k = 0, x = j; k < len; ++k, x /= 4)
				put(ab[x % 4], 0);
			uint8_t f[3] = { 0x46, BOM, 1 };
			packet(f, 3);
			packet(f, 3);
			cuts();
			readAll();
		}
	} else
		for (unsigned c = 1 + sim_rand_n(6); c; --c) {
			clear();
			pWFail = sim_rand_n(4) == 0 ? 300 : 0;
			conn();
			for (unsigned k = 1 + sim_rand_n(16); k; --k) {
				unsigned r = sim_rand_n(10);
				size_t b = n;
				if (r < 6)
					some();
				else if (r < 8)
					for (unsigned z = 1 + sim_rand_n(12); z; --z)
						put(anyByte(), 0);
				else if (r < 9) {
					some();
					n = b + 1 + sim_rand_n(n - b);
				} else {
					some();
					s[b + sim_rand_n(n - b)] = anyByte();
				}
			}
			cuts();
			bool f = false;
			while (!f) {
				get(&f);
				if (!f && sim_rand_n(60) == 0)
					break;
			}
		}
	sim_done();
}
static const char * name(unsigned i) { return "tr"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
