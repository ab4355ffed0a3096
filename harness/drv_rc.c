/* Driver for radarcape/rc-parser.c and core/beast.c: byte streams cut into
 * reads in every possible way, read failures, reconnections. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/input.h"
#include "core/beast.h"
#include "radarcape/rc-input.h"
#include "radarcape/rc-parser.h"
#include "util/component.h"
#include "sim.h"

/* the stream to be read: bytes and the ends of reads */
static uint8_t s[1 << 20];
static uint8_t mark[1 << 20]; /* a read ends behind this byte */
static size_t n, at;
static bool ended;

void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_connect() {}
void RC_INPUT_disconnect() {}
size_t RC_INPUT_write(uint8_t * buf, size_t len) { return len; }
size_t RC_INPUT_read(uint8_t * buf, size_t len)
{
	size_t k = 0;
	while (at + k < n && k < len) {
		++k;
		if (mark[at + k - 1])
			break;
	}
	memcpy(buf, s + at, k);
	at += k;
	if (k == 0)
		ended = true;
	sim_ev("\"e\":\"read\",\"d\":%s", sim_bytes(buf, k));
	return k;
}
static void put(int b, bool m) { if (n < sizeof s) { s[n] = b; mark[n++] = m; } }
static void putEsc(const uint8_t * b, size_t k)
{
	for (size_t i = 0; i < k; ++i) {
		put(b[i], 0);
		if (b[i] == 0x1a)
			put(0x1a, 0);
	}
}
static void clear(void) { n = at = 0; ended = false; }
static unsigned nframes;
/* read all frames up to the failure */
static void get(bool * failed)
{
	/* exactly as large as they have to be: an overrun is caught */
	struct OPENSKY_RawFrame * raw = malloc(sizeof *raw);
	struct OPENSKY_DecodedFrame * d = malloc(sizeof *d);
	memset(raw, 0xee, sizeof *raw);
	memset(d, 0xee, sizeof *d);
	raw->rawLen = sim_rand_n(46);
	sim_ev("\"e\":\"get\"");
	bool ok = INPUT_getFrame(raw, d);
	struct RC_PARSER_Statistics st;
	RC_PARSER_getStatistics(&st);
	if (ok) {
		uint8_t ts[8];
		for (int i = 0; i < 8; ++i)
			ts[i] = d->mlat >> (56 - 8 * i);
		sim_ev("\"e\":\"frame\",\"ty\":%d,\"ts\":%s,\"sig\":%d,\"pl\":%s,\"raw\":%s,\"oos\":%llu,\"unk\":%llu", (int)d->frameType,
			sim_bytes(ts, 8), (int)d->siglevel, sim_bytes(d->payload, d->payloadLen <= 14 ? d->payloadLen : 14),
			sim_bytes(raw->raw, raw->rawLen <= 46 ? raw->rawLen : 46), (unsigned long long)st.outOfSync,
			(unsigned long long)st.frameTypeUnknown);
		++nframes;
	} else
		sim_ev("\"e\":\"fail\",\"oos\":%llu,\"unk\":%llu", (unsigned long long)st.outOfSync, (unsigned long long)st.frameTypeUnknown);
	*failed = !ok;
	free(raw);
	free(d);
}
static void readAll(void)
{
	bool f = false;
	while (!f)
		get(&f);
}
static void conn(void) { INPUT_connect(); sim_ev("\"e\":\"conn\""); }
static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
static void frame(int t, bool sync)
{
	uint8_t b[21];
	unsigned w = t == '1' ? 9 : t == '2' ? 14 : 21, m = sim_rand_n(5);
	for (unsigned i = 0; i < w; ++i)
		b[i] = m == 0 ? 0x1a : m == 1 ? (sim_rand() & 1 ? 0x1a : sim_rand()) : m == 2 ? '1' + sim_rand_n(4) : sim_rand();
	if (sim_rand_n(3) == 0)
		b[w - 1] = 0x1a;
	if (sim_rand_n(3) == 0)
		b[6] = 0x1a;
	put(0x1a, 0);
	put(t, 0);
	putEsc(b, w);
}
static int anyByte(void)
{
	static const uint8_t c[] = { 0x1a, 0x1a, 0x1a, '1', '2', '3', '4', '0', '5', 0, 0xff, 'A' };
	return sim_rand_n(4) ? c[sim_rand_n(sizeof c)] : sim_rand() & 255;
}
static void cuts(void)
{
	unsigned style = sim_rand_n(6), p = 1 + sim_rand_n(40);
	for (size_t i = 0; i < n; ++i)
		mark[i] = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? s[i] == 0x1a : style == 3 ? i + 1 < n && s[i + 1] == 0x1a
			: sim_rand_n(p) == 0;
}
static void good(void) { frame('1' + sim_rand_n(4), true); }
#define MAXL 4096
static char * lines[1 << 16];
static unsigned nlines;
static void load(void)
{
	FILE * f = fopen(sim_opt.script, "r");
	char * l = NULL;
	size_t cap = 0;
	while (f && getline(&l, &cap, f) > 0 && nlines < 1 << 16)
		lines[nlines++] = strdup(l);
}
static unsigned nscen(void)
{
	if (ex("script")) {
		if (!nlines)
			load();
		return (nlines + 15) / 16;
	}
	return ex("enum") || ex("enc") ? 64 : 8;
}
static void roundtrip(unsigned len)
{
	uint8_t b[256];
	unsigned m = sim_rand_n(4);
	for (unsigned i = 0; i < len; ++i)
		b[i] = m == 0 ? 0x1a : m == 1 ? (sim_rand() & 1 ? 0x1a : 'x') : m == 2 ? (sim_rand_n(8) ? sim_rand() : 0x1a) : sim_rand();
	uint8_t * in = malloc(len ? len : 1), * out = malloc(2 * len ? 2 * len : 1);
	memcpy(in, b, len);
	memset(out, 0xee, 2 * len);
	size_t k = BEAST_encode(out, in, len);
	sim_ev("\"e\":\"enc\",\"d\":%s,\"o\":%s", sim_bytes(b, len), sim_bytes(out, k <= 2 * len ? k : 2 * len));
	free(in);
	free(out);
}
static void encs(unsigned i)
{
	/* all strings over { Sync, x } up to length 12, which start with the i-th prefix; random ones */
	static const uint8_t ab[3] = { 0x1a, 'x', '1' };
	for (unsigned len = 0; len <= 7; ++len) {
		unsigned c = 1;
		for (unsigned k = 0; k < len; ++k)
			c *= 3;
		for (unsigned j = i; j < c; j += 64) {
			uint8_t b[12], * in = malloc(len ? len : 1), * out = malloc(2 * len ? 2 * len : 1);
			unsigned x = j;
			for (unsigned k = 0; k < len; ++k, x /= 3)
				b[k] = ab[x % 3];
			memcpy(in, b, len);
			size_t k = BEAST_encode(out, in, len);
			sim_ev("\"e\":\"enc\",\"d\":%s,\"o\":%s", sim_bytes(b, len), sim_bytes(out, k <= 2 * len ? k : 2 * len));
			free(in);
			free(out);
		}
	}
	for (unsigned k = 0; k < 40; ++k)
		roundtrip(sim_rand_n(k % 2 ? 32 : 200));
	for (unsigned b = 0; b < 256; ++b)
		if (b % 64 == i) {
			uint8_t in = b, * out = malloc(2);
			size_t k = BEAST_encode(out, &in, 1);
			sim_ev("\"e\":\"enc\",\"d\":%s,\"o\":%s", sim_bytes(&in, 1), sim_bytes(out, k <= 2 ? k : 2));
			free(out);
		}
	/* encoded by the real code, read back by the real reader */
	for (unsigned k = 0; k < 12; ++k) {
		clear();
		conn();
		for (unsigned f = 1 + sim_rand_n(4); f; --f) {
			uint8_t b[21], o[42];
			int t = '1' + sim_rand_n(4);
			unsigned w = t == '1' ? 9 : t == '2' ? 14 : 21, m = sim_rand_n(3);
			for (unsigned j = 0; j < w; ++j)
				b[j] = m == 0 ? 0x1a : m == 1 ? (sim_rand() & 1 ? 0x1a : 'x') : sim_rand();
			size_t z = BEAST_encode(o, b, w);
			put(0x1a, 0);
			put(t, 0);
			for (size_t j = 0; j < z; ++j)
				put(o[j], 0);
		}
		cuts();
		readAll();
	}
}
static void run(unsigned i)
{
	sim_meta("\"x\":0");
	INPUT_comp.onConstruct(NULL);
	if (INPUT_comp.onReset)
		INPUT_comp.onReset(NULL);
	if (ex("script")) {
		for (unsigned k = 16 * i; k < 16 * i + 16 && k < nlines; ++k) {
			clear();
			conn();
			char * q = lines[k];
			while (*q && *q != '\n') {
				if (*q == '/') {
					/* a failure, and reading goes on on the next connection */
					readAll();
					clear();
					conn();
					++q;
					continue;
				}
				int b = strtol(q, &q, 10);
				bool m = *q == '|';
				put(b, m);
				++q;
			}
			good();
			readAll();
			if (sim_nev() > 60000)
				break;
		}
	} else if (ex("enc")) {
		encs(i);
	} else if (ex("enum")) {
		/* a frame up to its last bytes, then all strings of length 5 (thorough: 6) over four bytes, then two frames */
		static const uint8_t ab[4] = { 0x1a, '1', '3', 7 };
		unsigned len = ex("enum6") ? 6 : 5, c = 1;
		for (unsigned k = 0; k < len; ++k)
			c *= 4;
		for (unsigned j = i; j < c; j += 64)
			for (unsigned pre = 0; pre < 3; ++pre) {
				clear();
				conn();
				if (pre) {
					/* Mode-AC frame without its last pre bytes */
					put(0x1a, 0);
					put('1', 0);
					for (unsigned k = 0; k < 9 - pre; ++k)
						put(0x30 + k, 0);
				}
				unsigned x = j;
				for (unsigned k = 0; k < len; ++k, x /= 4)
					put(ab[x % 4], 0);
				frame('1', true);
				frame('1', true);
				cuts();
				readAll();
			}
	} else {
		for (unsigned c = 1 + sim_rand_n(6); c; --c) {
			clear();
			conn();
			for (unsigned k = 1 + sim_rand_n(20); k; --k) {
				unsigned r = sim_rand_n(10);
				if (r < 6)
					good();
				else if (r < 8)
					for (unsigned z = 1 + sim_rand_n(12); z; --z)
						put(anyByte(), 0);
				else if (r < 9) { /* truncated */
					size_t b = n;
					good();
					n = b + 1 + sim_rand_n(n - b);
				} else { /* corrupted */
					size_t b = n;
					good();
					s[b + sim_rand_n(n - b)] = anyByte();
				}
			}
			cuts();
			bool f = false;
			while (!f) {
				get(&f);
				if (!f && sim_rand_n(60) == 0)
					break; /* given up: what was read already is dropped */
			}
			if (sim_rand_n(5) == 0 && INPUT_comp.onReset && f) {
				INPUT_comp.onReset(NULL);
				sim_ev("\"e\":\"reset\"");
			}
		}
	}
	sim_done();
}
static const char * name(unsigned i) { return "rc"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
