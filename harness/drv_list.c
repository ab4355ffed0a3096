/* Driver for util/list.h: histories of operations on several lists of each
 * flavour (with NOGENERIC: of the one flavour which is left). */
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <config.h>
#ifdef NOGENERIC
#undef HAS_GENERIC
#endif
#include "util/list.h"
#include "sim.h"
#define NL 3
#define NE 5
struct E { int pad; struct LIST_LinkD d; struct LIST_LinkS s; int id; };
static struct E el[NE];

#define FL DC
#define LT struct LIST_ListDC
#define KT LIST_LinkD
#define MB d
#define DBL 1
#define CNT 1
#define INI(n) LIST_ListDC_INIT(n)
#include "listops.inc"
#ifndef NOGENERIC
#define FL D
#define LT struct LIST_ListD
#define KT LIST_LinkD
#define MB d
#define DBL 1
#define CNT 0
#define INI(n) LIST_ListD_INIT(n)
#include "listops.inc"
#define FL S
#define LT struct LIST_ListS
#define KT LIST_LinkS
#define MB s
#define DBL 0
#define CNT 0
#define INI(n) LIST_ListS_INIT(n)
#include "listops.inc"
#define FL SC
#define LT struct LIST_ListSC
#define KT LIST_LinkS
#define MB s
#define DBL 0
#define CNT 1
#define INI(n) LIST_ListSC_INIT(n)
#include "listops.inc"
#endif

static struct { void (*start)(void); void (*op)(const char *, int, int, int); void (*state)(int); bool dbl, cnt; } fl[] = {
	{ &startDC, &opDC, &stateDC, true, true },
#ifndef NOGENERIC
	{ &startD, &opD, &stateD, true, false },
	{ &startS, &opS, &stateS, false, false },
	{ &startSC, &opSC, &stateSC, false, true },
#endif
};
static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
/* histories with operations only double linked lists have: the first ones */
#define NALL (sizeof fl / sizeof *fl)
#define NFL (ex("dbl") && NALL > 2 ? 2 : NALL)
static char * lines[1 << 14];
static unsigned nlines;
/* where the elements are, according to the operations so far */
static int seq[NL][NE], len[NL];
static int where(int e) { for (int l = 0; l < NL; ++l) for (int i = 0; i < len[l]; ++i) if (seq[l][i] == e) return l; return -1; }
static void del(int l, int e) { int k = 0; for (int i = 0; i < len[l]; ++i) if (seq[l][i] != e) seq[l][k++] = seq[l][i]; len[l] = k; }
static void ins(int l, int at, int e) { memmove(&seq[l][at + 1], &seq[l][at], (len[l] - at) * sizeof(int)); seq[l][at] = e; ++len[l]; }
static void cut(int from, int n, int to, int at) { while (n--) { int e = seq[from][0]; del(from, e); ins(to, at++, e); } }
static int pos(int l, int e) { for (int i = 0; i < len[l]; ++i) if (seq[l][i] == e) return i; return len[l]; }
static void run(unsigned sc)
{
	unsigned k = sc % NFL;
	for (int i = 0; i < NE; ++i) {
		memset(&el[i], 0xee, sizeof el[i]);
		el[i].id = i + 1;
	}
	sim_meta("\"nl\":%d,\"dbl\":%d,\"cnt\":%d", NL, fl[k].dbl, fl[k].cnt);
	fl[k].start();
	if (ex("script")) {
		char * s = strdup(lines[sc / NFL]);
		for (char * w = strtok(s, " \n"); w; w = strtok(NULL, " \n")) {
			char o[20];
			int a, x, y;
			if (sscanf(w, "%19[a-z]:%d:%d:%d", o, &a, &x, &y) != 4)
				abort();
			fl[k].op(o, a - 1, !strcmp(o, "cpush") || !strcmp(o, "cunshift") || strstr(o, "from") || strstr(o, "until") ? x - 1 : x, y);
			fl[k].state(sim_rand_n(12));
		}
		sim_done();
	}
	bool dbl = fl[k].dbl, cnt = fl[k].cnt;
	for (unsigned n = 10 + sim_rand_n(80); n; --n) {
		int a = sim_rand_n(NL), b = (a + 1 + sim_rand_n(NL - 1)) % NL;
		int fr[NE], nf = 0;
		for (int e = 1; e <= NE; ++e)
			if (where(e) < 0)
				fr[nf++] = e;
		int e = nf ? fr[sim_rand_n(nf)] : 0, p = len[a] ? seq[a][sim_rand_n(len[a])] : 0, pz = sim_rand_n(4) ? p : 0;
		switch (sim_rand_n(24)) {
		case 0: case 1: case 2: if (e) { fl[k].op("push", a, e, 0); ins(a, len[a], e); } break;
		case 3: case 4: if (e) { fl[k].op("unshift", a, e, 0); ins(a, 0, e); } break;
		case 5: fl[k].op("shift", a, 0, 0); if (len[a]) del(a, seq[a][0]); break;
		case 6: if (dbl) { fl[k].op("pop", a, 0, 0); if (len[a]) del(a, seq[a][len[a] - 1]); } break;
		case 7: if (dbl) { fl[k].op("unlink", a, pz, 0); if (pz) del(a, pz); } break;
		case 8: case 9: if (dbl && e) { fl[k].op("insert", a, e, pz); ins(a, pz ? pos(a, pz) : len[a], e); } break;
		case 10: fl[k].op("cpush", a, b, 0); cut(b, len[b], a, len[a]); break;
		case 11: fl[k].op("cunshift", a, b, 0); cut(b, len[b], a, 0); break;
		case 12: case 13: case 14: case 15:
			if (dbl && !len[b]) {
				int w = sim_rand_n(cnt ? 4 : 2);
				fl[k].op((const char *[]){ "from", "until", "lfrom", "luntil" }[w], a, b, pz);
				if (w & 1)
					cut(a, pz ? pos(a, pz) : len[a], b, 0);
				else if (pz)
					while (pos(a, pz) < len[a]) {
						int z = seq[a][len[a] - 1];
						del(a, z);
						ins(b, 0, z);
					}
			}
			break;
		case 16:
			if (!len[a] && e) {
				int m = 0;
				while (e + m <= NE && where(e + m) < 0)
					++m;
				m = sim_rand_n(m + 1);
				fl[k].op("vec", a, e, m);
				for (int i = 0; i < m; ++i)
					ins(a, i, e + i);
			}
			break;
		case 17: fl[k].op("init", a, 0, 0); len[a] = 0; break;
		case 18: if (cnt) fl[k].op("length", a, 0, 0); break;
		case 19:
			if (dbl) {
				int m = sim_rand_n(1 << NE);
				fl[k].op("purge", a, m, sim_rand_n(2));
				for (int z = 1; z <= NE; ++z)
					if (m >> (z - 1) & 1)
						del(a, z);
			}
			break;
		case 20: fl[k].op(sim_rand_n(2) ? "at" : "rewind", a, sim_rand_n(len[a] + 1), 0); break;
		case 21: fl[k].op((const char *[]){ "next", "prev", "begin", "last", "empty" }[sim_rand_n(5)], a, pz, 0); break;
		case 22: if (p) fl[k].op("cont", a, p, 0); break;
		case 23: if (p && dbl) fl[k].op("rcont", a, p, 0); break;
		}
		if (sim_rand_n(3) == 0)
			fl[k].state(sim_rand_n(12));
		/* usually counted lists are not asked for their length */
	}
	fl[k].state(0);
	if (cnt)
		for (int l = 0; l < NL; ++l)
			fl[k].op("length", l, 0, 0);
	sim_done();
}
static unsigned nscen(void)
{
	if (ex("script")) {
		FILE * f = nlines ? NULL : fopen(sim_opt.script, "r");
		char * l = NULL;
		size_t cap = 0;
		while (f && getline(&l, &cap, f) > 0 && nlines < 1 << 14)
			lines[nlines++] = strdup(l);
		return nlines * NFL;
	}
	return 2 * NFL;
}
static const char * name(unsigned i) { return "list"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
