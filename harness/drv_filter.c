/* Driver for core/filter.c: histories of settings, synchronization and frames. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "core/filter.h"
#include "core/input.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "sim.h"

const struct Component INPUT_comp = { .description = "IN", .dependencies = { NULL } };
static char reconf[64];
void INPUT_reconfigure()
{
	snprintf(reconf + strlen(reconf), sizeof reconf - strlen(reconf), "%s%d", *reconf ? "," : "", FILTER_getConfiguration()->extSquitter);
}
static bool crc;
static void setSync(bool x) { FILTER_setSynchronizedFilter(x); sim_ev("\"e\":\"sync\",\"x\":%d", x); }
static void setExt(bool x)
{
	*reconf = 0;
	FILTER_setModeSExtSquitter(x);
	sim_ev("\"e\":\"ext\",\"x\":%d,\"reconf\":[%s]", x, reconf);
}
static void setIs(bool x) { FILTER_setSynchronized(x); sim_ev("\"e\":\"is\",\"x\":%d", x); }
static void reset(void) { FILTER_reset(); sim_ev("\"e\":\"reset\""); }
static void frame(int t, int b) { bool r = FILTER_filter(t, b); sim_ev("\"e\":\"frame\",\"ft\":%d,\"b\":%d,\"r\":%d", t, b, r); }
static void stats(void)
{
	struct FILTER_Statistics s;
	FILTER_getStatistics(&s);
	char a[800] = "", b[200] = "";
	for (int i = 0; i < 32; ++i)
		sprintf(a + strlen(a), "%s%llu", i ? "," : "", (unsigned long long)s.modeSByType[i]);
	for (int i = 0; i < 4; ++i)
		sprintf(b + strlen(b), "%s%llu", i ? "," : "", (unsigned long long)s.framesByType[i]);
	sim_ev("\"e\":\"stats\",\"byType\":[%s],\"byDf\":[%s],\"filtered\":%llu,\"modeS\":%llu,\"unsync\":%llu,\"cfg\":[%d,%d],\"crc\":%d,\"wcrc\":%d",
		b, a, (unsigned long long)s.filtered, (unsigned long long)s.modeSfiltered, (unsigned long long)s.unsynchronized,
		FILTER_getConfiguration()->sync, FILTER_getConfiguration()->extSquitter, FILTER_getConfiguration()->crc, crc);
}
static void rstats(void) { FILTER_comp.onReset(NULL); sim_ev("\"e\":\"rstats\""); }
static void opt(const char * name, bool v)
{
	for (size_t i = 0; i < FILTER_comp.config->n_opt; ++i)
		if (!strcasecmp(FILTER_comp.config->options[i].name, name))
			*(bool *)FILTER_comp.config->options[i].var = v;
}
static void construct(bool sync, bool ext)
{
	opt("SyncFilter", sync);
	opt("ModeSExtSquitterOnly", ext);
	opt("CRC", crc = sim_rand_n(2));
	FILTER_comp.onConstruct(NULL);
	sim_ev("\"e\":\"construct\",\"sync\":%d,\"ext\":%d", sync, ext);
}
static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
static char * lines[1 << 14];
static unsigned nlines;
static void run(unsigned i)
{
	sim_meta("\"x\":0");
	if (ex("script")) {
		for (unsigned k = 8 * i; k < 8 * i + 8 && k < nlines; ++k) {
			char * q = strtok(lines[k], " \n");
			int s = atoi(q), x = atoi(strtok(NULL, " \n"));
			construct(s, x);
			rstats();
			for (q = strtok(NULL, " \n"); q; q = strtok(NULL, " \n")) {
				int v = atoi(strtok(NULL, " \n"));
				if (!strcmp(q, "sync")) setSync(v);
				else if (!strcmp(q, "ext")) setExt(v);
				else if (!strcmp(q, "is")) setIs(v);
				else if (!strcmp(q, "reset")) reset();
				else frame(v >> 8, v & 255);
			}
			stats();
		}
	} else if (ex("all")) {
		/* every setting reached in two ways, every type, every first byte */
		for (int cfg = 0; cfg < 8; ++cfg)
			for (int way = 0; way < 2; ++way) {
				if (way)
					construct(cfg & 1, cfg & 2);
				else {
					construct(!(cfg & 1), !(cfg & 2));
					setSync(cfg & 1);
					setExt(cfg & 2);
				}
				if (cfg & 4)
					setIs(true);
				for (int t = '1'; t <= '4'; ++t) {
					char p[1100] = "";
					int n = 0;
					for (int b = 0; b < 256; ++b)
						if (FILTER_filter(t, b))
							n += sprintf(p + n, "%s%d", n ? "," : "", b);
					FILTER_comp.onReset(NULL);
					sim_ev("\"e\":\"bytes\",\"ft\":%d,\"p\":[%s]", t, p);
				}
			}
	} else {
		construct(sim_rand_n(2), sim_rand_n(2));
		rstats();
		for (unsigned k = 5 + sim_rand_n(200); k; --k)
			switch (sim_rand_n(12)) {
			case 0: setSync(sim_rand_n(2)); break;
			case 1: setExt(sim_rand_n(2)); break;
			case 2: setIs(sim_rand_n(4)); break;
			case 3: reset(); break;
			case 4: stats(); break;
			case 5: if (sim_rand_n(4) == 0) rstats(); break;
			case 6: if (sim_rand_n(8) == 0) construct(sim_rand_n(2), sim_rand_n(2)); break;
			default: frame('1' + sim_rand_n(4), sim_rand_n(2) ? 17 * 8 + sim_rand_n(16) : sim_rand() & 255);
			}
		stats();
	}
	sim_done();
}
static unsigned nscen(void)
{
	if (ex("script")) {
		FILE * f = nlines ? NULL : fopen(sim_opt.script, "r");
		char * l = NULL;
		size_t cap = 0;
		while (f && getline(&l, &cap, f) > 0 && nlines < 1 << 14)
			lines[nlines++] = strdup(l);
		return (nlines + 7) / 8;
	}
	return ex("all") ? 1 : 8;
}
static const char * name(unsigned i) { return "filter"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
