/* Driver for util/component.c: component sets with dependencies, enable and
 * start flags, failing construction and start, components and threads that
 * cannot be stopped at once. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "util/component.h"
#include "util/cfgfile.h"
#include "sim.h"

#define N 6
static unsigned n;
static bool en[N], st[N], thr[N];
static unsigned deps[N];
static int conFail[N], staFail[N], stoFail[N]; /* fail at the k-th call from now; stoFail: number of failures */
static unsigned slow[N];
static char desc[N][700];
static unsigned runs;
static int left; /* components which could not be stopped */
static unsigned living;
static bool isUp[N], lng;
/* callbacks which are missing, config sections */
enum { NOREG = 1, NORES = 2, NOCON = 4, NODES = 8, NOSTA = 16, NOSTO = 32, CFG = 64 };
static unsigned lack[N];
static bool idle_[N]; /* neither main nor start nor stop, or managing itself despite having a main */
static uint32_t opt[N];
static struct CFG_Section * sect[N];
static bool late[N];
#define FOREVER 1000000000u

static void onreg(int i) { sim_ev("\"e\":\"onreg\",\"c\":%d", i + 1); }
static void onres(int i) { sim_ev("\"e\":\"res\",\"c\":%d", i + 1); }
static bool oncon(int i)
{
	bool ok = !(conFail[i] && --conFail[i] == 0);
	sim_ev("\"e\":\"con\",\"c\":%d,\"ok\":%d", i + 1, ok);
	return ok;
}
static void ondes(int i) { sim_ev("\"e\":\"des\",\"c\":%d", i + 1); }
static bool onsta(int i)
{
	bool ok = !(staFail[i] && --staFail[i] == 0);
	sim_ev("\"e\":\"sta\",\"c\":%d,\"ok\":%d", i + 1, ok);
	isUp[i] |= ok && !(lack[i] & NOSTO);
	return ok;
}
static bool onsto(int i, bool d)
{
	bool ok = stoFail[i] == 0;
	if (stoFail[i])
		--stoFail[i];
	sim_ev("\"e\":\"sto\",\"c\":%d,\"d\":%d,\"ok\":%d", i + 1, d, ok);
	isUp[i] = !ok;
	return ok;
}
static void gone(void * p)
{
	int i = (int)(intptr_t)p;
	if (slow[i]) {
		unsigned ms = slow[i];
		slow[i] = 0;
		late[i] = ms == FOREVER;
		sim_block(NULL, NULL, sim_now() + (uint64_t)ms * NS_PER_MS, false);
	}
	--living;
	sim_ev("\"e\":\"gone\",\"c\":%d", i + 1);
}
static void mainf(int i)
{
	sim_ev("\"e\":\"run\",\"c\":%d", i + 1);
	++runs;
	++living;
	pthread_cleanup_push(gone, (void *)(intptr_t)i);
	while (1) {
		sim_block(NULL, NULL, 0, true);
		sim_testcancel();
	}
	pthread_cleanup_pop(1);
}
static bool ran(void * p) { return runs > *(unsigned *)p; }
void sim_on_create(int rc)
{
	if (rc)
		sim_ev("\"e\":\"crf\"");
	else {
		unsigned r = runs;
		sim_block(ran, &r, 0, false);
	}
}
#define C(i) \
	static bool oncon##i() { return oncon(i); } \
	static void ondes##i() { ondes(i); } \
	static bool onsta##i() { return onsta(i); } \
	static bool onsto##i(bool d) { return onsto(i, d); } \
	static void onreg##i() { onreg(i); } \
	static void onres##i() { onres(i); } \
	static void main##i() { mainf(i); }
C(0) C(1) C(2) C(3) C(4) C(5)
/* struct Component has a flexible array of dependencies */
union cu { struct Component c; struct { struct Component c_; const struct Component * d[N + 1]; } x; char pad[sizeof(struct Component) + (N + 2) * sizeof(void *)]; };
static union cu comp[N];

static void setup(void)
{
#define S(i) { struct Component t = { .description = desc[i], .onRegister = lack[i] & NOREG ? NULL : &onreg##i, .onConstruct = lack[i] & NOCON ? NULL : &oncon##i, \
	.onDestruct = lack[i] & NODES ? NULL : (void *)&ondes##i, .onReset = lack[i] & NORES ? NULL : &onres##i, \
	.config = lack[i] & CFG ? sect[i] : NULL, .enabled = !en[i] ? &en[i] : sim_rand_n(2) ? &en[i] : NULL, \
	.start = !st[i] ? &st[i] : sim_rand_n(2) ? &st[i] : NULL, \
	.main = thr[i] || idle_[i] ? &main##i : NULL, .onStart = thr[i] || lack[i] & NOSTA ? NULL : &onsta##i, \
	.onStop = thr[i] || lack[i] & NOSTO ? NULL : &onsto##i }; \
	memcpy(&comp[i], &t, sizeof t); \
	const struct Component ** d = (const struct Component **)((struct Component *)&comp[i])->dependencies; \
	unsigned k = 0; \
	for (unsigned j = 0; j < n; ++j) \
		if (deps[i] & (1u << j)) \
			d[k++] = (struct Component *)&comp[j]; \
	d[k] = NULL; }
	S(0) S(1) S(2) S(3) S(4) S(5)
}

static bool op(const char * o)
{
	bool ok = true;
	sim_ev("\"e\":\"call\",\"op\":\"%s\"", o);
	switch (o[0] == 's' ? o[2] : o[0]) {
	case 'f': COMP_fixup(); break;
	case 'i': ok = COMP_initAll(); break;
	case 'a': ok = COMP_startAll(); break;
	case 'o': COMP_stopAll(); break;
	case 'd': COMP_destructAll(); break;
	case 'r': COMP_resetAll(); break;
	case 'u': COMP_unregisterAll(); break;
	}
	sim_ev("\"e\":\"ret\",\"op\":\"%s\",\"ok\":%d", o, ok);
	return ok;
}
/* returns false if there is a thread which never ends */
static bool stopAllThere(void)
{
	for (int k = 0; k < 30; ++k) {
		op("stop");
		for (unsigned i = 0; i < n; ++i)
			if (late[i])
				return false;
		bool up = false;
		for (unsigned i = 0; i < n; ++i)
			up |= isUp[i];
		if (!up && !living)
			break;
		sim_sleep_ns(300 * NS_PER_MS);
	}
	/* threads which ended late have to be collected */
	op("stop");
	return true;
}
static void faults(void)
{
	for (unsigned i = 0; i < n; ++i) {
		conFail[i] = sim_rand_n(8) ? 0 : 1 + sim_rand_n(2);
		staFail[i] = sim_rand_n(8) ? 0 : 1 + sim_rand_n(2);
		stoFail[i] = sim_rand_n(lng ? 2 : 4) ? 0 : 1 + sim_rand_n(lng ? 9 : 4);
		slow[i] = sim_rand_n(4) ? 0 : sim_rand_n(12) ? 300 + sim_rand_n(4000) : FOREVER;
	}
	sim_create_fail = sim_rand_n(4) ? 0 : 1 + sim_rand_n(3);
}
static bool lives(void)
{
	for (unsigned r = 1 + sim_rand_n(3); r; --r) {
		faults();
		if (sim_rand_n(3) == 0)
			op("reset");
		if (!op("init"))
			continue;
		for (unsigned k = sim_rand_n(4); k; --k) {
			op("start");
			if (sim_rand_n(3) == 0)
				faults();
			if (sim_rand_n(2))
				sim_sleep_ns(sim_rand_n(900) * NS_PER_MS + 1);
			if (sim_rand_n(4))
				op("stop");
			else if (!stopAllThere())
				return false;
		}
		if (!stopAllThere())
			return false;
		op("destruct");
	}
	sim_create_fail = 0;
	return true;
}
static bool dag;
static bool enumer(void) { return sim_opt.extra && strstr(sim_opt.extra, "enum"); }
static void run(unsigned i)
{
	sim_thread_events = true;
	/* every dependency relation on three components, every set of enabled ones */
	bool all = enumer();
	n = all ? 3 : 1 + sim_rand_n(N);
	dag = sim_rand_n(8) != 0;
	unsigned dens = sim_rand_n(4), perm[N];
	for (unsigned k = 0; k < N; ++k)
		perm[k] = k;
	for (unsigned k = n - 1; k > 0; --k) {
		unsigned j = sim_rand_n(k + 1), t = perm[k];
		perm[k] = perm[j];
		perm[j] = t;
	}
	bool allEn = sim_rand_n(3) != 0;
	lng = sim_rand_n(6) == 0;
	bool sparse = sim_rand_n(3) == 0;
	char dj[200] = "", ej[60] = "", sj[60] = "", tj[60] = "", lj[100] = "";
	for (unsigned k = 0; k < N; ++k) {
		en[k] = allEn || sim_rand_n(4);
		st[k] = sim_rand_n(5) != 0;
		thr[k] = sim_rand_n(3) == 0;
		lack[k] = sparse ? sim_rand() & sim_rand() & 63 : 0;
		if (sim_rand_n(3) == 0)
			lack[k] |= CFG;
		idle_[k] = !(lack[k] & (NOSTA | NOSTO)) && sim_rand_n(3) == 0;
		struct CFG_Option o = { .name = "opt", .type = CFG_VALUE_TYPE_INT, .var = &opt[k], .def = { .integer = 100 + k } };
		sect[k] = calloc(1, sizeof *sect[k] + sizeof o);
		struct CFG_Section cs = { .name = k % 2 ? "odd" : desc[k], .n_opt = 1 };
		memcpy(sect[k], &cs, sizeof cs);
		memcpy((void *)sect[k]->options, &o, sizeof o);
		if (lng) {
			memset(desc[k], 'A' + k, sizeof desc[k] - 1);
			desc[k][1 + sim_rand_n(sizeof desc[k] - 2)] = 0;
		} else
			sprintf(desc[k], "C%u", k);
	}
	for (unsigned a = 0; a < n; ++a)
		for (unsigned b = 0; b < n; ++b)
			if (a != b && (!dag || a < b) && sim_rand_n(4) <= dens && sim_rand_n(2))
				deps[perm[b]] |= 1u << perm[a];
	if (all)
		for (unsigned k = 0; k < 3; ++k) {
			unsigned two = i >> (2 * k) & 3;
			deps[k] = (two & 1) << (k + 1) % 3 | (two >> 1) << (k + 2) % 3;
			en[k] = i >> (6 + k) & 1;
			st[k] = true;
		}
	for (unsigned k = 0; k < n; ++k) {
		char * e = dj + strlen(dj);
		sprintf(e, "%s[", k ? "," : "");
		bool f = true;
		for (unsigned j = 0; j < n; ++j)
			if (deps[k] & (1u << j)) {
				sprintf(e + strlen(e), "%s%u", f ? "" : ",", j + 1);
				f = false;
			}
		strcat(e, "]");
		sprintf(ej + strlen(ej), "%s%d", k ? "," : "", en[k]);
		sprintf(sj + strlen(sj), "%s%d", k ? "," : "", st[k]);
		sprintf(tj + strlen(tj), "%s%d", k ? "," : "", thr[k]);
		sprintf(lj + strlen(lj), "%s%u", k ? "," : "", lack[k]);
	}
	sim_meta("\"n\":%u,\"deps\":[%s],\"en\":[%s],\"st\":[%s],\"thr\":[%s],\"lack\":[%s]", n, dj, ej, sj, tj, lj);
	setup();
	COMP_setSilent(sim_rand_n(2));
	for (unsigned c = 1 + sim_rand_n(2); c; --c) {
		unsigned roots = 1 + sim_rand_n(n), done = 0;
		for (unsigned k = 0; k < roots; ++k) {
			unsigned j = sim_rand_n(n);
			while (done & (1u << j))
				j = (j + 1) % n;
			done |= 1u << j;
			sim_ev("\"e\":\"register\",\"c\":%u", j + 1);
			COMP_register((struct Component *)&comp[j]);
			sim_ev("\"e\":\"ret\",\"op\":\"register\",\"ok\":1");
		}
		op("fixup");
		memset(opt, 0, sizeof opt);
		CFG_loadDefaults();
		char cj[60] = "";
		for (unsigned k = 0; k < n; ++k)
			sprintf(cj + strlen(cj), "%s%d", k ? "," : "", opt[k] == 100 + k);
		sim_ev("\"e\":\"opts\",\"x\":[%s]", cj);
		if (!lives())
			break;
		if (sim_rand_n(2)) {
			op("unregister");
			CFG_unregisterAll();
		} else
			break;
	}
	sim_ev("\"e\":\"end\",\"live\":%u", sim_live_threads());
	sim_done();
}
static unsigned nscen(void) { return enumer() ? 512 : 8; }
static const char * name(unsigned i) { return "comp"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
