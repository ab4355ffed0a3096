/* Driver for the statistics component: counters come from here, the report printed is
 * split into lines, every line into its text and its numbers. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <inttypes.h>
#include <ctype.h>
#include <time.h>
#include "util/statistics.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "core/buffer.h"
#include "core/network.h"
#include "core/filter.h"
#include "sim.h"

extern int vasprintf(char **, const char *, va_list);
static char out[60000];
static size_t outl;
static bool on, big;
#define MINE(f) (on && (f) == stdout)
static int piece(FILE * f, const char * s, size_t n)
{
	sim_yield();
	sim_testcancel();
	if (outl + n < sizeof out) {
		memcpy(out + outl, s, n);
		outl += n;
	}
	sim_yield();
	return (int)n;
}
#include "stdcap.inc"

/* ------------------------------------------------------------------ numbers */
/* as its decimal digits without leading zeros */
static void digits(char * o, const char * d)
{
	while (*d == '0')
		++d;
	*o++ = '[';
	for (bool c = false; *d; c = true, ++d)
		o += sprintf(o, "%s%c", c ? "," : "", *d);
	strcpy(o, "]");
}
static int lines(char * b)
{
	char * p = b, * s = out, * e = out + outl;
	while (s < e) {
		char * nl = memchr(s, '\n', e - s), * le = nl ? nl : e, * q = s;
		char w[4000] = "", v[4000] = "";
		p += sprintf(p, "%s{\"x\":\"", p == b ? "" : ",");
		bool sp = true;
		while (q < le) {
			if (isdigit((unsigned char)*q)) {
				char num[100];
				size_t n = 0;
				unsigned frac = 0, dot = 0;
				while (q < le && n < 90 && (isdigit((unsigned char)*q) || (*q == '.' && !dot && q + 1 < le && isdigit((unsigned char)q[1])))) {
					if (*q == '.')
						dot = 1;
					else
						frac += dot;
					num[n++] = *q++;
				}
				num[n] = 0;
				char d[100];
				size_t k = 0;
				for (size_t i = 0; i < n; ++i)
					if (num[i] != '.')
						d[k++] = num[i];
				d[k] = 0;
				sprintf(w + strlen(w), "%s\"%s\"", *w ? "," : "", num);
				sprintf(v + strlen(v), *v ? "," : "");
				digits(v + strlen(v), d);
				/* a number with two digits behind the point, another with some, or none */
				if (p[-1] == ' ')
					--p;
				p += sprintf(p, "%s", !dot ? "#" : frac == 2 ? "#.##" : "#.?");
				sp = false;
			} else {
				if (*q != ' ' || !sp)
					*p++ = *q == '"' || *q == '\\' || (unsigned char)*q < 32 ? '?' : *q;
				sp = *q == ' ';
				++q;
			}
		}
		p += sprintf(p, "\",\"w\":[%s],\"v\":[%s],\"nl\":%d}", w, v, nl != NULL);
		s = nl ? nl + 1 : e;
	}
	*p = 0;
	return 0;
}

/* ----------------------------------------------------------------- counters */
static struct BUFFER_Statistics B;
static struct NET_Statistics N;
static struct FILTER_Statistics F;
static unsigned slow;
static uint64_t rnd(bool b)
{
	switch (sim_rand_n(b && big ? 6 : 4)) {
	case 0: return 0;
	case 1: return sim_rand_n(10);
	case 2: return sim_rand_n(1000);
	case 3: return sim_rand_n(1000000);
	case 4: return (uint64_t)sim_rand() << 32 | sim_rand();
	default: return 0xffffffffull + sim_rand_n(3) - 1;
	}
}
/* counters as they are after years: below 2^42, so that doubles are exact enough for the decimals printed */
static uint64_t huge;
static uint64_t below(uint64_t n)
{
	return sim_rand_n(3) == 0 ? 0 : ((uint64_t)sim_rand() << 32 | sim_rand()) % n;
}
static void move(void)
{
	uint64_t * b = (uint64_t *)&B;
	for (size_t i = 0; i < sizeof B / 8; ++i)
		if (sim_rand_n(3))
			b[i] = rnd(true);
	if (sim_rand_n(2))
		B.discardedCur = 0;
	B.queueSize = below(huge ? 1ull << 36 : 100000);
	B.poolSize = 1 + below(huge ? 1ull << 36 : 100000);
	N.isOnline = sim_rand_n(2);
	if (sim_rand_n(3)) N.disconnects = rnd(true);
	if (sim_rand_n(3)) N.connectionAttempts = rnd(true);
	/* what rates are computed of */
	uint32_t up = sim_ms() / 1000;
	N.onlineSecs = up ? sim_rand_n(up + 1) : 0;
	N.bytesSent += below(huge ? huge : 100000);
	N.bytesReceived += below(huge ? huge : 1000);
	uint64_t m = huge ? huge : 1 << sim_rand_n(17);
	for (int i = 0; i < 4; ++i)
		F.framesByType[i] += below(m);
	uint64_t left = F.framesByType[1] + F.framesByType[2];
	for (int i = 0; i < 32; ++i)
		left -= F.modeSByType[i];
	for (int k = sim_rand_n(5); k && left; --k) {
		uint64_t x = sim_rand_n(3) ? below(left + 1) : left >> 32 << 32;
		F.modeSByType[sim_rand_n(32)] += x;
		left -= x;
	}
	F.modeSByType[sim_rand_n(32)] += left;
	F.unknown += below(m);
	F.filtered += below(m);
	F.modeSfiltered += below(m);
	F.unsynchronized = rnd(true);
}
static char * arr(const uint64_t * v, int n)
{
	static char bs[3][4000];
	static int cur;
	char * b = bs[++cur % 3], * o = b;
	*o++ = '[';
	for (int i = 0; i < n; ++i) {
		char d[40];
		sprintf(d, "%" PRIu64, v[i]);
		if (i)
			*o++ = ',';
		digits(o, d);
		o += strlen(o);
	}
	strcpy(o, "]");
	return b;
}
static void hold(void)
{
	if (slow && sim_rand_n(3) == 0)
		sim_sleep_ns((uint64_t)sim_rand_n(slow) * NS_PER_MS);
}
void BUFFER_getStatistics(struct BUFFER_Statistics * s)
{
	*s = B;
	uint64_t v[] = { B.queueSize, B.maxQueueSize, B.discardedCur, B.discardedAll, B.discardedMax, B.poolSize, B.dynPools, B.dynPoolsAll,
		B.dynPoolsMax, B.flushes, B.uncollectedPools, B.GCruns };
	sim_ev("\"e\":\"buf\",\"v\":%s,\"over\":%d", arr(v, 12), B.discardedCur != 0);
	hold();
}
void NET_getStatistics(struct NET_Statistics * s)
{
	*s = N;
	uint64_t v[] = { N.onlineSecs, N.disconnects, N.connectionAttempts, N.bytesSent, N.bytesReceived };
	sim_ev("\"e\":\"net\",\"v\":%s,\"online\":%d", arr(v, 5), N.isOnline);
	hold();
}
void FILTER_getStatistics(struct FILTER_Statistics * s)
{
	*s = F;
	uint64_t v[] = { F.framesByType[0], F.framesByType[1], F.framesByType[2], F.framesByType[3], F.unknown, F.filtered, F.modeSfiltered, F.unsynchronized };
	const char * t = arr(F.modeSByType, 32);
	sim_ev("\"e\":\"fil\",\"v\":%s,\"ty\":%s", arr(v, 8), t);
	hold();
}

/* --------------------------------------------------------------------- run */
static void * mainth(void * p)
{
	STAT_comp.main();
	return NULL;
}
static char rep[200000];
static void flush(void)
{
	if (!outl)
		return;
	lines(rep);
	sim_ev("\"e\":\"rep\",\"ls\":[%s]", rep);
	outl = 0;
}
extern void sim_on_sleep(uint64_t ns);
void sim_on_sleep(uint64_t ns)
{
	/* the report is over when the component goes to sleep */
	if (on && ns >= 1000000000ull && outl)
		flush();
}
static void run(unsigned sc)
{
	const struct CFG_Section * c = STAT_comp.config;
	uint32_t * iv = NULL;
	bool * en = NULL;
	for (unsigned i = 0; i < c->n_opt; ++i)
		if (!strcmp(c->options[i].name, "Interval"))
			iv = c->options[i].var;
		else if (!strcmp(c->options[i].name, "Enabled"))
			en = c->options[i].var;
	if (!iv || !en) {
		sim_ev("\"e\":\"fatal\"");
		sim_done();
	}
	big = sim_rand_n(2);
	huge = sim_rand_n(3) ? 0 : 1ull << (28 + sim_rand_n(11));
	slow = sim_rand_n(3) ? 0 : 5000;
	unsigned z = sim_rand_n(5);
	*iv = z == 0 ? 1 : z == 1 ? 600 : z == 2 ? 1 + sim_rand_n(200) : z == 3 ? 3600 * (1 + sim_rand_n(10)) : 2 + sim_rand_n(10);
	*en = true;
	sim_meta("\"iv\":%u", *iv);
	if (sim_rand_n(2))
		sim_sleep_ns((uint64_t)sim_rand_n(5000) * NS_PER_MS);
	time_t now = time(NULL);
	char st[40];
	ctime_r(&now, st);
	outl = sprintf(out, " - started on %s", st);
	lines(rep);
	outl = 0;
	sim_ev("\"e\":\"cons\",\"s\":%u,\"at\":%s", sim_ms() / 1000, rep);
	bool ok = STAT_comp.onConstruct(NULL);
	sim_ev("\"e\":\"consd\",\"r\":%d,\"on\":%d", ok, STAT_comp.start == en);
	on = true;
	for (unsigned life = 1 + sim_rand_n(2); life; --life) {
		if (sim_rand_n(2))
			sim_sleep_ns((uint64_t)sim_rand_n(5000) * NS_PER_MS);
		memset(&B, 0, sizeof B);
		memset(&N, 0, sizeof N);
		memset(&F, 0, sizeof F);
		B.poolSize = 10;
		if (STAT_comp.onReset)
			STAT_comp.onReset();
		if (STAT_comp.onStart)
			STAT_comp.onStart();
		sim_ev("\"e\":\"main\",\"ms\":%u", sim_ms());
		pthread_t t;
		pthread_create(&t, NULL, mainth, NULL);
		for (unsigned k = 1 + sim_rand_n(5); k; --k) {
			if (sim_rand_n(4))
				move();
			uint64_t d = *iv * 1000ull;
			sim_sleep_ns((sim_rand_n(3) == 0 ? d : sim_rand_n(3 * (uint32_t)d > 3000000 ? 3000000 : 3 * (uint32_t)d)) * NS_PER_MS + 3);
			if (sim_rand_n(4) == 0) /* in the middle of a report, perhaps */
				for (int j = sim_rand_n(150); j; --j)
					sim_yield();
		}
		sim_ev("\"e\":\"cancel\",\"ms\":%u", sim_ms());
		pthread_cancel(t);
		pthread_join(t, NULL);
		flush();
		if (STAT_comp.onStop)
			STAT_comp.onStop(NULL);
		sim_ev("\"e\":\"stopped\",\"ms\":%u,\"locked\":%u", sim_ms(), sim_locked_mutexes());
	}
	if (STAT_comp.onDestruct)
		STAT_comp.onDestruct(NULL);
	sim_done();
}
static unsigned nscen(void) { return 8; }
static const char * name(unsigned i) { return "stat"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
