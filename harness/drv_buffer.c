/* Driver for src/core/buffer.c: sequential histories (mode "seq") with full
 * statistics, and concurrent histories (mode "conc"). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "core/buffer.h"
#include "util/component.h"
#include "util/cfgfile.h"
#include "sim.h"

/* ---------------------------------------------- allocation accounting --- */
struct al { char * p; size_t n; int id; bool live; bool pool; };
#define MAXA 4096
static struct al A[MAXA];
static int nA, nPoolIds;
static bool track;
static int mfSeen;
static unsigned live;

void sim_on_malloc(void * p, size_t n)
{
	if (!track)
		return;
	if (!p)
		return;
	if (nA < MAXA)
		A[nA++] = (struct al){ p, n, 0, true, false };
	++live;
}
void sim_on_free(void * p)
{
	if (!track)
		return;
	for (int i = nA - 1; i >= 0; --i)
		if (A[i].live && A[i].p == p) {
			A[i].live = false;
			--live;
			/* keep the memory allocated by the allocator from being reused
			 * is not needed: allocations are identified by event order */
			return;
		}
	sim_ev("\"e\":\"badfree\"");
}

/* pool id (0 = first pool seen = static) and storage number of a frame */
static int staticId = -1;
static void ident(const void * fr, int * p, int * s)
{
	static struct { const void * fr; int al; } slots[8192];
	static int ns;
	*p = -1;
	*s = -1;
	for (int i = nA - 1; i >= 0; --i)
		if (A[i].live && (char *)fr >= A[i].p && (char *)fr + sizeof(struct OPENSKY_RawFrame) <= A[i].p + A[i].n) {
			if (!A[i].pool) {
				A[i].pool = true;
				A[i].id = nPoolIds++;
			}
			*p = A[i].id;
			for (int k = 0; k < ns; ++k)
				if (slots[k].fr == fr && slots[k].al == i) {
					*s = k;
					return;
				}
			if (ns < 8192) {
				slots[ns].fr = fr;
				slots[ns].al = i;
				*s = ns++;
			}
			return;
		}
	(void)staticId;
}

/* ----------------------------------------------------- frame contents --- */
static void fill(struct OPENSKY_RawFrame * f, uint32_t v)
{
	f->rawLen = 8 + v % (sizeof f->raw - 8 + 1);
	memcpy(f->raw, &v, 4);
	for (size_t i = 4; i < f->rawLen; ++i)
		f->raw[i] = (uint8_t)(v * 31 + i * 7);
}
static int readv(const struct OPENSKY_RawFrame * f)
{
	uint32_t v;
	memcpy(&v, f->raw, 4);
	if (f->rawLen != 8 + v % (sizeof f->raw - 8 + 1))
		return -1;
	for (size_t i = 4; i < f->rawLen; ++i)
		if (f->raw[i] != (uint8_t)(v * 31 + i * 7))
			return -2;
	return (int)v;
}

/* ------------------------------------------------------------- config --- */
static unsigned cStat, cDyn, cInc, cGcl, cGci;
static bool cHist, cGC;

static void setupBuf(void)
{
	COMP_register(&BUF_comp);
	COMP_fixup();
	COMP_setSilent(true);
	CFG_loadDefaults();
	if (cStat < 2 || !cDyn || !cGcl || sim_rand_n(4) == 0) {
		/* through a configuration file, which also corrects the values */
		char fn[40];
		snprintf(fn, sizeof fn, "buf-%d.conf", (int)getpid());
		FILE * f = fopen(fn, "w");
		fprintf(f, "[BUFFER]\nGC = %d\nGCInterval = %u\nGCLevel = %u\nHistory = %d\n"
			"StaticBacklog = %u\nDynamicBacklog = %u\nDynamicIncrements = %u\n",
			cGC, cGci, cGcl, cHist, cStat, cDyn, cInc);
		fclose(f);
		bool ok = CFG_readFile(fn, true, true, false);
		unlink(fn);
		if (!ok)
			sim_ev("\"e\":\"cfgfailed\"");
	} else {
		CFG_setBoolean("BUFFER", "GC", cGC);
		CFG_setInteger("BUFFER", "GCInterval", cGci);
		CFG_setInteger("BUFFER", "GCLevel", cGcl);
		CFG_setBoolean("BUFFER", "History", cHist);
		CFG_setInteger("BUFFER", "StaticBacklog", cStat);
		CFG_setInteger("BUFFER", "DynamicBacklog", cDyn);
		CFG_setInteger("BUFFER", "DynamicIncrements", cInc);
	}
	CFG_check();
	sim_meta("\"cstat\":%u,\"cdyn\":%u,\"cinc\":%u,\"gcl\":%u,\"gci\":%u,\"hist\":%d,\"gc\":%d",
		cStat, cDyn, cInc, cGcl, cGci, cHist, cGC);
	track = true;
	bool ok = COMP_initAll();
	sim_ev("\"e\":\"init\",\"ok\":%d,\"live\":%u", ok, live);
	if (!ok)
		sim_done();
	COMP_resetAll();
	/* the static pool is the one allocation that exists now */
	size_t big = 0;
	int bi = -1;
	for (int i = 0; i < nA; ++i)
		if (A[i].live && A[i].n > big) {
			big = A[i].n;
			bi = i;
		}
	if (bi >= 0) {
		A[bi].pool = true;
		A[bi].id = nPoolIds++;
	} else
		++nPoolIds;
}

static const char * stats(void)
{
	static char buf[400];
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
	snprintf(buf, sizeof buf, "\"st\":[%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u]",
		(unsigned)s.queueSize, (unsigned)s.maxQueueSize, (unsigned)s.discardedCur,
		(unsigned)s.discardedAll, (unsigned)s.discardedMax, (unsigned)s.poolSize,
		(unsigned)s.dynPools, (unsigned)s.dynPoolsAll, (unsigned)s.dynPoolsMax,
		(unsigned)s.uncollectedPools, (unsigned)s.flushes, (unsigned)s.GCruns);
	return buf;
}

static struct OPENSKY_RawFrame * nw;
static const struct OPENSKY_RawFrame * cur;
static uint32_t v;
static unsigned qlen; /* driver's idea of the queue, to respect preconditions */

static void doNew(int failAlloc)
{
	if (nw)
		return;
	sim_malloc_fail_at = failAlloc;
	nw = BUF_newFrame();
	int mf = failAlloc && !sim_malloc_fail_at;
	sim_malloc_fail_at = 0;
	int p, s;
	ident(nw, &p, &s);
	sim_ev("\"e\":\"new\",\"p\":%d,\"s\":%d,\"mf\":%d,\"live\":%u,%s", p, s, mf, live, stats());
}
static void doCommit(void)
{
	if (!nw)
		return;
	fill(nw, ++v);
	BUF_commitFrame(nw);
	nw = NULL;
	sim_ev("\"e\":\"commit\",\"v\":%u,\"live\":%u,%s", v, live, stats());
}
static void doAbort(void)
{
	if (!nw)
		return;
	BUF_abortFrame(nw);
	nw = NULL;
	sim_ev("\"e\":\"abort\",\"live\":%u,%s", live, stats());
}
static void logGet(const char * e, unsigned to, uint64_t t0)
{
	int p = -1, s = -1, val = -1;
	unsigned el = (sim_now() - t0) / NS_PER_MS;
	sim_quiesce(); /* let a collector run due at the same instant finish */
	if (cur) {
		ident(cur, &p, &s);
		val = readv(cur);
	}
	sim_ev("\"e\":\"%s\",\"ok\":%d,\"p\":%d,\"s\":%d,\"v\":%d,\"to\":%u,\"el\":%u,\"live\":%u,%s", e, cur != NULL,
		p, s, val, to, el, live, stats());
}
static void doGet(void)
{
	struct BUFFER_Statistics st;
	BUFFER_getStatistics(&st);
	if (cur || !st.queueSize)
		return;
	uint64_t t0 = sim_now();
	cur = BUF_getFrame();
	logGet("get", 0, t0);
}
/* a time-out at the end of a second */
static unsigned edge(unsigned to)
{
	uint64_t f = sim_now() % 1000000000ull;
	return f && f % NS_PER_MS == 0 ? 1000 - f / NS_PER_MS : to;
}
static void doGetTo(unsigned to)
{
	if (cur)
		return;
	uint64_t t0 = sim_now();
	cur = BUF_getFrameTimeout(to);
	logGet("getto", to, t0);
}
static void doRelease(void)
{
	if (!cur)
		return;
	BUF_releaseFrame(cur);
	cur = NULL;
	sim_ev("\"e\":\"release\",\"live\":%u,%s", live, stats());
}
static void doPut(void)
{
	if (!cur)
		return;
	BUF_putFrame(cur);
	cur = NULL;
	sim_ev("\"e\":\"put\",\"live\":%u,%s", live, stats());
}
static void doFlush(void)
{
	BUF_flush();
	sim_ev("\"e\":\"flush\",\"live\":%u,%s", live, stats());
}
static void doFlushU(void)
{
	BUF_flushUnlessHistoryEnabled();
	sim_ev("\"e\":\"flushu\",\"live\":%u,%s", live, stats());
}
static void doGc(void)
{
	BUF_runGC();
	sim_ev("\"e\":\"gc\",\"live\":%u,%s", live, stats());
}
static void doWait(unsigned ms)
{
	sim_sleep_ns(ms * NS_PER_MS);
	sim_quiesce();
	sim_ev("\"e\":\"wait\",\"live\":%u,%s", live, stats());
}
static void doReset(void)
{
	COMP_resetAll();
	sim_ev("\"e\":\"reset\",\"live\":%u,%s", live, stats());
}

static void finishSeq(void)
{
	COMP_stopAll();
	sim_ev("\"e\":\"stop\",\"locks\":%u,%s", sim_locked_mutexes(), stats());
	COMP_destructAll();
	sim_ev("\"e\":\"destruct\",\"live\":%u", live);
}

/* ---- scripts: "stat dyn inc hist gcl|op op op ..." one per line -------- */
static char ** lines;
static unsigned nLines;
static void loadScript(const char * f)
{
	FILE * in = fopen(f, "r");
	char * l = NULL;
	size_t n = 0;
	if (!in)
		return;
	while (getline(&l, &n, in) > 0) {
		lines = realloc(lines, (nLines + 1) * sizeof *lines);
		l[strcspn(l, "\n")] = 0;
		lines[nLines++] = strdup(l);
	}
}

static void runScript(unsigned i)
{
	char * l = lines[i];
	unsigned h;
	sscanf(l, "%u %u %u %u %u", &cStat, &cDyn, &cInc, &h, &cGcl);
	cHist = h;
	cGC = false;
	cGci = 120;
	setupBuf();
	char * save, * p = strtok_r(strchr(l, '|') + 1, " ", &save);
	for (; p; p = strtok_r(NULL, " ", &save)) {
		if (!strcmp(p, "new")) doNew(0);
		else if (!strcmp(p, "newmf")) doNew(1 + sim_rand_n(2));
		else if (!strcmp(p, "commit")) doCommit();
		else if (!strcmp(p, "abort")) doAbort();
		else if (!strcmp(p, "get")) doGet();
		else if (!strcmp(p, "getto")) doGetTo(5);
		else if (!strcmp(p, "release")) doRelease();
		else if (!strcmp(p, "put")) doPut();
		else if (!strcmp(p, "flush")) doFlush();
		else if (!strcmp(p, "gc")) doGc();
	}
	finishSeq();
}

/* ---- random sequential histories --------------------------------------- */
static void runSeq(unsigned i)
{
	static const unsigned stv[] = { 2, 3, 5, 10, 1, 0 };
	static const unsigned dynv[] = { 1, 2, 3, 7, 50, 0 };
	static const unsigned incv[] = { 0, 1, 2, 3, 6 };
	cStat = stv[sim_rand_n(10) % 6];
	cDyn = dynv[sim_rand_n(11) % 6];
	cInc = incv[sim_rand_n(5)];
	cHist = sim_rand_n(4) != 0;
	cGcl = 1 + sim_rand_n(4);
	if (sim_rand_n(16) == 0)
		cGcl = 0;
	cGci = 1 + sim_rand_n(3);
	cGC = i % 2;
	setupBuf();
	bool st = COMP_startAll();
	sim_ev("\"e\":\"start\",\"ok\":%d,%s", st, stats());
	sim_quiesce();
	unsigned nOps = 40 + sim_rand_n(160);
	/* phase-wise weights, so that the buffer fills and drains */
	unsigned wp = 5, wc = 5;
	for (unsigned k = 0; k < nOps; ++k) {
		if (k % 20 == 0) {
			wp = 1 + sim_rand_n(12);
			wc = 1 + sim_rand_n(12);
		}
		unsigned r = sim_rand_n(wp + wc + 3);
		if (r < wp) {
			if (!nw)
				doNew(sim_rand_n(6) == 0 ? 1 + sim_rand_n(3) : 0);
			else if (sim_rand_n(6))
				doCommit();
			else
				doAbort();
		} else if (r < wp + wc) {
			if (!cur) {
				if (sim_rand_n(3))
					doGet();
				else
					doGetTo(sim_rand_n(4) == 0 ? edge(5) : sim_rand_n(2) * (1 + sim_rand_n(3000)));
			} else if (sim_rand_n(4))
				doRelease();
			else
				doPut();
		} else
			switch (sim_rand_n(12)) {
			case 0: doFlush(); break;
			case 1: doFlushU(); break;
			case 2: case 3: case 4: case 5: doGc(); break;
			case 6: doReset(); break;
			default: doWait(300 + sim_rand_n(2500)); break;
			}
	}
	finishSeq();
	if (sim_rand_n(4) == 0) {
		/* reinitialise: a fresh buffer */
		nw = NULL;
		cur = NULL;
		bool ok = COMP_initAll();
		sim_ev("\"e\":\"reinit\",\"ok\":%d,\"live\":%u,%s", ok, live, stats());
		COMP_destructAll();
		sim_ev("\"e\":\"destruct\",\"live\":%u", live);
	}
}

/* ---- concurrent histories ---------------------------------------------- */
static unsigned opsP, opsC, opsG;
static bool conDone;

static void inv(const char * op, int a) { sim_ev("\"e\":\"inv\",\"op\":\"%s\",\"a\":%d", op, a); }
static void retv(const char * op, const void * fr, int val)
{
	int p = -1, s = -1;
	if (fr)
		ident(fr, &p, &s);
	sim_ev("\"e\":\"ret\",\"op\":\"%s\",\"ok\":%d,\"p\":%d,\"s\":%d,\"v\":%d", op, fr != NULL, p, s, val);
}

static uint32_t prng[8];
static unsigned pr(int k, unsigned n)
{
	prng[k] = prng[k] * 1664525u + 1013904223u;
	return (prng[k] >> 10) % n;
}

static void producer(void * x)
{
	for (unsigned i = 0; i < opsP; ++i) {
		inv("new", 0);
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		retv("new", f, 0);
		if (pr(0, 5)) {
			uint32_t val = ++v;
			fill(f, val);
			inv("commit", val);
			BUF_commitFrame(f);
			retv("commit", NULL, 0);
		} else {
			inv("abort", 0);
			BUF_abortFrame(f);
			retv("abort", NULL, 0);
		}
		if (pr(0, 4) == 0)
			sim_sleep_ns(pr(0, 4) * 10 * NS_PER_MS + (pr(0, 8) == 0));
	}
}

static bool lateCheck; /* re-read frame contents just before giving it back */
static void consumerBody(unsigned ops)
{
	for (unsigned i = 0; i < ops; ++i) {
		const struct OPENSKY_RawFrame * f;
		if (pr(1, 4) == 0 || conDone) {
			unsigned to = pr(1, 3) * 10 + pr(1, 2) * 980;
			if (pr(1, 2) == 0)
				to = edge(to);
			inv("getto", to);
			f = BUF_getFrameTimeout(to);
			retv("getto", f, f ? readv(f) : 0);
		} else {
			inv("get", 0);
			f = BUF_getFrame();
			retv("get", f, readv(f));
		}
		if (!f)
			continue;
		if (lateCheck)
			sim_yield();
		int again = readv(f);
		if (pr(1, 3)) {
			inv("release", again);
			BUF_releaseFrame(f);
			retv("release", NULL, 0);
		} else {
			inv("put", again);
			BUF_putFrame(f);
			retv("put", NULL, 0);
		}
		if (pr(1, 5) == 0)
			sim_sleep_ns(pr(1, 4) * 10 * NS_PER_MS);
	}
}
static void consumer(void * x) { consumerBody(opsC); }

static void gcThread(void * x)
{
	for (unsigned i = 0; i < opsG; ++i) {
		if (pr(2, 3) == 0)
			sim_sleep_ns(pr(2, 4) * 10 * NS_PER_MS + 1);
		switch (pr(2, 6)) {
		case 0:
			inv("flush", 0);
			BUF_flush();
			retv("flush", NULL, 0);
			break;
		case 1:
			inv("flushu", 0);
			BUF_flushUnlessHistoryEnabled();
			retv("flushu", NULL, 0);
			break;
		case 2: {
			struct BUFFER_Statistics st;
			inv("stat", 0);
			BUFFER_getStatistics(&st);
			sim_ev("\"e\":\"ret\",\"op\":\"stat\",\"ok\":0,\"p\":-1,\"s\":-1,\"v\":%u", (unsigned)st.queueSize);
			break; }
		default:
			inv("gc", 0);
			BUF_runGC();
			retv("gc", NULL, 0);
		}
	}
}

/* consumer thread to be cancelled, with a relay-like cleanup handler */
static void putBack(void * p)
{
	const struct OPENSKY_RawFrame * volatile * f = p;
	if (*f) {
		inv("put", readv(*f));
		BUF_putFrame(*f);
		retv("put", NULL, 0);
	}
}
static void cancelable(void * x)
{
	static const struct OPENSKY_RawFrame * volatile f = NULL;
	pthread_cleanup_push(putBack, (void *)&f);
	for (unsigned i = 0; i < opsC; ++i) {
		if (pr(1, 2)) {
			unsigned to = 10 + pr(1, 50);
			inv("getto", to);
			f = BUF_getFrameTimeout(to);
			retv("getto", f, f ? readv(f) : 0);
		} else {
			inv("get", 0);
			f = BUF_getFrame();
			retv("get", f, readv(f));
		}
		pthread_testcancel();
		if (f) {
			inv("release", readv(f));
			BUF_releaseFrame(f);
			f = NULL;
			retv("release", NULL, 0);
		}
	}
	while (1) {
		inv("get", 0);
		f = BUF_getFrame();
		retv("get", f, readv(f));
		inv("release", readv(f));
		BUF_releaseFrame(f);
		f = NULL;
		retv("release", NULL, 0);
	}
	pthread_cleanup_pop(0);
}

static unsigned fed;
static int waitFor[4];
static void runConc(unsigned i)
{
	unsigned r = sim_rand();
	for (int k = 0; k < 8; ++k)
		prng[k] = sim_rand();
	cStat = 2 + (r & 1);
	cHist = (r >> 1) & 1;
	cDyn = 1 + ((r >> 2) & 1);
	cInc = 1 + ((r >> 3) & 1);
	cGcl = 1;
	cGci = 1;
	cGC = false;
	bool cancel = i % 3 == 2;
	lateCheck = true;
	sim_p_switch = 50 + sim_rand_n(500);
	sim_spurious = sim_rand_n(3) == 0;
	sim_time_choice = sim_rand_n(4) == 0;
	bool dfs = sim_opt.extra && strstr(sim_opt.extra, "dfs");
	if (dfs) {
		sim_time_choice = i % 4 == 3;
		sim_spurious = false;
	}
	opsP = dfs ? 2 + i % 2 : 3 + sim_rand_n(6);
	opsC = dfs ? 2 : 3 + sim_rand_n(6);
	opsG = dfs ? 1 + i % 2 : 1 + sim_rand_n(4);
	sim_meta("\"conc\":1,\"tc\":%d", sim_time_choice);
	setupBuf();
	sim_mem_points = sim_opt.extra && strstr(sim_opt.extra, "mem");
	int tc = sim_spawn(cancel ? cancelable : consumer, NULL, "cons");
	int tp = sim_spawn(producer, NULL, "prod");
	int tg = sim_spawn(gcThread, NULL, "gc");
	if (cancel) {
		if (sim_rand_n(2))
			sim_sleep_ns(sim_rand_n(60) * NS_PER_MS + 1);
		else
			for (unsigned k = sim_rand_n(40); k; --k)
				sim_yield();
		if (!sim_dead(tc)) {
			sim_ev("\"e\":\"cancel\",\"th\":%d", tc);
			sim_cancel(tc);
		}
		while (!sim_dead(tc) || !sim_dead(tp) || !sim_dead(tg))
			sim_sleep_ns(NS_PER_MS);
		sim_ev("\"e\":\"gone\",\"th\":%d", tc);
	} else {
		/* producer and collector finish; then feed the consumer */
		while (!sim_dead(tp) || !sim_dead(tg))
			sim_sleep_ns(NS_PER_MS);
		conDone = true;
		while (!sim_dead(tc)) {
			sim_sleep_ns(NS_PER_MS);
			if (sim_blocked(tc) && ++fed % 5 == 0) {
				inv("new", 0);
				struct OPENSKY_RawFrame * f = BUF_newFrame();
				retv("new", f, 0);
				uint32_t val = ++v;
				fill(f, val);
				inv("commit", val);
				BUF_commitFrame(f);
				retv("commit", NULL, 0);
			}
		}
	}
	/* drain from the main thread */
	sim_mem_points = false;
	sim_p_switch = 0;
	while (1) {
		inv("getto", 0);
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		retv("getto", f, f ? readv(f) : 0);
		if (!f)
			break;
		inv("release", readv(f));
		BUF_releaseFrame(f);
		retv("release", NULL, 0);
	}
	sim_ev("\"e\":\"end\",\"locks\":%u,%s", sim_locked_mutexes(), stats());
	(void)waitFor;
}

static const char * mode;
static unsigned nscen(void)
{
	mode = sim_opt.extra ? sim_opt.extra : "seq";
	if (sim_opt.script) {
		loadScript(sim_opt.script);
		return nLines;
	}
	return strstr(mode, "conc") ? 12 : 2;
}
static void run(unsigned i)
{
	if (sim_opt.script)
		runScript(i);
	else if (strstr(mode, "conc"))
		runConc(i);
	else
		runSeq(i);
	sim_done();
}
static const char * name(unsigned i) { return sim_opt.script ? "script" : mode; }

int main(int argc, char ** argv)
{
	return sim_main(argc, argv, nscen, run, name);
}
