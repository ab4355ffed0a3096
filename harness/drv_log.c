/* Driver for the logs: util/log_stdio.c or (LIB) the libraries' log_lib.cc */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include "util/log.h"
#include "sim.h"

#define MAXO 100000
static char out[2][MAXO]; /* what has been printed */
static size_t outl[2], done[2]; /* and what of it has reached the kernel */
static bool on;
#ifndef LIB
extern int vasprintf(char **, const char *, va_list);
#endif
#ifdef __cplusplus
extern "C" {
#endif
void log_piece(int k, const char * s, size_t n)
{
	sim_yield();
	sim_testcancel();
	errno = 11 + (int)n % 3;
	if (outl[k] + n < MAXO) {
		memcpy(out[k] + outl[k], s, n);
		outl[k] += n;
	}
	sim_yield();
}
void log_sync(int k) { sim_yield(); errno = 12; done[k] = outl[k]; sim_testcancel(); }
static int piece(FILE * f, const char * s, size_t n) { log_piece(0, s, n); return (int)n; }

/* ------------------------------------------------------------------- stdio */
#ifndef LIB
#define MINE(f) (on && (f) == stdout)
#include "stdcap.inc"
extern int __real_fflush(FILE *);
int __wrap_fflush(FILE * f)
{
	if (!on || (f && f != stdout))
		return __real_fflush(f);
	log_sync(0);
	return 0;
}
void log_init(void) {}
#else
void log_init(void);
#endif
static void outs(const char * e)
{
	static char b[8 * MAXO];
	int k = sprintf(b, "[");
	for (int i = 0; i < 2; ++i) {
		k += sprintf(b + k, "%s[", i ? "," : "");
		for (size_t j = 0; j < done[i]; ++j)
			k += sprintf(b + k, "%s%u", j ? "," : "", (unsigned char)out[i][j]);
		k += sprintf(b + k, "]");
	}
	sprintf(b + k, "]");
	sim_ev("\"e\":\"%s\",\"out\":%s,\"locked\":%u", e, b, sim_locked_mutexes());
}
static bool emerg;
extern void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void)
{
	if (!on || !emerg)
		__real_abort();
	on = false;
	outs("abort");
	sim_done();
}
#ifdef __cplusplus
}
#endif

/* --------------------------------------------------------------------- run */

static unsigned plv;
static void one(unsigned i)
{
	static const char * const pf[] = { "NET", "A", "a long component name %s", NULL };
	static const int errs[] = { EINTR, ENOENT, ECONNREFUSED, 0, 9999, -1, ENOSPC };
	char txt[6000];
	const char * pfx = pf[sim_rand_n(4)];
	unsigned lv = sim_rand_n(1000) < plv ? LOG_LEVEL_EMERG : sim_rand_n(4), kind = sim_rand_n(5);
	size_t n = sim_rand_n(12) ? sim_rand_n(12) : sim_rand_n(6) ? sim_rand_n(300) : 2000 + sim_rand_n(sim_rand_n(2) ? 60 : 2500);
	for (size_t k = 0; k < n; ++k)
		txt[k] = sim_rand_n(8) ? 'a' + (k + i) % 26 : "%s []:\n"[sim_rand_n(7)];
	txt[n] = 0;
	int err = errs[sim_rand_n(7)];
	char eb[200];
	const char * es = strerror(err);
	snprintf(eb, sizeof eb, "%s", es);
	char * a = (char *)malloc(60000), * b = (char *)malloc(2000);
	int k = sprintf(a, "[");
	for (size_t j = 0; j < n; ++j)
		k += sprintf(a + k, "%s%u", j ? "," : "", (unsigned char)txt[j]);
	strcpy(a + k, "]");
	sprintf(b, "%s", sim_bytes(eb, strlen(eb)));
	sim_ev("\"e\":\"log\",\"lv\":%u,\"nopfx\":%d,\"pfx\":%s,\"txt\":%s,\"fm\":%d,\"iserr\":%d,\"err\":%d,\"known\":%d,\"str\":%s", lv, !pfx,
		sim_bytes(pfx ? pfx : "", pfx ? strlen(pfx) : 0), a, kind != 0, kind >= 2, err, err >= 0 && err < 130, b);
	free(a);
	free(b);
	if (lv == LOG_LEVEL_EMERG)
		emerg = true;
	enum LOG_LEVEL L = (enum LOG_LEVEL)lv;
	size_t h = n / 2;
	switch (kind) {
	case 0: LOG_log(L, pfx, txt); break;
	case 1: LOG_logf(L, pfx, "%.*s%s", (int)h, txt, txt + h); break;
	case 2: errno = err; LOG_errno(L, pfx, "%.*s%s", (int)h, txt, txt + h); break;
	case 3: errno = err + 1; LOG_errno2(L, err, pfx, "%.*s%s", (int)h, txt, txt + h); break;
	case 4: errno = err; LOG_errnet(L, pfx, "%.*s%s", (int)h, txt, txt + h); break;
	}
	sim_ev("\"e\":\"logd\"");
	if (sim_rand_n(10) == 0)
		LOG_flush();
}
static void * worker(void * a)
{
	for (unsigned n = 1 + sim_rand_n(4); n; --n) {
		one(n);
		if (sim_rand_n(4) == 0)
			sim_sleep_ns(1000000);
	}
	return NULL;
}
static void run(unsigned sc)
{
	sim_mem_points = sim_opt.extra && strstr(sim_opt.extra, "mem");
#ifdef LIB
	sim_meta("\"lib\":1");
#else
	sim_meta("\"lib\":0");
#endif
	log_init();
	on = true;
	plv = sim_rand_n(3) ? 0 : 150;
	pthread_t pt[4];
	int n = 1 + sim_rand_n(3);
	for (int i = 0; i < n; ++i)
		pthread_create(&pt[i], NULL, worker, NULL);
	for (int i = 0; i < n; ++i)
		if (sim_rand_n(3) == 0) {
			for (int j = sim_rand_n(30); j; --j)
				sim_yield();
			sim_ev("\"e\":\"cancel\"");
			pthread_cancel(pt[i]);
		}
	for (int i = 0; i < n; ++i) {
		pthread_join(pt[i], NULL);
		sim_ev("\"e\":\"gone\",\"w\":%d", i + 1);
	}
	LOG_flush();
	on = false;
	outs("out");
	sim_done();
}
static unsigned nscen(void) { return 8; }
static const char * name(unsigned i) { return "log"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
