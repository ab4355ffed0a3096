#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

/* the drivers may replace _exit */
static void rawExit(int rc) __attribute__((noreturn));
static void rawExit(int rc)
{
	syscall(SYS_exit_group, rc);
	__builtin_unreachable();
}

#define REAL(r, n, ...) extern r __real_##n(__VA_ARGS__)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(void, pthread_exit, void *) __attribute__((noreturn));
REAL(void *, malloc, size_t);
REAL(void *, calloc, size_t, size_t);
REAL(void *, realloc, void *, size_t);
REAL(void, free, void *);

/* ---------------------------------------------------------------- shm --- */
#define EVBUF (8u << 20)
#define MAXCH 200000u
struct shm {
	uint32_t evlen, nev, overflow;
	uint32_t metalen;
	uint32_t nch;
	uint32_t crashed;
	char meta[65536];
	uint16_t chn[MAXCH], chc[MAXCH];
	char ev[EVBUF];
};
static struct shm * S;

struct sim_opts sim_opt;
unsigned sim_p_switch = 100;
bool sim_time_choice = false;
bool sim_spurious = false;
bool sim_mem_points = false;
unsigned sim_max_steps = 400000;
bool sim_thread_events = false;
int sim_malloc_fail_at = 0;

/* choice source */
static const uint16_t * prefix;
static unsigned prefixLen;
static bool randomMode;
static uint64_t rng;
static uint64_t scenRng;

static uint64_t splitmix(uint64_t * s)
{
	uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

uint32_t sim_rand(void) { return (uint32_t)(splitmix(&scenRng) >> 32); }
uint32_t sim_rand_n(uint32_t n) { return n ? sim_rand() % n : 0; }
static uint32_t crand(void) { return (uint32_t)(splitmix(&rng) >> 32); }

static void recChoice(unsigned n, unsigned c)
{
	if (S->nch < MAXCH) {
		S->chn[S->nch] = n;
		S->chc[S->nch] = c;
		++S->nch;
	}
}

unsigned sim_choose(unsigned n)
{
	unsigned c = 0;
	if (n <= 1)
		return 0;
	if (randomMode)
		c = crand() % n;
	else if (S->nch < prefixLen) {
		c = prefix[S->nch];
		if (c >= n)
			c = 0;
	}
	recChoice(n, c);
	return c;
}

bool sim_p(unsigned permille)
{
	if (!permille)
		return false;
	if (randomMode) {
		bool r = crand() % 1000 < permille;
		recChoice(2, r);
		return r;
	}
	return sim_choose(2);
}
uint32_t sim_crand(void) { return randomMode ? crand() : 0; }

/* ------------------------------------------------------------- threads --- */
#define MAXT 160
enum { T_RUN, T_BLOCK, T_QUIESCE, T_DEAD };
struct thr {
	int id, state;
	sem_t sem;
	pthread_t pt;
	bool joined, detached;
	bool (*pred)(void *);
	void * parg;
	uint64_t deadline; /* 0: none */
	bool cancelable;   /* blocked in a cancellation point */
	bool canceled, cdisabled, exiting;
	void * (*fn)(void *);
	void * arg;
	char name[20];
};
static struct thr T[MAXT];
static int nT;
static __thread struct thr * self;
static uint64_t now; /* ns */
static unsigned steps;
static bool active;
static bool finished;

int sim_self(void) { return self ? self->id : 0; }
uint64_t sim_now(void) { return now; }
uint32_t sim_ms(void) { return (uint32_t)(now / NS_PER_MS); }
unsigned sim_nev(void) { return S->nev; }

static void evraw(const char * s, size_t l)
{
	if (S->evlen + l + 64 > EVBUF) {
		S->overflow = 1;
		return;
	}
	memcpy(S->ev + S->evlen, s, l);
	S->evlen += l;
}

void sim_ev(const char * fmt, ...)
{
	static char buf[1 << 18];
	int l = snprintf(buf, sizeof buf, "%s{\"t\":%d,\"n\":%u,", S->nev ? "," : "",
		sim_self(), sim_ms());
	va_list ap;
	va_start(ap, fmt);
	l += vsnprintf(buf + l, sizeof buf - l - 2, fmt, ap);
	va_end(ap);
	if ((size_t)l >= sizeof buf - 2) {
		S->overflow = 1;
		return;
	}
	buf[l++] = '}';
	evraw(buf, l);
	++S->nev;
}

void sim_meta(const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (S->metalen)
		S->meta[S->metalen++] = ',';
	S->metalen += vsnprintf(S->meta + S->metalen, sizeof S->meta - S->metalen, fmt, ap);
	va_end(ap);
}

const char * sim_bytes(const void * buf, size_t len)
{
	static char ring[8][1 << 15];
	static int r;
	char * o = ring[r++ & 7], * p = o;
	const uint8_t * b = buf;
	*p++ = '[';
	for (size_t i = 0; i < len && p < o + sizeof ring[0] - 8; ++i)
		p += sprintf(p, i ? ",%u" : "%u", b[i]);
	*p++ = ']';
	*p = 0;
	return o;
}

void sim_done(void)
{
	finished = true;
	rawExit(0);
}

static void die(const char * why)
{
	if (!S->crashed) {
		S->crashed = 1;
		char buf[200];
		int l = snprintf(buf, sizeof buf, "%s{\"t\":%d,\"n\":%u,\"e\":\"fatal\",\"why\":\"%s\"}",
			S->nev ? "," : "", sim_self(), sim_ms(), why);
		evraw(buf, l);
		++S->nev;
	}
	rawExit(3);
}

static void onSignal(int sig)
{
	const char * w = sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" :
		sig == SIGALRM || sig == SIGVTALRM ? "hang" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : "signal";
	die(w);
}

void __asan_on_error(void);
void __asan_on_error(void)
{
	if (!getenv("SIM_ASAN")) /* else let the report be printed */
		die("memory-error");
}

static bool runnable(struct thr * t)
{
	if (t->state == T_RUN)
		return true;
	if (t->state != T_BLOCK)
		return false;
	if (t->pred && t->pred(t->parg))
		return true;
	if (t->deadline && t->deadline <= now)
		return true;
	if (t->cancelable && t->canceled && !t->cdisabled && !t->exiting)
		return true;
	return false;
}

static uint64_t earliest(void)
{
	uint64_t e = 0;
	for (int i = 0; i < nT; ++i)
		if (T[i].state == T_BLOCK && T[i].deadline && T[i].deadline > now &&
			(!e || T[i].deadline < e))
			e = T[i].deadline;
	return e;
}

static void switchTo(struct thr * t)
{
	if (t == self)
		return;
	struct thr * me = self;
	sem_post(&t->sem);
	if (me->state != T_DEAD)
		while (sem_wait(&me->sem) && errno == EINTR) {}
}

/* choose who runs next; current thread's state is already set */
static void resched(void)
{
	if (++steps > sim_max_steps)
		die("livelock");
	while (true) {
		struct thr * opt[MAXT + 1];
		int n = 0;
		bool curRun = self->state != T_DEAD && runnable(self);
		if (curRun)
			opt[n++] = self;
		for (int k = 1; k <= nT; ++k) {
			struct thr * t = &T[(self->id + k) % nT];
			if (t != self && runnable(t))
				opt[n++] = t;
		}
		if (!n) {
			for (int i = 0; i < nT; ++i)
				if (T[i].state == T_QUIESCE) {
					T[i].state = T_RUN;
					switchTo(&T[i]);
					return;
				}
			uint64_t e = earliest();
			if (!e)
				die("deadlock");
			now = e;
			continue;
		}
		bool adv = sim_time_choice && earliest();
		unsigned tot = n + (adv ? 1 : 0);
		unsigned c = 0;
		if (tot > 1) {
			if (randomMode) {
				if (curRun && crand() % 1000 >= sim_p_switch)
					c = 0;
				else if (curRun)
					c = tot > 1 ? 1 + crand() % (tot - 1) : 0;
				else
					c = crand() % tot;
				if (adv && c == tot - 1 && crand() % 4)
					c = 0;
				recChoice(tot, c);
			} else
				c = sim_choose(tot);
		}
		if (adv && c == tot - 1) {
			now = earliest();
			continue;
		}
		switchTo(opt[c]);
		return;
	}
}

void sim_yield(void)
{
	if (!active || !self)
		return;
	resched();
}

extern void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
static void doCancel(void)
{
	self->exiting = true;
	self->canceled = false;
	if (__asan_unpoison_memory_region) {
		/* frames are left without running their epilogues */
		pthread_attr_t at;
		void * base;
		size_t size;
		if (pthread_getattr_np(pthread_self(), &at) == 0) {
			pthread_attr_getstack(&at, &base, &size);
			char * sp = (char *)__builtin_frame_address(0) - 4096;
			if (sp > (char *)base)
				__asan_unpoison_memory_region(sp, (char *)base + size - sp);
			pthread_attr_destroy(&at);
		}
	}
	__real_pthread_exit(PTHREAD_CANCELED);
}

void sim_testcancel(void)
{
	if (self && self->canceled && !self->cdisabled && !self->exiting)
		doCancel();
}

bool sim_block(bool (*pred)(void *), void * arg, uint64_t deadline, bool cancelable)
{
	self->pred = pred;
	self->parg = arg;
	self->deadline = deadline;
	self->cancelable = cancelable;
	self->state = T_BLOCK;
	resched();
	self->state = T_RUN;
	self->cancelable = false;
	self->deadline = 0;
	bool r = pred && pred(arg);
	return r;
}

void sim_sleep_ns(uint64_t ns) { sim_block(NULL, NULL, now + ns + (ns ? 0 : 1), false); }

void sim_quiesce(void)
{
	self->state = T_QUIESCE;
	resched();
	self->state = T_RUN;
}

bool sim_dead(int tid) { return T[tid].state == T_DEAD; }
bool sim_blocked(int tid) { return T[tid].state == T_BLOCK && !runnable(&T[tid]); }

unsigned sim_live_threads(void)
{
	unsigned n = 0;
	for (int i = 0; i < nT; ++i)
		if (&T[i] != self && T[i].state != T_DEAD)
			++n;
	return n;
}

static void threadEnd(void * p)
{
	(void)p;
	if (sim_thread_events)
		sim_ev("\"e\":\"exit\"");
	self->state = T_DEAD;
	resched();
}

static void * trampoline(void * p)
{
	self = p;
	while (sem_wait(&self->sem) && errno == EINTR) {}
	void * ret = NULL;
	pthread_cleanup_push(threadEnd, NULL);
	ret = self->fn(self->arg);
	pthread_cleanup_pop(1);
	return ret;
}

int sim_create_fail = 0; /* >0: the n-th pthread_create fails */

static int mkthread(pthread_t * pt, void * (*fn)(void *), void * arg, const char * name)
{
	if (nT == MAXT)
		die("too-many-threads");
	struct thr * t = &T[nT];
	memset(t, 0, sizeof *t);
	t->id = nT;
	t->fn = fn;
	t->arg = arg;
	t->state = T_RUN;
	snprintf(t->name, sizeof t->name, "%s", name ? name : "");
	sem_init(&t->sem, 0, 0);
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	pthread_attr_setstacksize(&attr, 512 << 10);
	++nT;
	if (__real_pthread_create(&t->pt, &attr, trampoline, t))
		die("pthread_create");
	if (pt)
		*pt = t->pt;
	return t->id;
}

struct spawnArg { void (*fn)(void *); void * arg; };
static void * spawnTramp(void * p)
{
	struct spawnArg a = *(struct spawnArg *)p;
	__real_free(p);
	a.fn(a.arg);
	return NULL;
}

int sim_spawn(void (*fn)(void *), void * arg, const char * name)
{
	struct spawnArg * a = __real_malloc(sizeof *a);
	a->fn = fn;
	a->arg = arg;
	return mkthread(NULL, spawnTramp, a, name);
}

static struct thr * find(pthread_t pt)
{
	for (int i = nT - 1; i >= 0; --i)
		if (pthread_equal(T[i].pt, pt))
			return &T[i];
	return NULL;
}

void sim_cancel(int tid)
{
	if (sim_thread_events)
		sim_ev("\"e\":\"cancel\",\"th\":%d", tid);
	T[tid].canceled = true;
	sim_yield();
}

/* ------------------------------------------------------- pthread wraps --- */
int __wrap_pthread_create(pthread_t * pt, const pthread_attr_t * attr, void * (*fn)(void *), void * arg)
{
	if (!active)
		return __real_pthread_create(pt, attr, fn, arg);
	sim_yield();
	if (sim_create_fail && --sim_create_fail == 0) {
		if (sim_on_create)
			sim_on_create(EAGAIN);
		return EAGAIN;
	}
	mkthread(pt, fn, arg, "code");
	if (sim_on_create)
		sim_on_create(0);
	sim_yield();
	return 0;
}

static bool deadPred(void * p) { return ((struct thr *)p)->state == T_DEAD; }

void __wrap_pthread_exit(void * r) { __real_pthread_exit(r); }

int __wrap_pthread_join(pthread_t pt, void ** ret)
{
	if (!active)
		return __real_pthread_join(pt, ret);
	sim_testcancel();
	struct thr * t = find(pt);
	if (!t || t->joined)
		die("join-invalid");
	sim_block(deadPred, t, 0, true);
	if (t->state != T_DEAD)
		sim_testcancel();
	t->joined = true;
	return __real_pthread_join(pt, ret);
}

/* the other clocks count from an arbitrary origin */
static uint64_t abs2nsClk(clockid_t id, const struct timespec * ts)
{
	int64_t s = (int64_t)ts->tv_sec -
		(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? (int64_t)SIM_EPOCH : 1000);
	if (s < 0)
		return 1;
	return (uint64_t)s * 1000000000ull + ts->tv_nsec + 1;
}
static uint64_t abs2ns(const struct timespec * ts)
{
	return abs2nsClk(CLOCK_REALTIME, ts);
}

int __wrap_pthread_clockjoin_np(pthread_t pt, void ** ret, clockid_t clk, const struct timespec * ts)
{
	sim_testcancel();
	struct thr * t = find(pt);
	if (!t || t->joined)
		die("join-invalid");
	if (!sim_block(deadPred, t, abs2nsClk(clk, ts), true)) {
		sim_testcancel();
		return ETIMEDOUT;
	}
	t->joined = true;
	return __real_pthread_join(pt, ret);
}
int __wrap_pthread_timedjoin_np(pthread_t pt, void ** ret, const struct timespec * ts)
{
	return __wrap_pthread_clockjoin_np(pt, ret, CLOCK_REALTIME, ts);
}

int __wrap_pthread_tryjoin_np(pthread_t pt, void ** ret)
{
	struct thr * t = find(pt);
	if (!t || t->joined)
		die("join-invalid");
	if (t->state != T_DEAD)
		return EBUSY;
	t->joined = true;
	return __real_pthread_join(pt, ret);
}

int __wrap_pthread_detach(pthread_t pt)
{
	struct thr * t = find(pt);
	if (t)
		t->detached = true;
	return 0;
}

int __wrap_pthread_setname_np(pthread_t pt, const char * n)
{
	struct thr * t = find(pt);
	if (t)
		snprintf(t->name, sizeof t->name, "%s", n);
	return 0;
}

int __wrap_pthread_cancel(pthread_t pt)
{
	struct thr * t = find(pt);
	if (!t)
		die("cancel-invalid");
	if (sim_thread_events)
		sim_ev("\"e\":\"cancel\",\"th\":%d", t->id);
	if (t->state != T_DEAD)
		t->canceled = true;
	sim_yield();
	return 0;
}

int __wrap_pthread_setcancelstate(int st, int * old)
{
	if (!self)
		return 0;
	if (old)
		*old = self->cdisabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
	self->cdisabled = st == PTHREAD_CANCEL_DISABLE;
	return 0;
}

int __wrap_pthread_setcanceltype(int st, int * old)
{
	if (old)
		*old = PTHREAD_CANCEL_DEFERRED;
	return 0;
}

void __wrap_pthread_testcancel(void)
{
	sim_yield();
	sim_testcancel();
}

/* mutexes */
#define MAXM 256
static struct mtx { void * addr; struct thr * owner; unsigned cnt; bool rec; } M[MAXM];
static int nM;

static struct mtx * mfind(void * a)
{
	for (int i = 0; i < nM; ++i)
		if (M[i].addr == a)
			return &M[i];
	if (nM == MAXM)
		die("too-many-mutexes");
	M[nM].addr = a;
	M[nM].owner = NULL;
	return &M[nM++];
}

unsigned sim_locked_mutexes(void)
{
	unsigned n = 0;
	for (int i = 0; i < nM; ++i)
		if (M[i].owner)
			++n;
	return n;
}

static bool mfree(void * p) { return !((struct mtx *)p)->owner; }

static void mtxlock(struct mtx * m)
{
	while (m->owner) {
		if (m->owner->state == T_DEAD)
			die("lock-held-by-dead-thread");
		sim_block(mfree, m, 0, false);
	}
	m->owner = self;
}

int __wrap_pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
	struct mtx * x = mfind(m);
	x->owner = NULL;
	x->rec = false;
	if (a) {
		int t;
		if (!pthread_mutexattr_gettype(a, &t) && t == PTHREAD_MUTEX_RECURSIVE)
			x->rec = true;
	}
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t * m)
{
	mfind(m)->owner = NULL;
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
	if (!active || !self)
		return 0;
	sim_yield();
	struct mtx * x = mfind(m);
	if (x->owner == self) {
		if (!x->rec)
			die("self-deadlock");
		++x->cnt;
		return 0;
	}
	mtxlock(x);
	x->cnt = 0;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
	if (!active || !self)
		return 0;
	sim_yield();
	struct mtx * x = mfind(m);
	if (x->owner)
		return EBUSY;
	x->owner = self;
	return 0;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t clk, const struct timespec * ts)
{
	sim_yield();
	struct mtx * x = mfind(m);
	while (x->owner)
		if (!sim_block(mfree, x, abs2nsClk(clk, ts), false) && x->owner)
			return ETIMEDOUT;
	x->owner = self;
	return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts)
{
	return __wrap_pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
	if (!active || !self)
		return 0;
	struct mtx * x = mfind(m);
	if (x->owner != self)
		die("unlock-not-owner");
	if (x->rec && x->cnt) {
		--x->cnt;
		return 0;
	}
	x->owner = NULL;
	sim_yield();
	return 0;
}

/* condition variables */
struct waiter { void * cond; bool sig; bool used; };
static struct waiter W[MAXT];

static bool wpred(void * p) { return ((struct waiter *)p)->sig; }

static int condWait(pthread_cond_t * c, pthread_mutex_t * m, uint64_t deadline)
{
	sim_yield();
	sim_testcancel();
	struct mtx * x = mfind(m);
	if (x->owner != self)
		die("cond-wait-without-lock");
	struct waiter * w = &W[self->id];
	w->cond = c;
	w->sig = false;
	w->used = true;
	x->owner = NULL;
	bool spur = false;
	if (sim_spurious && (randomMode ? (crand() % 20 == 0) : sim_choose(2))) {
		if (randomMode)
			recChoice(2, 1);
		w->sig = spur = true;
	}
	bool sig = sim_block(wpred, w, deadline, true);
	w->used = false;
	bool timedout = !sig && deadline && deadline <= now;
	mtxlock(x);
	if (!sig || (self->canceled && !self->cdisabled && !self->exiting))
		sim_testcancel();
	return !sig && timedout ? ETIMEDOUT : 0;
}

/* condition variables bound to another clock than the default one */
static struct { pthread_cond_t * c; clockid_t clk; } condClk[16];
static clockid_t clkOf(pthread_cond_t * c)
{
	for (int i = 0; i < 16; ++i)
		if (condClk[i].c == c)
			return condClk[i].clk;
	return CLOCK_REALTIME;
}
int __wrap_pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a)
{
	clockid_t clk = CLOCK_REALTIME;
	if (a)
		pthread_condattr_getclock(a, &clk);
	int f = -1;
	for (int i = 0; i < 16; ++i)
		if (condClk[i].c == c || (f < 0 && !condClk[i].c))
			f = i;
	if (f >= 0) {
		condClk[f].c = c;
		condClk[f].clk = clk;
	}
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t * c)
{
	for (int i = 0; i < 16; ++i)
		if (condClk[i].c == c)
			condClk[i].c = NULL;
	return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	return condWait(c, m, 0);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	return condWait(c, m, abs2nsClk(clkOf(c), ts));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t clk, const struct timespec * ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	return condWait(c, m, abs2nsClk(clk, ts));
}
int __wrap_pthread_cond_broadcast(pthread_cond_t * c)
{
	if (!active)
		return 0;
	for (int i = 0; i < nT; ++i)
		if (W[i].used && W[i].cond == c)
			W[i].sig = true;
	sim_yield();
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t * c)
{
	if (!active)
		return 0;
	int cand[MAXT], n = 0;
	for (int i = 0; i < nT; ++i)
		if (W[i].used && W[i].cond == c && !W[i].sig)
			cand[n++] = i;
	if (n)
		W[cand[sim_choose(n)]].sig = true;
	sim_yield();
	return 0;
}

/* rwlocks: modelled as plain mutual exclusion per writer, shared readers */
#define MAXRW 32
static struct rwl { void * addr; struct thr * w; int r; } RW[MAXRW];
static int nRW;
static struct rwl * rwfind(void * a)
{
	for (int i = 0; i < nRW; ++i)
		if (RW[i].addr == a)
			return &RW[i];
	RW[nRW].addr = a;
	return &RW[nRW++];
}
static bool rwR(void * p) { return !((struct rwl *)p)->w; }
static bool rwW(void * p) { return !((struct rwl *)p)->w && !((struct rwl *)p)->r; }
int __wrap_pthread_rwlock_init(pthread_rwlock_t * l, const pthread_rwlockattr_t * a) { struct rwl * x = rwfind(l); x->w = NULL; x->r = 0; return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t * l) { return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t * l) { struct rwl * x = rwfind(l); sim_yield(); while (x->w) sim_block(rwR, x, 0, false); ++x->r; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t * l) { struct rwl * x = rwfind(l); sim_yield(); while (x->w || x->r) sim_block(rwW, x, 0, false); x->w = self; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t * l) { struct rwl * x = rwfind(l); if (x->w == self) x->w = NULL; else --x->r; sim_yield(); return 0; }

/* --------------------------------------------------------------- time --- */
int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
	ts->tv_sec = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? SIM_EPOCH : 1000) + now / 1000000000ull;
	ts->tv_nsec = now % 1000000000ull;
	return 0;
}
time_t __wrap_time(time_t * t)
{
	time_t r = SIM_EPOCH + now / 1000000000ull;
	if (t)
		*t = r;
	return r;
}
int __wrap_gettimeofday(struct timeval * tv, void * tz)
{
	tv->tv_sec = SIM_EPOCH + now / 1000000000ull;
	tv->tv_usec = (now % 1000000000ull) / 1000;
	return 0;
}
extern void sim_on_sleep(uint64_t ns) __attribute__((weak));
static void cslp(uint64_t ns)
{
	sim_testcancel();
	if (sim_on_sleep)
		sim_on_sleep(ns);
	sim_block(NULL, NULL, now + (ns ? ns : 1), true);
	sim_testcancel();
}
unsigned __wrap_sleep(unsigned s) { cslp(s * 1000000000ull); return 0; }
int __wrap_usleep(useconds_t us) { cslp(us * 1000ull); return 0; }
int __wrap_nanosleep(const struct timespec * a, struct timespec * b)
{
	cslp(a->tv_sec * 1000000000ull + a->tv_nsec);
	return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec * a, struct timespec * b)
{
	if (flags & TIMER_ABSTIME) {
		uint64_t d = abs2nsClk(id, a);
		cslp(d > now ? d - now : 1);
	} else
		cslp(a->tv_sec * 1000000000ull + a->tv_nsec);
	return 0;
}

/* ------------------------------------------------------------- malloc --- */
extern void sim_on_malloc(void * p, size_t n) __attribute__((weak));
extern void sim_on_free(void * p) __attribute__((weak));

static bool failNow(void)
{
	return sim_malloc_fail_at && --sim_malloc_fail_at == 0;
}
void * __wrap_malloc(size_t n)
{
	if (failNow()) {
		errno = ENOMEM;
		return NULL;
	}
	void * p = __real_malloc(n);
	if (p)
		memset(p, 0xa5, n); /* expose use of uninitialised memory */
	if (sim_on_malloc)
		sim_on_malloc(p, n);
	return p;
}
void * __wrap_calloc(size_t a, size_t b)
{
	if (failNow()) {
		errno = ENOMEM;
		return NULL;
	}
	void * p = __real_calloc(a, b);
	if (sim_on_malloc)
		sim_on_malloc(p, a * b);
	return p;
}
void * __wrap_realloc(void * q, size_t n)
{
	if (failNow()) {
		errno = ENOMEM;
		return NULL;
	}
	if (q && sim_on_free)
		sim_on_free(q);
	void * p = __real_realloc(q, n);
	if (sim_on_malloc)
		sim_on_malloc(p, n);
	return p;
}
void __wrap_free(void * p)
{
	if (p && sim_on_free)
		sim_on_free(p);
	__real_free(p);
}

/* ------------------------------------------ memory access scheduling --- */
static unsigned memCountdown;
extern void sim_on_access(void * addr, bool write) __attribute__((weak));
static bool memWrite;
static void memPoint(void * addr);
void sim_mem_access(void * addr)
{
	bool w = memWrite;
	memWrite = false;
	memPoint(addr);
	if (sim_on_access)
		sim_on_access(addr, w);
}
static void memPoint(void * addr)
{
	if (!sim_mem_points || !active || !self || finished)
		return;
	/* skip the own stack */
	char * sp = __builtin_frame_address(0);
	if ((char *)addr > sp - 4096 && (char *)addr < sp + (600 << 10) && self->id != 0)
		return;
	if (memCountdown) {
		--memCountdown;
		return;
	}
	memCountdown = crand() % 60;
	if (randomMode) {
		/* one forced preemption */
		struct thr * opt[MAXT];
		int n = 0;
		for (int i = 0; i < nT; ++i)
			if (&T[i] != self && runnable(&T[i]))
				opt[n++] = &T[i];
		if (n)
			switchTo(opt[crand() % n]);
	}
}
#define TS(n) \
	void __tsan_read##n(void * a); void __tsan_read##n(void * a) { sim_mem_access(a); } \
	void __tsan_write##n(void * a); void __tsan_write##n(void * a) { memWrite = true; sim_mem_access(a); } \
	void __tsan_unaligned_read##n(void * a); void __tsan_unaligned_read##n(void * a) { sim_mem_access(a); } \
	void __tsan_unaligned_write##n(void * a); void __tsan_unaligned_write##n(void * a) { memWrite = true; sim_mem_access(a); } \
	void __tsan_volatile_read##n(void * a); void __tsan_volatile_read##n(void * a) { sim_mem_access(a); } \
	void __tsan_volatile_write##n(void * a); void __tsan_volatile_write##n(void * a) { memWrite = true; sim_mem_access(a); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void * a, size_t n); void __tsan_read_range(void * a, size_t n) { sim_mem_access(a); }
void __tsan_write_range(void * a, size_t n); void __tsan_write_range(void * a, size_t n) { sim_mem_access(a); }
void __tsan_func_entry(void * a); void __tsan_func_entry(void * a) {}
void __tsan_func_exit(void); void __tsan_func_exit(void) {}
void __tsan_init(void); void __tsan_init(void) {}
void __tsan_vptr_update(void * a, void * b); void __tsan_vptr_update(void * a, void * b) {}
void __tsan_vptr_read(void * a); void __tsan_vptr_read(void * a) {}

/* ------------------------------------------------------------- driver --- */
#define MAXJOBS 16
static struct shm * slots[MAXJOBS];

struct job {
	unsigned scen;
	bool random;
	uint64_t seed;
	unsigned plen, dev;
	uint16_t * pre;
};

static void child(struct job * j, struct shm * shm, void (*fn)(unsigned))
{
	S = shm;
	randomMode = j->random;
	prefix = j->pre;
	prefixLen = j->plen;
	rng = j->seed * 0x9e3779b97f4a7c15ull + 77 + j->scen * 1000003ull;
	scenRng = (j->random ? j->seed : 0) * 0xd1342543de82ef95ull + j->scen * 0x2545F4914F6CDD1Dull + sim_opt.seed;
	memset(T, 0, sizeof T);
	nT = 1;
	T[0].state = T_RUN;
	T[0].pt = pthread_self();
	sem_init(&T[0].sem, 0, 0);
	self = &T[0];
	now = 0;
	steps = 0;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = onSignal;
	static char altstack[65536];
	stack_t st = { .ss_sp = altstack, .ss_size = sizeof altstack };
	sigaltstack(&st, NULL);
	sa.sa_flags = SA_ONSTACK;
	int sigs[] = { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGVTALRM };
	for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i)
		sigaction(sigs[i], &sa, NULL);
	/* CPU time first (infinite loops), wall clock as a backstop */
	struct itimerval it = { .it_value = { .tv_sec = 20 } };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
	alarm(200);
	int nul = open("/dev/null", O_WRONLY);
	if (!getenv("SIM_STDOUT")) {
		dup2(nul, 1);
		dup2(nul, 2);
	}
	active = true;
	fn(j->scen);
	sim_done();
}

static uint64_t fnv(const char * p, size_t n)
{
	uint64_t h = 14695981039346656037ull;
	while (n--) {
		h ^= (uint8_t)*p++;
		h *= 1099511628211ull;
	}
	return h;
}

#define HS (1u << 20)
static uint64_t * seen;
static unsigned nseen;
static bool addSeen(uint64_t h)
{
	if (!h)
		h = 1;
	unsigned i = h & (HS - 1);
	while (seen[i]) {
		if (seen[i] == h)
			return false;
		i = (i + 1) & (HS - 1);
	}
	if (nseen > HS / 2)
		return true;
	seen[i] = h;
	++nseen;
	return true;
}

static struct job * queue;
static unsigned qh, qt, qcap;
static void qpush(struct job j)
{
	if (qt == qcap) {
		qcap = qcap ? qcap * 2 : 4096;
		queue = realloc(queue, qcap * sizeof *queue);
	}
	queue[qt++] = j;
}

int sim_main(int argc, char ** argv, unsigned (*nscen)(void), void (*fn)(unsigned),
	const char * (*name)(unsigned))
{
	sim_opt.out = "/dev/stdout";
	sim_opt.seed = 1;
	sim_opt.n = 1;
	sim_opt.jobs = 8;
	sim_opt.bound = 2;
	int only = -1;
	unsigned long long onlySeed = 0;
	const char * choices = NULL;
	for (int i = 1; i < argc; ++i) {
		const char * v = i + 1 < argc ? argv[i + 1] : "";
		if (!strcmp(argv[i], "--out")) sim_opt.out = v;
		else if (!strcmp(argv[i], "--seed")) sim_opt.seed = strtoull(v, 0, 10);
		else if (!strcmp(argv[i], "--n")) sim_opt.n = atoi(v);
		else if (!strcmp(argv[i], "--dfs")) sim_opt.dfs = atoi(v);
		else if (!strcmp(argv[i], "--bound")) sim_opt.bound = atoi(v);
		else if (!strcmp(argv[i], "--jobs")) sim_opt.jobs = atoi(v);
		else if (!strcmp(argv[i], "--script")) sim_opt.script = v;
		else if (!strcmp(argv[i], "--extra")) sim_opt.extra = v;
		else if (!strcmp(argv[i], "--only")) only = atoi(v);
		else if (!strcmp(argv[i], "--xseed")) onlySeed = strtoull(v, 0, 10);
		else if (!strcmp(argv[i], "--choices")) choices = v;
		else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
		++i;
	}
	if (sim_opt.jobs > MAXJOBS)
		sim_opt.jobs = MAXJOBS;
	FILE * out = fopen(sim_opt.out, "w");
	if (!out) {
		perror(sim_opt.out);
		return 2;
	}
	seen = calloc(HS, sizeof *seen);
	for (unsigned i = 0; i < sim_opt.jobs; ++i)
		slots[i] = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE,
			MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	unsigned ns = nscen();
	for (unsigned s = 0; s < ns; ++s) {
		if (only >= 0 && s != (unsigned)only)
			continue;
		if (onlySeed) {
			qpush((struct job){ .scen = s, .random = true, .seed = onlySeed });
			continue;
		}
		if (choices) {
			struct job j = { .scen = s, .pre = malloc(strlen(choices) * 2 + 2) };
			for (const char * p = choices; *p;) {
				j.pre[j.plen++] = strtoul(p, (char **)&p, 10);
				while (*p && (*p < '0' || *p > '9')) ++p;
			}
			sim_opt.dfs = 0;
			qpush(j);
			continue;
		}
		if (sim_opt.dfs)
			qpush((struct job){ .scen = s });
		for (unsigned k = 0; k < sim_opt.n; ++k)
			qpush((struct job){ .scen = s, .random = true, .seed = sim_opt.seed * 1000003ull + k + 1 });
	}
	unsigned * dfsCount = calloc(ns + 1, sizeof *dfsCount);
	struct { pid_t pid; struct job j; } run[MAXJOBS];
	memset(run, 0, sizeof run);
	unsigned running = 0;
	uint64_t execs = 0, distinct = 0, fatals = 0, dfsAll = 0, dfsTrunc = 0, steps = 0;
	while (qh < qt || running) {
		for (unsigned k = 0; k < sim_opt.jobs && qh < qt; ++k) {
			if (run[k].pid)
				continue;
			struct job j = queue[qh++];
			struct shm * m = slots[k];
			m->evlen = m->nev = m->overflow = m->metalen = m->nch = m->crashed = 0;
			fflush(out);
			pid_t pid = fork();
			if (pid == 0) {
				child(&j, m, fn);
				rawExit(0);
			}
			run[k].pid = pid;
			run[k].j = j;
			++running;
		}
		int st;
		pid_t pid = wait(&st);
		if (pid < 0)
			break;
		unsigned k;
		for (k = 0; k < sim_opt.jobs && run[k].pid != pid; ++k) {}
		if (k == sim_opt.jobs)
			continue;
		run[k].pid = 0;
		--running;
		++execs;
		struct shm * m = slots[k];
		struct job * j = &run[k].j;
		steps += m->nch;
		if ((!WIFEXITED(st) || WEXITSTATUS(st) != 0) && !m->crashed) {
			m->evlen += sprintf(m->ev + m->evlen,
				"%s{\"t\":0,\"n\":0,\"e\":\"fatal\",\"why\":\"exit %x\"}",
				m->nev ? "," : "", st);
			m->crashed = 1;
		}
		if (m->crashed)
			++fatals;
		if (m->overflow)
			fprintf(stderr, "trace overflow in scenario %u\n", j->scen);
		uint64_t h = fnv(m->ev, m->evlen) * 31 + fnv(m->meta, m->metalen) + j->scen;
		if (!m->overflow && addSeen(h)) {
			++distinct;
			fprintf(out, "{\"scen\":%u,\"name\":\"%s\",\"mode\":\"%s\",\"xseed\":\"%llu\",",
				j->scen, name ? name(j->scen) : "", j->random ? "random" : "dfs",
				(unsigned long long)(j->random ? j->seed : 0));
			if (!j->random) {
				fprintf(out, "\"choices\":\"");
				unsigned last = 0;
				for (unsigned i = 0; i < m->nch; ++i)
					if (m->chc[i])
						last = i + 1;
				for (unsigned i = 0; i < last; ++i)
					fprintf(out, i ? ",%u" : "%u", m->chc[i]);
				fprintf(out, "\",");
			}
			fprintf(out, "\"meta\":{%.*s},\"ev\":[%.*s]}\n", (int)m->metalen, m->meta,
				(int)m->evlen, m->ev);
		}
		if (!j->random) {
			++dfsAll;
			/* enumerate the siblings below this prefix */
			if (sim_opt.dfs && j->dev < sim_opt.bound) {
				for (unsigned i = j->plen; i < m->nch; ++i) {
					for (unsigned c = 1; c < m->chn[i]; ++c) {
						if (dfsCount[j->scen] >= sim_opt.dfs) {
							++dfsTrunc;
							goto full;
						}
						++dfsCount[j->scen];
						struct job nj = { .scen = j->scen, .plen = i + 1, .dev = j->dev + 1,
							.pre = malloc((i + 1) * 2) };
						memcpy(nj.pre, m->chc, i * 2);
						nj.pre[i] = c;
						qpush(nj);
					}
				}
full:;
			}
			free(j->pre);
		}
	}
	fclose(out);
	printf("{\"executions\":%llu,\"distinct\":%llu,\"fatal\":%llu,\"dfs_executions\":%llu,"
		"\"dfs_truncated\":%llu,\"choice_points\":%llu,\"scenarios\":%u}\n", (unsigned long long)execs,
		(unsigned long long)distinct, (unsigned long long)fatals,
		(unsigned long long)dfsAll, (unsigned long long)dfsTrunc, (unsigned long long)steps, ns);
	return 0;
}
