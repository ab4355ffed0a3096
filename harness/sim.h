/* Deterministic simulation runtime for the conformance harnesses.
 *
 * All pthread / time / socket calls of the code under test are redirected
 * (-Wl,--wrap) to this runtime. Exactly one thread runs at a time; at every
 * scheduling point the next thread is chosen by sim_choose(), so an execution
 * is a function of (scenario, choice source) only and can be replayed.
 */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <pthread.h>
#include <stdarg.h>

#ifdef __cplusplus
extern "C" {
#endif

#define NS_PER_MS 1000000ull
#define SIM_EPOCH 1500000000ull /* seconds */

/* -------- trace -------- */
/** append one event: fmt is the JSON text of the members without braces */
void sim_ev(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
/** raw JSON text helper: bytes -> [1,2,3] (static ring of buffers) */
const char * sim_bytes(const void * buf, size_t len);
/** total number of events so far */
unsigned sim_nev(void);

/* -------- choices -------- */
/** choose 0..n-1; 0 is the default ("no deviation") */
unsigned sim_choose(unsigned n);
/** true with probability p per mille (random mode) or chosen (DFS, p != 0) */
bool sim_p(unsigned permille);
/** random number of the choice source (0 in DFS mode) */
uint32_t sim_crand(void);
/** pure random number from the scenario seed (not a choice point) */
uint32_t sim_rand(void);
uint32_t sim_rand_n(uint32_t n);

/* -------- threads -------- */
int sim_spawn(void (*fn)(void *), void * arg, const char * name);
int sim_self(void);
/** scheduling point */
void sim_yield(void);
/** block until pred(arg) (or deadline, 0 = none); returns true if pred */
bool sim_block(bool (*pred)(void *), void * arg, uint64_t deadline_ns, bool cancelable);
/** cancellation point */
void sim_testcancel(void);
void sim_cancel(int tid);
bool sim_dead(int tid);
bool sim_blocked(int tid);
/** block caller until every other thread is blocked (no timers fired) */
void sim_quiesce(void);
/** let virtual time pass for the calling harness thread (not cancelable) */
void sim_sleep_ns(uint64_t ns);
uint64_t sim_now(void); /* ns since simulation start */
uint32_t sim_ms(void);
/** number of mutexes currently locked by anyone (leak check) */
unsigned sim_locked_mutexes(void);
/** is any thread other than the caller not finished */
unsigned sim_live_threads(void);
/** finish execution (never returns) */
void sim_done(void) __attribute__((noreturn));

/* tunables set by the driver before / during the scenario */
extern unsigned sim_p_switch;   /* per-mille probability of a preemption (random mode) */
extern bool sim_time_choice;    /* allow time to advance while threads are runnable */
extern bool sim_spurious;       /* allow spurious condition wake-ups */
extern bool sim_mem_points;     /* memory access scheduling points enabled */
extern unsigned sim_max_steps;
extern bool sim_thread_events;  /* record cancel and exit events */

/* -------- driver -------- */
struct sim_opts {
	const char * out;
	uint64_t seed;
	unsigned n;          /* number of random executions per scenario */
	unsigned dfs;        /* max number of DFS executions (0: none) */
	unsigned bound;      /* deviation bound for DFS */
	unsigned jobs;
	const char * script; /* input script file, driver specific */
	const char * extra;
};
extern struct sim_opts sim_opt;
/** Run `nscen` scenarios; fn(i) executes scenario i inside a child. */
int sim_main(int argc, char ** argv, unsigned (*nscen)(void), void (*fn)(unsigned),
	const char * (*name)(unsigned));
/** attach metadata (JSON members) to the current trace header */
void sim_meta(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

extern int sim_create_fail;    /* >0: the n-th pthread_create from now fails */
/** called in the creating thread after pthread_create succeeded or failed */
extern void sim_on_create(int rc) __attribute__((weak));

/* allocation accounting for the code under test */
extern int sim_malloc_fail_at; /* >0: the n-th tracked malloc from now fails */
#ifdef __cplusplus
}
#endif
#endif
