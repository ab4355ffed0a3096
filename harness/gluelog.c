/* Log stub: EMERG is an event followed by abort(), as in the real log. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include "util/log.h"
#include "sim.h"

int glue_emerg_exit; /* if set, leave an "emerg" event and finish */
extern void glue_on_log(int level, const char * prefix, const char * msg) __attribute__((weak));

static void out(enum LOG_LEVEL level, const char * prefix, const char * msg)
{
	if (getenv("SIM_STDOUT"))
		fprintf(stderr, "[%d] [%s] %s\n", level, prefix ? prefix : "", msg);
	if (glue_on_log)
		glue_on_log(level, prefix, msg);
	if (level == LOG_LEVEL_EMERG) {
		sim_ev("\"e\":\"emerg\",\"c\":\"%s\"", prefix ? prefix : "");
		sim_done();
	}
}
static void vout(enum LOG_LEVEL l, const char * p, const char * fmt, va_list ap)
{
	char buf[4096];
	vsnprintf(buf, sizeof buf, fmt, ap);
	out(l, p, buf);
}
void LOG_logf(enum LOG_LEVEL l, const char * p, const char * fmt, ...)
{ va_list ap; va_start(ap, fmt); vout(l, p, fmt, ap); va_end(ap); }
void LOG_log(enum LOG_LEVEL l, const char * p, const char * s) { out(l, p, s); }
void LOG_flush() {}
void LOG_errno(enum LOG_LEVEL l, const char * p, const char * fmt, ...)
{ va_list ap; va_start(ap, fmt); vout(l, p, fmt, ap); va_end(ap); }
void LOG_errno2(enum LOG_LEVEL l, int err, const char * p, const char * fmt, ...)
{ va_list ap; va_start(ap, fmt); vout(l, p, fmt, ap); va_end(ap); }
void LOG_errnet(enum LOG_LEVEL l, const char * p, const char * fmt, ...)
{ va_list ap; va_start(ap, fmt); vout(l, p, fmt, ap); va_end(ap); }
