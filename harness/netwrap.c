/* Records the calls of the network API (and their results) made by anyone. */
#include "core/network.h"
#include "netwrap.h"
#include "sim.h"

bool netwrap_on = true;
extern void netwrap_before_send(void) __attribute__((weak));

extern void __real_NET_waitConnected(void);
extern void __real_NET_forceDisconnect(void);
extern bool __real_NET_checkConnected(void);
extern bool __real_NET_send(const void * buf, size_t len);
extern ssize_t __real_NET_receive(uint8_t * buf, size_t len);

void __wrap_NET_waitConnected(void)
{
	sim_ev("\"e\":\"c\",\"op\":\"wait\"");
	__real_NET_waitConnected();
	sim_ev("\"e\":\"r\",\"op\":\"wait\",\"rc\":1");
}
void __wrap_NET_forceDisconnect(void)
{
	sim_ev("\"e\":\"c\",\"op\":\"force\"");
	__real_NET_forceDisconnect();
	sim_ev("\"e\":\"r\",\"op\":\"force\",\"rc\":1");
}
bool __wrap_NET_checkConnected(void)
{
	sim_ev("\"e\":\"c\",\"op\":\"check\"");
	bool r = __real_NET_checkConnected();
	sim_ev("\"e\":\"r\",\"op\":\"check\",\"rc\":%d", r);
	return r;
}
bool __wrap_NET_send(const void * buf, size_t len)
{
	if (netwrap_before_send)
		netwrap_before_send();
	sim_ev("\"e\":\"c\",\"op\":\"send\",\"b\":%s", sim_bytes(buf, len));
	bool r = __real_NET_send(buf, len);
	sim_ev("\"e\":\"r\",\"op\":\"send\",\"rc\":%d", r);
	return r;
}
ssize_t __wrap_NET_receive(uint8_t * buf, size_t len)
{
	sim_ev("\"e\":\"c\",\"op\":\"recv\",\"l\":%zu", len);
	ssize_t r = __real_NET_receive(buf, len);
	sim_ev("\"e\":\"r\",\"op\":\"recv\",\"rc\":%zd,\"b\":%s", r, sim_bytes(buf, r > 0 ? r : 0));
	return r;
}
void net_stats(const char * what)
{
	struct NET_Statistics s;
	NET_getStatistics(&s);
	sim_ev("\"e\":\"%s\",\"st\":[%llu,%llu,%llu,%llu,%d,%llu]", what,
		(unsigned long long)s.connectionAttempts, (unsigned long long)s.disconnects,
		(unsigned long long)s.bytesSent, (unsigned long long)s.bytesReceived, s.isOnline,
		(unsigned long long)s.onlineSecs);
}
