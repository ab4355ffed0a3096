#ifndef NETWRAP_H
#define NETWRAP_H
/** event `what` with the statistics of the network */
void net_stats(const char * what);
#endif
