/* Virtual network: sockets of the code under test talk to a scripted peer. */
#ifndef SIMNET_H
#define SIMNET_H
#include "sim.h"
struct simnet_cfg {
	unsigned naddr;        /* addresses per resolution */
	unsigned fam[8];       /* 4, 6 or 0 (unknown family) */
	unsigned p_gai;        /* per mille: resolution fails */
	unsigned p_conn;       /* connect fails */
	unsigned p_connslow;   /* connect takes some time */
	unsigned p_part;       /* partial send */
	unsigned p_senderr;    /* send fails */
	unsigned p_sendblock;  /* send blocks for a while */
	unsigned p_recverr;    /* recv fails */
	unsigned p_recvpart;   /* recv returns only part of what is there */
	unsigned p_sock;       /* socket() fails */
	unsigned stick_send;   /* n-th send from now blocks for long (0: none) */
	unsigned stick_conn;   /* n-th connect from now blocks for long */
	bool stuck;            /* one of them has happened */
	unsigned p_open;       /* opening a terminal fails */
	unsigned p_tty;        /* getting or setting its attributes fails */
	unsigned p_ttywrite;   /* writing to it fails or is incomplete; it is broken then */
	int faults;            /* remaining number of failures (resolution, connect, send, recv) */
};
extern struct simnet_cfg simnet;
/** newest connected connection id, 0 if none */
int srv_current(void);
/** is the connection usable from the peer's point of view */
bool srv_up(int c);
void srv_data(int c, const void * buf, size_t len);
void srv_close(int c);
void srv_reset(int c);
/** number of virtual sockets which are not closed */
unsigned simnet_open(void);
/** total number of successful connects */
unsigned simnet_connects(void);
/** called for bytes the code under test sent (after logging) */
extern void simnet_on_tx(int c, const void * b, size_t n) __attribute__((weak));
#endif
