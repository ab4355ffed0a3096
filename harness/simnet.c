#define _GNU_SOURCE
#include "simnet.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netdb.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <stdarg.h>
#include <termios.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>

extern int __real_close(int);
extern void * __real_malloc(size_t);
extern void __real_free(void *);

struct simnet_cfg simnet = { .naddr = 1, .fam = { 4 } };

#define FD0 1000
#define MAXC 400
enum { C_NEW, C_UP, C_CLOSED };
struct conn {
	int state;
	int fd;
	bool tty;
	bool eof, reset, shut;     /* peer closed, reset, we shut down */
	bool nb;                   /* non-blocking */
	uint8_t * rx;
	size_t rxn, rxcap;
};
static struct conn C[MAXC];
static int nC; /* ids 1..nC */
static int fds[64]; /* fd - FD0 -> connection id */
static unsigned nConnects;
static int newest;

static bool fault(unsigned p)
{
	if (!p)
		return false;
	if (simnet.faults <= 0)
		return false;
	if (!sim_p(p))
		return false;
	--simnet.faults;
	return true;
}

/* connection of a descriptor; 0: stale or foreign descriptor, -1: no descriptor */
static int cid(int fd)
{
	if (fd == -1)
		return -1;
	if (fd < FD0 || fd >= FD0 + 64)
		return 0;
	return fds[fd - FD0];
}
int srv_current(void) { return newest && C[newest].state == C_UP ? newest : 0; }
bool srv_up(int c) { return c && C[c].state == C_UP && !C[c].eof && !C[c].reset && !C[c].shut; }
unsigned simnet_connects(void) { return nConnects; }
unsigned simnet_open(void)
{
	unsigned n = 0;
	for (int i = 0; i < 64; ++i)
		n += fds[i] != 0;
	return n;
}

/* ------------------------------------------------------------ resolver --- */
#define GAI_MAX 64
static struct { void * p, * blk; bool live; } gais[GAI_MAX];
static int nGai;
struct gaiblk { struct addrinfo ai[8]; struct sockaddr_in6 sa[8]; };

int __wrap_getaddrinfo(const char * host, const char * svc, const struct addrinfo * h, struct addrinfo ** res)
{
	sim_yield();
	sim_testcancel();
	int st = h ? h->ai_socktype : 0;
	if (fault(simnet.p_gai)) {
		sim_ev("\"e\":\"gai\",\"host\":\"%s\",\"rc\":1,\"k\":0", host ? host : "");
		return EAI_AGAIN;
	}
	struct gaiblk * b = __real_malloc(sizeof *b);
	memset(b, 0, sizeof *b);
	unsigned n = simnet.naddr;
	struct addrinfo ** last = res;
	*res = NULL;
	for (unsigned i = 0; i < n; ++i) {
		struct addrinfo * a = &b->ai[i];
		unsigned f = simnet.fam[i];
		a->ai_family = f == 4 ? AF_INET : f == 6 ? AF_INET6 : AF_UNIX;
		a->ai_socktype = st ? st : SOCK_STREAM;
		a->ai_protocol = st && st != SOCK_STREAM ? 0 : IPPROTO_TCP;
		a->ai_addr = (struct sockaddr *)&b->sa[i];
		a->ai_addrlen = f == 6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
		a->ai_addr->sa_family = a->ai_family;
		if (f == 6) {
			struct sockaddr_in6 * s = (void *)a->ai_addr;
			s->sin6_addr.s6_addr[0] = 0xfd;
			s->sin6_addr.s6_addr[15] = i + 1;
		} else {
			struct sockaddr_in * s = (void *)a->ai_addr;
			s->sin_addr.s_addr = htonl(0x0a000001 + i);
		}
		/* only what was asked for */
		if (h && h->ai_family != AF_UNSPEC && h->ai_family != a->ai_family)
			continue;
		*last = a;
		last = &a->ai_next;
	}
	sim_ev("\"e\":\"gai\",\"host\":\"%s\",\"rc\":0,\"k\":%u", host ? host : "", n);
	if (!*res) {
		__real_free(b);
		return EAI_NONAME;
	}
	for (int i = 0; i < GAI_MAX; ++i)
		if (!gais[i].live) {
			gais[i].p = *res;
			gais[i].blk = b;
			gais[i].live = true;
			break;
		}
	++nGai;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo * a)
{
	for (int i = 0; i < GAI_MAX; ++i)
		if (gais[i].live && gais[i].p == a) {
			gais[i].live = false;
			__real_free(gais[i].blk);
			return;
		}
	sim_ev("\"e\":\"badfreeaddrinfo\"");
}
unsigned simnet_live_gai(void);
unsigned simnet_live_gai(void)
{
	unsigned n = 0;
	for (int i = 0; i < GAI_MAX; ++i)
		n += gais[i].live;
	return n;
}

/* ------------------------------------------------------------- sockets --- */
int __wrap_socket(int af, int type, int proto)
{
	if (fault(simnet.p_sock)) {
		sim_ev("\"e\":\"sock\",\"c\":0,\"fam\":%d", af == AF_INET ? 4 : af == AF_INET6 ? 6 : 0);
		errno = EMFILE;
		return -1;
	}
	int i;
	for (i = 0; i < 64 && fds[i]; ++i) {}
	if (i == 64 || nC + 1 >= MAXC) {
		sim_ev("\"e\":\"toomanysockets\"");
		errno = EMFILE;
		return -1;
	}
	int c = ++nC;
	memset(&C[c], 0, sizeof C[c]);
	C[c].state = C_NEW;
	C[c].nb = type & SOCK_NONBLOCK;
	C[c].fd = FD0 + i;
	fds[i] = c;
	sim_ev("\"e\":\"sock\",\"c\":%d,\"fam\":%d", c, (type & 0xf) != SOCK_STREAM ? 0 : af == AF_INET ? 4 : af == AF_INET6 ? 6 : 0);
	return FD0 + i;
}

int __wrap_connect(int fd, const struct sockaddr * sa, socklen_t len)
{
	sim_yield();
	sim_testcancel();
	int c = cid(fd);
	int port = 0, idx = 0, fam = 0;
	if (sa->sa_family == AF_INET) {
		const struct sockaddr_in * s = (const void *)sa;
		port = ntohs(s->sin_port);
		idx = ntohl(s->sin_addr.s_addr) - 0x0a000000;
		fam = len == sizeof *s ? 4 : 0;
	} else if (sa->sa_family == AF_INET6) {
		const struct sockaddr_in6 * s = (const void *)sa;
		port = ntohs(s->sin6_port);
		idx = s->sin6_addr.s6_addr[15];
		fam = len == sizeof *s ? 6 : 0;
	}
	if (c <= 0) {
		sim_ev("\"e\":\"conn\",\"c\":%d,\"a\":%d,\"port\":%d,\"rc\":-1,\"fam\":%d", c, idx, port, fam);
		errno = EBADF;
		return -1;
	}
	if (simnet.stick_conn && --simnet.stick_conn == 0) {
		simnet.stuck = true;
		sim_block(NULL, NULL, sim_now() + 60000ull * NS_PER_MS, true);
		sim_testcancel();
	}
	if (sim_p(simnet.p_connslow)) {
		/* may be cancelled while connecting */
		sim_block(NULL, NULL, sim_now() + (1 + sim_crand() % 4000) * NS_PER_MS, true);
		sim_testcancel();
	}
	if (fault(simnet.p_conn)) {
		sim_ev("\"e\":\"conn\",\"c\":%d,\"a\":%d,\"port\":%d,\"rc\":-1,\"fam\":%d", c, idx, port, fam);
		errno = ECONNREFUSED;
		return -1;
	}
	C[c].state = C_UP;
	newest = c;
	++nConnects;
	sim_ev("\"e\":\"conn\",\"c\":%d,\"a\":%d,\"port\":%d,\"rc\":0,\"fam\":%d", c, idx, port, fam);
	return 0;
}

struct snd { struct conn * c; };
static bool sendUnblock(void * p)
{
	struct conn * c = p;
	return c->shut || c->reset;
}

ssize_t __wrap_send(int fd, const void * buf, size_t len, int flags)
{
	sim_yield();
	sim_testcancel();
	int c = cid(fd);
	if (c <= 0) {
		sim_ev("\"e\":\"send\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = EBADF;
		return -1;
	}
	struct conn * k = &C[c];
	if (k->state != C_UP) {
		sim_ev("\"e\":\"send\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = ENOTCONN;
		return -1;
	}
	if (k->nb)
		flags |= MSG_DONTWAIT;
	if (flags & MSG_DONTWAIT) {
		if (sim_p(simnet.p_sendblock) && !k->shut && !k->reset) {
			errno = EAGAIN;
			return -1;
		}
	} else if (simnet.stick_send && !k->shut && !k->reset && --simnet.stick_send == 0) {
		simnet.stuck = true;
		sim_block(sendUnblock, k, sim_now() + 60000ull * NS_PER_MS, true);
		if (!k->shut && !k->reset)
			sim_testcancel();
	}
	if (!(flags & MSG_DONTWAIT) && sim_p(simnet.p_sendblock) && !k->shut && !k->reset) {
		sim_block(sendUnblock, k, sim_now() + (1 + sim_crand() % 3000) * NS_PER_MS, true);
		if (!k->shut && !k->reset)
			sim_testcancel();
	}
	if (!(flags & MSG_NOSIGNAL) && (k->shut || k->reset))
		sim_ev("\"e\":\"sigpipe\",\"c\":%d", c);
	if (k->shut || k->reset) {
		sim_ev("\"e\":\"send\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = EPIPE;
		return -1;
	}
	if (k->eof && sim_p(500)) {
		/* the peer answers data after its close with a reset */
		k->reset = true;
	}
	if (fault(simnet.p_senderr)) {
		k->reset = true;
		sim_ev("\"e\":\"send\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = ECONNRESET;
		return -1;
	}
	size_t n = len;
	if (len > 1 && sim_p(simnet.p_part))
		n = 1 + sim_crand() % (len - 1);
	sim_ev("\"e\":\"send\",\"c\":%d,\"l\":%zu,\"rc\":%zd,\"b\":%s", c, len, (ssize_t)n, sim_bytes(buf, n));
	if (simnet_on_tx)
		simnet_on_tx(c, buf, n);
	return n;
}
ssize_t __wrap_write(int fd, const void * buf, size_t len);
extern ssize_t __real_write(int fd, const void * buf, size_t len);
static ssize_t ttyWrite(int c, const void * buf, size_t len);
static ssize_t ttyRead(int c, void * buf, size_t len);
ssize_t __wrap_write(int fd, const void * buf, size_t len)
{
	if (fd >= FD0) {
		sim_yield();
		sim_testcancel();
		if (cid(fd) > 0 && C[cid(fd)].tty)
			return ttyWrite(cid(fd), buf, len);
	}
	if (fd >= FD0)
		return __wrap_send(fd, buf, len, 0);
	return __real_write(fd, buf, len);
}

static bool rxReady(void * p)
{
	struct conn * k = p;
	return k->rxn || k->eof || k->reset || k->shut;
}

static ssize_t recv1(int fd, void * buf, size_t len, int flags);
ssize_t __wrap_recv(int fd, void * buf, size_t len, int flags)
{
	if (!(flags & MSG_WAITALL))
		return recv1(fd, buf, len, flags);
	size_t n = 0;
	do {
		ssize_t r = recv1(fd, (uint8_t *)buf + n, len - n, flags);
		if (r <= 0)
			return n ? (ssize_t)n : r;
		n += r;
	} while (n < len);
	return n;
}
static ssize_t recv1(int fd, void * buf, size_t len, int flags)
{
	sim_yield();
	sim_testcancel();
	int c = cid(fd);
	if (c <= 0) {
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = EBADF;
		return -1;
	}
	struct conn * k = &C[c];
	if (k->state != C_UP) {
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = ENOTCONN;
		return -1;
	}
	if (!rxReady(k) && (k->nb || (flags & MSG_DONTWAIT))) {
		errno = EAGAIN;
		return -1;
	}
	if (!rxReady(k)) {
		sim_ev("\"e\":\"recvw\",\"c\":%d", c);
		sim_block(rxReady, k, 0, true);
		if (!rxReady(k))
			sim_testcancel();
	}
	if (len == 0) {
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":0,\"rc\":0,\"b\":[]", c);
		return 0;
	}
	if (fault(simnet.p_recverr))
		k->reset = true;
	if (k->reset && !k->shut) {
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = ECONNRESET;
		return -1;
	}
	if (!k->rxn) {
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":0,\"b\":[]", c, len);
		return 0;
	}
	size_t n = k->rxn < len ? k->rxn : len;
	if (n > 1 && sim_p(simnet.p_recvpart))
		n = 1 + sim_crand() % (n - 1);
	memcpy(buf, k->rx, n);
	if (flags & MSG_PEEK)
		return n;
	memmove(k->rx, k->rx + n, k->rxn - n);
	k->rxn -= n;
	sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":%zd,\"b\":%s", c, len, (ssize_t)n, sim_bytes(buf, n));
	return n;
}
extern ssize_t __real_read(int fd, void * buf, size_t len);
ssize_t __wrap_read(int fd, void * buf, size_t len)
{
	if (fd >= FD0) {
		sim_yield();
		sim_testcancel();
		if (cid(fd) > 0 && C[cid(fd)].tty)
			return ttyRead(cid(fd), buf, len);
	}
	if (fd >= FD0)
		return __wrap_recv(fd, buf, len, 0);
	return __real_read(fd, buf, len);
}

int __wrap_shutdown(int fd, int how)
{
	int c = cid(fd);
	int rc = c > 0 && C[c].state == C_UP ? 0 : -1;
	sim_ev("\"e\":\"shutdown\",\"c\":%d,\"rc\":%d,\"how\":%d", c, rc, how);
	if (rc) {
		errno = c > 0 ? ENOTCONN : EBADF;
		return -1;
	}
	if (how == SHUT_RDWR)
		C[c].shut = true;
	sim_yield();
	return 0;
}

int __wrap_close(int fd)
{
	if (fd >= 0 && fd < FD0)
		return __real_close(fd);
	sim_testcancel();
	int c = cid(fd);
	sim_ev("\"e\":\"close\",\"c\":%d", c);
	if (c <= 0) {
		errno = EBADF;
		return -1;
	}
	fds[fd - FD0] = 0;
	C[c].state = C_CLOSED;
	sim_yield();
	return 0;
}
/* ----------------------------------------------------------- terminals --- */
extern int __real_open(const char * path, int flags, mode_t mode);
int __wrap_open(const char * path, int flags, mode_t mode)
{
	if (strncmp(path, "/dev/tty", 8))
		return __real_open(path, flags, mode);
	sim_yield();
	sim_testcancel();
	int i;
	for (i = 0; i < 64 && fds[i]; ++i) {}
	if (i == 64 || nC + 1 >= MAXC || fault(simnet.p_open)) {
		sim_ev("\"e\":\"open\",\"c\":0");
		errno = ENXIO;
		return -1;
	}
	int c = ++nC;
	memset(&C[c], 0, sizeof C[c]);
	C[c].state = C_UP;
	C[c].tty = true;
	C[c].fd = FD0 + i;
	fds[i] = c;
	newest = c;
	++nConnects;
	sim_ev("\"e\":\"open\",\"c\":%d", c);
	return FD0 + i;
}
int __wrap_tcgetattr(int fd, struct termios * t)
{
	int c = cid(fd);
	bool ok = c > 0 && C[c].tty && !fault(simnet.p_tty);
	memset(t, 0, sizeof *t);
	t->c_lflag = ISIG | ICANON | IEXTEN | ECHO;
	sim_ev("\"e\":\"tget\",\"c\":%d,\"rc\":%d", c, ok ? 0 : -1);
	errno = EIO;
	return ok ? 0 : -1;
}
int __wrap_tcsetattr(int fd, int act, const struct termios * t)
{
	int c = cid(fd);
	bool ok = c > 0 && C[c].tty && !fault(simnet.p_tty);
	speed_t s = cfgetospeed(t);
	sim_ev("\"e\":\"tset\",\"c\":%d,\"rc\":%d,\"sp\":%d,\"same\":%d,\"par\":%d,\"hs\":%d,\"raw\":%d,\"cs8\":%d", c, ok ? 0 : -1,
		s == B9600 ? 9600 : s == B115200 ? 115200 : s == B3500000 ? 3500000 : 0, cfgetispeed(t) == s,
		t->c_cflag & PARENB ? t->c_cflag & PARODD ? 1 : 2 : 0, !!(t->c_cflag & CRTSCTS),
		!(t->c_lflag & (ISIG | ICANON | IEXTEN | ECHO)), (t->c_cflag & CSIZE) == CS8 && (t->c_cflag & CREAD) && (t->c_cflag & CLOCAL));
	errno = EIO;
	return ok ? 0 : -1;
}
int __wrap_tcflush(int fd, int q) { return 0; }
int __wrap_tcdrain(int fd)
{
	sim_yield();
	sim_testcancel();
	return 0;
}
static ssize_t ttyWrite(int c, const void * buf, size_t len)
{
	struct conn * k = &C[c];
	ssize_t n = len;
	bool once = fault(simnet.p_ttywrite);
	if (once && sim_crand() % 2)
		k->reset = true; /* gone for good */
	if (k->reset || once)
		n = len > 1 && sim_p(300) ? 1 + sim_crand() % (len - 1) : -1;
	sim_ev("\"e\":\"send\",\"c\":%d,\"l\":%zu,\"rc\":%zd,\"b\":%s", c, len, n, sim_bytes(buf, n > 0 ? n : 0));
	errno = EIO;
	return n;
}
static ssize_t ttyRead(int c, void * buf, size_t len)
{
	struct conn * k = &C[c];
	if (fault(simnet.p_recverr))
		k->reset = true;
	if (k->reset) {
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":-1,\"b\":[]", c, len);
		errno = EIO;
		return -1;
	}
	if (!k->rxn) {
		/* nothing there: either answer is possible */
		bool again = sim_p(500);
		sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":-2,\"b\":[]", c, len);
		errno = EAGAIN;
		return again ? -1 : 0;
	}
	size_t n = k->rxn < len ? k->rxn : len;
	if (n > 1 && sim_p(simnet.p_recvpart))
		n = 1 + sim_crand() % (n - 1);
	memcpy(buf, k->rx, n);
	memmove(k->rx, k->rx + n, k->rxn - n);
	k->rxn -= n;
	sim_ev("\"e\":\"recv\",\"c\":%d,\"l\":%zu,\"rc\":%zd,\"b\":%s", c, len, (ssize_t)n, sim_bytes(buf, n));
	return n;
}
struct pollset { struct pollfd * f; nfds_t n; };
static short pollOf(struct pollfd * f)
{
	int c = cid(f->fd);
	if (c < 0)
		return 0;
	if (!c)
		return POLLNVAL;
	struct conn * k = &C[c];
	short r = 0;
	if (rxReady(k))
		r |= POLLIN;
	r |= POLLOUT;
	if (!k->tty && k->eof)
		r |= POLLRDHUP;
	r &= f->events;
	if (k->reset || k->shut)
		r |= POLLHUP;
	return r;
}
static bool pollReady(void * p)
{
	struct pollset * s = p;
	for (nfds_t i = 0; i < s->n; ++i)
		if (pollOf(&s->f[i]))
			return true;
	return false;
}
/* timeout in ns, UINT64_MAX: none */
static int doPoll(struct pollfd * f, nfds_t n, uint64_t timeout)
{
	sim_yield();
	sim_testcancel();
	struct pollset s = { f, n };
	if (n == 1 && timeout == UINT64_MAX) {
		int c = cid(f->fd);
		if (c <= 0) {
			sim_ev("\"e\":\"poll\",\"c\":%d,\"rc\":-1", c);
			errno = EBADF;
			return -1;
		}
		sim_ev("\"e\":\"poll\",\"c\":%d,\"rc\":0", c);
	}
	if (timeout && !pollReady(&s)) {
		sim_block(pollReady, &s, timeout == UINT64_MAX ? 0 : sim_now() + timeout, true);
		if (!pollReady(&s))
			sim_testcancel();
	}
	int r = 0;
	for (nfds_t i = 0; i < n; ++i)
		r += !!(f[i].revents = pollOf(&f[i]));
	return r;
}
int __wrap_poll(struct pollfd * f, nfds_t n, int timeout)
{
	return doPoll(f, n, timeout < 0 ? UINT64_MAX : (uint64_t)timeout * NS_PER_MS);
}
int __wrap_ppoll(struct pollfd * f, nfds_t n, const struct timespec * ts, const sigset_t * m)
{
	return doPoll(f, n, ts ? ts->tv_sec * 1000000000ull + ts->tv_nsec : UINT64_MAX);
}
extern int __real_select(int n, fd_set * r, fd_set * w, fd_set * e, struct timeval * t);
int __wrap_select(int n, fd_set * r, fd_set * w, fd_set * e, struct timeval * t)
{
	/* the descriptors used here lie within the range of fd_set */
	uint64_t timeout = t ? t->tv_sec * 1000000000ull + t->tv_usec * 1000ull : UINT64_MAX;
	struct pollfd f[64];
	nfds_t k = 0;
	for (int fd = FD0; fd < n && fd < FD_SETSIZE; ++fd) {
		short ev = (r && FD_ISSET(fd, r) ? POLLIN : 0) | (w && FD_ISSET(fd, w) ? POLLOUT : 0);
		if (ev || (e && FD_ISSET(fd, e)))
			f[k++] = (struct pollfd){ .fd = fd, .events = ev };
	}
	int rc = doPoll(f, k, timeout);
	if (rc < 0)
		return rc;
	if (r)
		FD_ZERO(r);
	if (w)
		FD_ZERO(w);
	if (e)
		FD_ZERO(e);
	rc = 0;
	for (nfds_t i = 0; i < k; ++i) {
		if (r && (f[i].events & POLLIN) && (f[i].revents & (POLLIN | POLLHUP))) {
			FD_SET(f[i].fd, r);
			++rc;
		}
		if (w && (f[i].revents & POLLOUT)) {
			FD_SET(f[i].fd, w);
			++rc;
		}
	}
	return rc;
}

/* ------------------------------------------ other ways to say the same --- */
ssize_t __wrap_sendto(int fd, const void * b, size_t l, int fl, const struct sockaddr * sa, socklen_t sl)
{
	return __wrap_send(fd, b, l, fl);
}
ssize_t __wrap_recvfrom(int fd, void * b, size_t l, int fl, struct sockaddr * sa, socklen_t * sl)
{
	return __wrap_recv(fd, b, l, fl);
}
extern ssize_t __real_writev(int fd, const struct iovec * v, int n);
static uint8_t * flat(const struct iovec * v, int n, size_t * len)
{
	*len = 0;
	for (int i = 0; i < n; ++i)
		*len += v[i].iov_len;
	uint8_t * b = __real_malloc(*len + 1);
	size_t o = 0;
	for (int i = 0; i < n; ++i) {
		memcpy(b + o, v[i].iov_base, v[i].iov_len);
		o += v[i].iov_len;
	}
	return b;
}
static void unflat(void * b) { __real_free(b); }
ssize_t __wrap_writev(int fd, const struct iovec * v, int n)
{
	if (fd < FD0)
		return __real_writev(fd, v, n);
	size_t l;
	uint8_t * b = flat(v, n, &l);
	ssize_t rc;
	pthread_cleanup_push(unflat, b);
	rc = __wrap_write(fd, b, l);
	pthread_cleanup_pop(1);
	return rc;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr * m, int fl)
{
	size_t l;
	uint8_t * b = flat(m->msg_iov, m->msg_iovlen, &l);
	ssize_t rc;
	pthread_cleanup_push(unflat, b);
	rc = __wrap_send(fd, b, l, fl);
	pthread_cleanup_pop(1);
	return rc;
}
/* a short read is always possible: only the first part is filled */
extern ssize_t __real_readv(int fd, const struct iovec * v, int n);
static int first(const struct iovec * v, int n)
{
	int i = 0;
	while (i + 1 < n && !v[i].iov_len)
		++i;
	return i;
}
ssize_t __wrap_readv(int fd, const struct iovec * v, int n)
{
	if (fd < FD0)
		return __real_readv(fd, v, n);
	int i = first(v, n);
	return __wrap_read(fd, v[i].iov_base, v[i].iov_len);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr * m, int fl)
{
	int i = first(m->msg_iov, m->msg_iovlen);
	m->msg_flags = 0;
	return __wrap_recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl);
}
extern int __real_fcntl(int fd, int cmd, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	void * arg = va_arg(ap, void *);
	va_end(ap);
	if (fd < FD0)
		return __real_fcntl(fd, cmd, arg);
	int c = cid(fd);
	if (c <= 0) {
		errno = EBADF;
		return -1;
	}
	switch (cmd) {
	case F_GETFL: return O_RDWR | (C[c].nb ? O_NONBLOCK : 0);
	case F_SETFL: C[c].nb = ((long)arg & O_NONBLOCK) && !C[c].tty; return 0;
	case F_GETFD: return FD_CLOEXEC;
	case F_SETFD: return 0;
	}
	errno = EINVAL;
	return -1;
}
extern int __real_openat(int dir, const char * path, int flags, mode_t mode);
int __wrap_openat(int dir, const char * path, int flags, mode_t mode)
{
	return *path == '/' ? __wrap_open(path, flags, mode) : __real_openat(dir, path, flags, mode);
}
int __wrap_setsockopt(int fd, int l, int n, const void * v, socklen_t len) { return 0; }
int __wrap_getsockopt(int fd, int l, int n, void * v, socklen_t * len) { if (v && len && *len >= 4) memset(v, 0, 4); return 0; }

/* ---------------------------------------------------------------- peer --- */
void srv_data(int c, const void * buf, size_t len)
{
	struct conn * k = &C[c];
	if (!srv_up(c))
		return;
	if (k->rxn + len > k->rxcap) {
		k->rxcap = (k->rxn + len) * 2;
		uint8_t * n = __real_malloc(k->rxcap);
		memcpy(n, k->rx, k->rxn);
		__real_free(k->rx);
		k->rx = n;
	}
	memcpy(k->rx + k->rxn, buf, len);
	k->rxn += len;
	sim_ev("\"e\":\"srv\",\"op\":\"data\",\"c\":%d,\"b\":%s", c, sim_bytes(buf, len));
}
void srv_close(int c)
{
	if (!srv_up(c))
		return;
	C[c].eof = true;
	sim_ev("\"e\":\"srv\",\"op\":\"close\",\"c\":%d,\"b\":[]", c);
}
void srv_reset(int c)
{
	if (!srv_up(c))
		return;
	C[c].reset = true;
	sim_ev("\"e\":\"srv\",\"op\":\"reset\",\"c\":%d,\"b\":[]", c);
}
