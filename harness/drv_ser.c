/* Driver for util/serial_eth.c: the serial number out of the hardware address,
 * the configuration and the login, with every failure of the lookups. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <linux/if.h>
#include <linux/if_arp.h>
#include "util/serial_eth.h"
#include "util/cfgfile.h"
#include "core/serial.h"
#include "core/login.h"
#include "util/log.h"
#include "sim.h"

/* the world */
static bool sockOk, devOk, sysOk, ether;
static uint8_t mac[6];
static int sysForm; /* 0: the address, >0: something else */
static char lastDev[40], lastPath[200], devName[40];
static int nOpen;
static FILE * sysFile;
static int sysFd = -1;

int __wrap_socket(int d, int t, int p)
{
	if (!sockOk) {
		errno = sim_rand_n(2) ? EMFILE : ENOBUFS;
		return -1;
	}
	++nOpen;
	return 700;
}
extern int __real_close(int);
int __wrap_close(int fd)
{
	if (fd >= 700) {
		if (--nOpen < 0)
			sim_ev("\"e\":\"badclose\"");
		return 0;
	}
	if (fd == sysFd && fd >= 0) {
		--nOpen;
		sysFd = -1;
	}
	return __real_close(fd);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	if (fd != 700 || req != SIOCGIFHWADDR) {
		errno = EBADF;
		return -1;
	}
	snprintf(lastDev, sizeof lastDev, "%.*s", IFNAMSIZ, r->ifr_name);
	if (!devOk || strncmp(r->ifr_name, devName, IFNAMSIZ)) {
		errno = ENODEV;
		return -1;
	}
	memset(&r->ifr_hwaddr, 0, sizeof r->ifr_hwaddr);
	r->ifr_hwaddr.sa_family = ether ? ARPHRD_ETHER : ARPHRD_LOOPBACK;
	memcpy(r->ifr_hwaddr.sa_data, mac, 6);
	return 0;
}
extern FILE * __real_fopen(const char *, const char *);
extern int __real_fclose(FILE *);
static const char * sysOpen(const char * p);
FILE * __wrap_fopen(const char * p, const char * m)
{
	if (strncmp(p, "/sys", 4))
		return __real_fopen(p, m);
	const char * b = sysOpen(p);
	return sysFile = !b ? NULL : *b ? fmemopen((void *)b, strlen(b), "r") : __real_fopen("/dev/null", "r");
}
extern int __real_open(const char *, int, int);
int __wrap_open(const char * p, int fl, int md)
{
	if (strncmp(p, "/sys", 4))
		return __real_open(p, fl, md);
	const char * b = sysOpen(p);
	if (!b)
		return -1;
	sysFd = memfd_create("sys", 0);
	if (write(sysFd, b, strlen(b)) < 0 || lseek(sysFd, 0, SEEK_SET) < 0)
		return -1;
	return sysFd;
}
extern FILE * __real_fdopen(int, const char *);
FILE * __wrap_fdopen(int fd, const char * m)
{
	FILE * f = __real_fdopen(fd, m);
	if (f && fd == sysFd && fd >= 0) {
		sysFile = f;
		sysFd = -1;
	}
	return f;
}
static const char * sysOpen(const char * p)
{
	snprintf(lastPath, sizeof lastPath, "%s", p);
	char good[80];
	snprintf(good, sizeof good, "/sys/class/net/%s/address", devName);
	if (!sysOk || strcmp(p, good)) {
		errno = ENOENT;
		return NULL;
	}
	static char b[200];
	static const char * const forms[] = { "", "\n", "00:11:22\n", "nothing here\n", "12:34:56:78:9a\n", "12:34:56:78:9a:", "12:34:56:78:9a:zz\n",
		"00-11-22-33-44-55\n" };
	if (sysForm == 0)
		sprintf(b, "%02x:%02x:%02x:%02x:%02x:%02x\n", mac[0], mac[1], mac[2], mac[3], mac[4], mac[5]);
	else
		strcpy(b, forms[sysForm - 1]);
	++nOpen;
	return b;
}
int __wrap_fclose(FILE * f)
{
	if (f == sysFile && f) {
		--nOpen;
		sysFile = NULL;
	}
	return __real_fclose(f);
}

enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial) { return SERIAL_ETH_getSerial(serial); }
bool GPS_sendPosition() { return true; }
static bool netOk;
bool NET_send(const void * buf, size_t len)
{
	sim_ev("\"e\":\"send\",\"b\":%s,\"r\":%d", sim_bytes(buf, len), netOk);
	return netOk;
}

static const char * u32(uint32_t x)
{
	uint8_t b[4] = { x >> 24, x >> 16, x >> 8, x };
	return sim_bytes(b, 4);
}
static const char * world(void)
{
	static char b[200];
	sprintf(b, "\"mac\":%s,\"sock\":%d,\"sys\":%d,\"eth\":%d", sim_bytes(mac, 6), sockOk && devOk, sysOk && sysForm == 0, ether);
	return b;
}
static void get(void)
{
	uint32_t x = 0xdeadbeef;
	bool p = sim_rand_n(3);
	nOpen = 0;
	enum SERIAL_RETURN r = SERIAL_ETH_getSerial(p ? &x : NULL);
	static const char * const n[] = { [SERIAL_RETURN_FAIL_TEMP] = "temp", [SERIAL_RETURN_FAIL_NET] = "net", [SERIAL_RETURN_FAIL_PERM] = "perm",
		[SERIAL_RETURN_SUCCESS] = "ok" };
	sim_ev("\"e\":\"get\",\"r\":\"%s\",\"p\":%d,\"x\":%s,\"open\":%d,%s", (unsigned)r < 4 ? n[r] : "?", p, u32(x), nOpen, world());
}
static char dir[30], path[60];
static void run(unsigned i)
{
	strcpy(dir, "serXXXXXX");
	if (!mkdtemp(dir))
		abort();
	snprintf(path, sizeof path, "%s/c.conf", dir);
	bool env = sim_rand_n(2);
	strcpy(devName, "eth0");
	if (env) {
#ifdef LOCAL_FILES
		strcpy(devName, sim_rand_n(2) ? "enp0s31f6" : "abcdefghijklmno");
#endif
		setenv("OPENSKY_ETHER_DEV", sim_rand_n(8) ? "enp0s31f6" : "abcdefghijklmno", 1);
#ifdef LOCAL_FILES
		setenv("OPENSKY_ETHER_DEV", devName, 1);
#endif
	} else
		unsetenv("OPENSKY_ETHER_DEV");
	COMP_register(&SERIAL_comp);
	COMP_fixup();
	LOGIN_setDeviceType(1);
	CFG_loadDefaults();
	sim_meta("\"k\":\"ser\"");
	bool saved = false;
	for (unsigned k = 5 + sim_rand_n(25); k; --k)
		switch (sim_rand_n(10)) {
		case 0:
			CFG_loadDefaults();
			sim_ev("\"e\":\"defaults\"");
			break;
		case 1: {
			uint32_t v = sim_rand_n(3) ? sim_rand() : sim_rand_n(3) - 1;
			char b[60];
			bool none = sim_rand_n(3) == 0;
			int n = none ? sprintf(b, "[Device]\nserial =\n") : sprintf(b, "[Device]\nserial = %u\n", v);
			int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
			if (write(fd, b, n) != n)
				abort();
			__real_close(fd);
			saved = false;
			bool r = CFG_readFile(path, true, true, sim_rand_n(2));
			sim_ev("\"e\":\"config\",\"r\":%d,\"none\":%d,\"x\":%s", r, none, u32(v));
			break;
		}
		case 2: {
			bool r = CFG_write(path);
			saved = true;
			sim_ev("\"e\":\"save\",\"r\":%d", r);
			break;
		}
		case 3:
			if (saved) {
				CFG_loadDefaults();
				bool r = CFG_readFile(path, true, true, sim_rand_n(2));
				sim_ev("\"e\":\"restart\",\"r\":%d", r);
			}
			break;
		case 4: case 5:
			sockOk = sim_rand_n(3);
			devOk = sim_rand_n(3);
			sysOk = sim_rand_n(3);
			ether = sim_rand_n(6);
			sysForm = sim_rand_n(2) ? 0 : sim_rand_n(9);
			for (int j = 0; j < 6; ++j)
				mac[j] = sim_rand_n(4) ? sim_rand() : sim_rand_n(2) ? 0xff : sim_rand_n(2) ? 0x80 : 0;
			break;
		case 6:
			netOk = sim_rand_n(4);
			nOpen = 0;
			sim_ev("\"e\":\"login\",%s", world());
			{
				bool r = LOGIN_login();
				sim_ev("\"e\":\"loggedin\",\"r\":%d,\"open\":%d", r, nOpen);
			}
			break;
		default:
			get();
		}
	unlink(path);
	rmdir(dir);
	sim_done();
}
/* the process ends with an emergency: remove what is there */
void glue_on_log(int level, const char * prefix, const char * msg)
{
	if (level == LOG_LEVEL_EMERG) {
		unlink(path);
		rmdir(dir);
	}
}
static unsigned nscen(void) { return 8; }
static const char * name(unsigned i) { return "ser"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
