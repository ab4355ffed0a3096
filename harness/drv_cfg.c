/* Driver for util/cfgfile.c: files read, written and read back, directories. */
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "util/cfgfile.h"
#include "sim.h"

/* the file is mapped onto memory of exactly its size, so that reading beyond
 * its end is noticed */
extern void * __real_mmap(void *, size_t, int, int, int, off_t);
extern int __real_munmap(void *, size_t);
static void * mapped;
static size_t mappedLen;
void * __wrap_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	if (fd < 0)
		return __real_mmap(a, len, prot, flags, fd, off);
	if (len == 0) {
		errno = EINVAL;
		return MAP_FAILED;
	}
	char * p = malloc(len);
	if (pread(fd, p, len, off) != (ssize_t)len)
		abort();
	mapped = p;
	mappedLen = len;
	return p;
}
static bool badUnmap;
int __wrap_munmap(void * a, size_t len)
{
	if (mapped && a == mapped) {
		if (len != mappedLen)
			badUnmap = true;
		free(a);
		mapped = NULL;
		return 0;
	}
	if (!a && !len) {
		errno = EINVAL;
		return -1;
	}
	return __real_munmap(a, len);
}
/* a file which cannot be opened */
static bool ex(const char * x) { return sim_opt.extra && strstr(sim_opt.extra, x); }
static unsigned warned;
void glue_on_log(int level, const char * prefix, const char * msg) { ++warned; }

/* ---------------------------------------------------------------- options */
static char vStr[8], vHost[16], vName[4];
static uint32_t vNum, vId;
static bool vFlag, vOn;
static uint_fast16_t vPort;
static double vDbl, vLat;
static bool gId, gLat, gName;
static unsigned fixed;
static bool checkOk, checkedA, checkedB;
static void fixA(const struct CFG_Section * s) { ++fixed; if (vNum < 2) vNum = 2; }
static bool checkA(const struct CFG_Section * s) { checkedA = true; return vPort != 0; }
static bool checkB(const struct CFG_Section * s) { checkedB = true; return vNum != 3; }
static const struct CFG_Section sA = { .name = "Alpha", .fix = &fixA, .check = &checkA, .n_opt = 5, .options = {
	{ .name = "str", .type = CFG_VALUE_TYPE_STRING, .var = vStr, .maxlen = sizeof vStr, .def = { .string = "dflt" } },
	{ .name = "Num", .type = CFG_VALUE_TYPE_INT, .var = &vNum, .def = { .integer = 7 } },
	{ .name = "flag", .type = CFG_VALUE_TYPE_BOOL, .var = &vFlag, .def = { .boolean = true } },
	{ .name = "PORT", .type = CFG_VALUE_TYPE_PORT, .var = &vPort, .def = { .port = 10003 } },
	{ .name = "a", .type = CFG_VALUE_TYPE_DOUBLE, .var = &vDbl, .def = { .dbl = 1.5 } } } };
static const struct CFG_Section sB = { .name = "beta", .check = &checkB, .n_opt = 4, .options = {
	{ .name = "id", .type = CFG_VALUE_TYPE_INT, .var = &vId, .given = &gId, .defaultEmpty = true },
	{ .name = "Lat", .type = CFG_VALUE_TYPE_DOUBLE, .var = &vLat, .given = &gLat },
	{ .name = "name", .type = CFG_VALUE_TYPE_STRING, .var = vName, .maxlen = sizeof vName, .given = &gName, .defaultEmpty = true },
	{ .name = "on", .type = CFG_VALUE_TYPE_BOOL, .var = &vOn } } };
/* another section with a name which is there already */
static const struct CFG_Section sC = { .name = "ALPHA", .n_opt = 1, .options = {
	{ .name = "host", .type = CFG_VALUE_TYPE_STRING, .var = vHost, .maxlen = sizeof vHost, .def = { .string = "localhost" } } } };
static const struct CFG_Section * const secs[] = { &sA, &sB, &sC };

#define NSECS 3
#include "cfgdump.h"
/* ------------------------------------------------------------------ files */
static char dir[200], path[300];
static void put(const char * f, const char * b, size_t n)
{
	int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, b, n) != (ssize_t)n)
		abort();
	close(fd);
}
static void defaults(void)
{
	memset(vStr, 0xee, sizeof vStr);
	memset(vHost, 0xee, sizeof vHost);
	memset(vName, 0xee, sizeof vName);
	vNum = vId = 0xeeeeeeee;
	vFlag = vOn = gId = gLat = gName = true;
	vPort = 0xeeee;
	vDbl = vLat = 99;
	CFG_loadDefaults();
	sim_ev("\"e\":\"defaults\",%s", all());
}
static void after(const char * e, int ret, const char * more)
{
	sim_ev("\"e\":\"%s\",\"ret\":%d,\"log\":%d,%s,\"fix\":%d,\"unm\":%d%s", e, ret, warned != 0, all(), fixed != 0, mapped || badUnmap, more);
}
static void readFile(const char * b, size_t n, bool strict, bool wS, bool wO)
{
	char more[12000];
	put(path, b, n);
	warned = fixed = 0;
	bool r = CFG_readFile(path, wS, wO, !strict);
	int k = sprintf(more, ",\"strict\":%d,\"ws\":%d,\"wo\":%d,\"b\":", strict, wS, wO);
	hex(more + k, b, n);
	after("read", r, more);
}
static void check(void)
{
	checkedA = checkedB = false;
	bool r = CFG_check();
	sim_ev("\"e\":\"check\",\"ret\":%d,\"a\":%d,\"b\":%d", r, checkedA, checkedB);
}
static size_t slurp(const char * f, char * o, size_t max)
{
	int fd = open(f, O_RDONLY);
	ssize_t n = fd < 0 ? 0 : read(fd, o, max);
	close(fd);
	return n;
}
/* write everything or a section, read it back on top of the defaults */
static void roundtrip(int sec)
{
	char b[4000], more[12000];
	warned = 0;
	unlink(path);
	bool r = sec < 0 ? CFG_write(path) : CFG_writeSection(path, secs[sec]);
	size_t n = slurp(path, b, sizeof b);
	int k = sprintf(more, ",\"sec\":");
	k += sec < 0 ? sprintf(more + k, "[]") : hex(more + k, secs[sec]->name, strlen(secs[sec]->name));
	k += sprintf(more + k, ",\"strict\":1,\"ws\":1,\"wo\":1,\"b\":");
	hex(more + k, b, n);
	after("write", r, more);
	defaults();
	readFile(b, n, true, true, true);
	sim_ev("\"e\":\"same\"");
}
static void writeFail(void)
{
	char p[400];
	warned = 0;
	bool full = sim_rand_n(2);
	if (full)
		strcpy(p, "/dev/full");
	else
		sprintf(p, "%s/nodir/x.conf", dir);
	bool r = sim_rand_n(2) ? CFG_write(p) : CFG_writeSection(p, secs[sim_rand_n(3)]);
	after("wfail", r, "");
}
/* --------------------------------------------------------------- contents */
static const char * pick(const char * const * a, unsigned n) { return a[sim_rand_n(n)]; }
#define PICK(a) pick(a, sizeof a / sizeof *a)
static void cased(char * o, const char * s)
{
	bool any = sim_rand_n(2);
	for (; *s; ++s)
		*o++ = any && sim_rand_n(2) ? ((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z') ? *s ^ 32 : *s) : *s;
	*o = 0;
}
static size_t line(char * o)
{
	static const char * const sn[] = { "Alpha", "Alpha", "beta", "beta", "gamma", "", "Alpha ", "Alph", "Alphab" };
	static const char * const ws[] = { "", "", "", " ", "\t ", "  " };
	static const char * const ints[] = { "0", "1", "2", "42", "4294967295", "4294967296", "65535", "65536", "4294967301", "010", "0x1F", "0xffffffff",
		"0x100000000", "08", "12abc", "abc", "-1", "+5", "-0", "1 ", "9999999999999999999", "00000000000000000005", "18446744073709551615",
		"99999999999999999999999", "0x10000000000000000", "0x1fffffffffffffffe", "-0xffffffffffffffff", "-0xFFFFFFFF00000001", "-4294967291", "0x", "1;2", "  ", "", "true" };
	static const char * const dbls[] = { "0", "1.5", "-47.123456", "180.0", "0.000001", "1e3", "1.25e-7", "+8.5", "12abc", "abc", ".5", "5.", "-", ".",
		"-0.0", "123456789.987654", "1e", "1e+", "2.50", "000.100", "", " ",
		"0.0000000000000000000000000000000000000000000000000000000000000000000000001", "1000000000000000", "inf", "-Infinity", "nan", "in", "n", "-nan", "infx", "1e400", "-12e999" };
	static const char * const bools[] = { "true", "false", "1", "0", "TRUE", "False", "yes", "tru", "truee", "2", "true ", "", "01" };
	static const char * const strs[] = { "abcdefg", "abcdefgh", "x", "a b", "a=b", "[x]", ";c", "#", "\xff\x80", "dflt", "x ", "", "abc", "abcd",
		"abcdefghijklmno", "abcdefghijklmnop", "q\rr", "\"x\"" };
	static const char * const eol[] = { "\n", "\n", "\n", "\r\n", "\r\n", "\n\n", "\r\n\r\n" };
	char nm[40];
	int n = 0;
	switch (sim_rand_n(12)) {
	case 0:
	case 1:
		cased(nm, PICK(sn));
		n = sprintf(o, "[%s]", nm);
		if (sim_rand_n(30) == 0)
			n += sprintf(o + n, " ");
		if (sim_rand_n(40) == 0)
			--n;
		if (sim_rand_n(40) == 0)
			n += sprintf(o + n, "]");
		break;
	case 2:
		n = sprintf(o, "%s%s", sim_rand_n(2) ? ";" : "#", sim_rand_n(2) ? "num=5" : "[beta]");
		break;
	case 3:
		if (sim_rand_n(3) == 0)
			n = sprintf(o, "%s", sim_rand_n(2) ? "nothing" : "num");
		else if (sim_rand_n(2))
			n = sprintf(o, "\r");
		else if (sim_rand_n(4) == 0)
			for (unsigned k = sim_rand_n(30); k; --k)
				o[n++] = 1 + sim_rand_n(255);
		break;
	case 4: {
		static const char * const un[] = { "nu=1", "numx = 1", " num = 3", "=5", " = 5", "=", "str num = 4", "n\tum=3" };
		n = sprintf(o, "%s", PICK(un));
		break;
	}
	default: {
		const struct CFG_Section * s = secs[sim_rand_n(3)];
		const struct CFG_Option * p = &s->options[sim_rand_n(s->n_opt)];
		cased(nm, p->name);
		const char * v;
		switch (sim_rand_n(15) ? p->type : sim_rand_n(5)) {
		case CFG_VALUE_TYPE_INT:
		case CFG_VALUE_TYPE_PORT: v = PICK(ints); break;
		case CFG_VALUE_TYPE_DOUBLE: v = PICK(dbls); break;
		case CFG_VALUE_TYPE_BOOL: v = PICK(bools); break;
		default: v = PICK(strs);
		}
		n = sprintf(o, "%s%s=%s%s", nm, PICK(ws), PICK(ws), v);
	}
	}
	return n + sprintf(o + n, "%s", PICK(eol));
}
static size_t content(char * b, unsigned lines)
{
	size_t n = 0;
	if (sim_rand_n(4))
		n = sprintf(b, "[%s]\n", sim_rand_n(2) ? "Alpha" : "Beta");
	while (lines--)
		n += line(b + n);
	/* the last line is not always terminated */
	if (n && sim_rand_n(2))
		n -= b[n - 1] == '\n';
	if (n && sim_rand_n(20) == 0)
		n = sim_rand_n(n);
	return n;
}
static double anyDouble(void)
{
	switch (sim_rand_n(8)) {
	case 0: return 0;
	case 1: return (int)sim_rand_n(1800) - 900;
	case 2: return ((int)sim_rand_n(180000000) - 90000000) / 1e6;
	case 3: return ((int)sim_rand_n(2000000000) - 1000000000) / 1e7;
	case 4: return sim_rand() / 3.0;
	case 5: { union { uint64_t u; double d; } x; do x.u = (uint64_t)sim_rand() << 32 | sim_rand(); while (!isfinite(x.d)); return x.d; }
	case 6: return ldexp(sim_rand(), -80);
	default: return 1e-300 * sim_rand();
	}
}
static void values(void)
{
	static const char cs[] = "abcXYZ019 _-=;#[].\xe4\xff";
	vNum = sim_rand_n(2) ? sim_rand() : sim_rand_n(10);
	if (sim_rand_n(8) == 0)
		vNum = 0xffffffff;
	if (vNum < 2)
		vNum = 2;
	vFlag = sim_rand_n(2);
	vOn = sim_rand_n(2);
	vPort = sim_rand_n(3) ? sim_rand_n(65536) : 65535;
	vDbl = anyDouble();
	for (int i = 0; i < 3; ++i) {
		char * d = i == 0 ? vStr : i == 1 ? vHost : vName;
		size_t m = i == 0 ? sizeof vStr : i == 1 ? sizeof vHost : sizeof vName;
		size_t n = 1 + sim_rand_n(m - 1);
		for (size_t k = 0; k < n; ++k)
			do
				d[k] = cs[sim_rand_n(sizeof cs - 1)];
			while (k == 0 && d[k] == ' ');
		d[n] = 0;
	}
	gId = sim_rand_n(3);
	vId = gId ? sim_rand() : 0;
	gLat = sim_rand_n(3);
	vLat = anyDouble();
	gName = sim_rand_n(3);
	if (!gName)
		*vName = 0;
	sim_ev("\"e\":\"values\",%s", all());
}
static void setters(void)
{
	char b[40];
	for (unsigned k = 1 + sim_rand_n(6); k; --k)
		switch (sim_rand_n(6)) {
		case 0: { bool v = sim_rand_n(2); CFG_setBoolean("alpha", "FLAG", v); sim_ev("\"e\":\"set\",\"i\":3,\"x\":[%d],%s", v, all()); break; }
		case 1: { uint32_t v = sim_rand(); CFG_setInteger("ALPHA", "num", v);
			sprintf(b, "%u", v); sim_ev("\"e\":\"set\",\"i\":2,\"x\":%s,%s", sim_bytes(b, strlen(b)), all()); break; }
		case 2: { unsigned v = sim_rand_n(65536); CFG_setPort("Alpha", "Port", v);
			sprintf(b, "%u", v); sim_ev("\"e\":\"set\",\"i\":4,\"x\":%s,%s", sim_bytes(b, strlen(b)), all()); break; }
		case 3: { double v = anyDouble(); CFG_setDouble("BETA", "lat", v); char t[100]; dbl(t, v); sim_ev("\"e\":\"set\",\"i\":7,\"x\":%s,%s", t, all()); break; }
		case 4: { size_t n = sim_rand_n(20); memset(b, 'a' + sim_rand_n(26), n); b[n] = 0; CFG_setString("alpha", "host", b);
			sim_ev("\"e\":\"set\",\"i\":10,\"x\":%s,%s", sim_bytes(b, n), all()); break; }
		default: { size_t n = sim_rand_n(12); memset(b, 'a' + sim_rand_n(26), n); b[n] = 0; CFG_setString("alpha", "str", b);
			sim_ev("\"e\":\"set\",\"i\":1,\"x\":%s,%s", sim_bytes(b, n), all()); }
		}
}
static void directory(void)
{
	static const char * const nm[] = { "1.conf", "10-x.conf", "2.conf", "02.conf", "05-serial.conf", "9", "x1.conf", "3.conf~", "4.conf.bak", ".conf", "1conf",
		"100.conf", "7.CONF", "12345678901.conf", "8-", "6.conf", "30.conf", "03x.conf", "0.conf", ".5.conf", "a.conf", "010.conf", "08.conf", "9.conf", "0x3.conf", "0b1.conf",
		"4294967300.conf", "18446744073709551615.conf" };
	char d[300], f[500], b[2000];
	char * more = malloc(100000);
	static unsigned cnt;
	snprintf(d, sizeof d, "%s/d%u", dir, ++cnt);
	mkdir(d, 0700);
	bool strict = sim_rand_n(2), stop = sim_rand_n(2), same = sim_rand_n(2);
	int k = sprintf(more, ",\"strict\":%d,\"ws\":1,\"wo\":1,\"stop\":%d,\"files\":[", strict, stop);
	char made[16][300];
	int nm_ = 0;
	int missing = sim_rand_n(12) == 0;
	/* sometimes the directory has a name so long that not all file names fit behind it */
	size_t total = sim_rand_n(4) ? 0 : PATH_MAX - 1 - sim_rand_n(24);
	for (unsigned n = missing ? 0 : sim_rand_n(6); n; --n) {
		const char * x = PICK(nm);
		snprintf(f, sizeof f, "%s/%s", d, x);
		struct stat st;
		if (!lstat(f, &st))
			continue;
		size_t len = same ? (size_t)sprintf(b, "[alpha]\nnum=%u\n", 10 + n) : content(b, sim_rand_n(4));
		int kind = sim_rand_n(8); /* 0: directory, 1: link to a file, 2: link to nowhere */
		if (kind == 0)
			mkdir(f, 0700);
		else if (kind == 1) {
			char t[300];
			snprintf(t, sizeof t, "%s/target%d", dir, nm_);
			put(t, b, len);
			char lt[40]; /* as seen from the directory */
			snprintf(lt, sizeof lt, "../target%d", nm_);
			if (symlink(lt, f))
				abort();
		} else if (kind == 2) {
			if (symlink("nowhere", f))
				abort();
		} else
			put(f, b, len);
		k += sprintf(more + k, "%s{\"n\":", nm_ ? "," : "");
		k += hex(more + k, x, strlen(x));
		k += sprintf(more + k, ",\"kind\":\"%s\",\"b\":", kind == 0 ? "dir" : kind == 2 || (total && total + 1 + strlen(x) >= PATH_MAX) ? "none" : "file");
		k += hex(more + k, b, len);
		k += sprintf(more + k, "}");
		strcpy(made[nm_++], f);
	}
	sprintf(more + k, "],\"missing\":%d", missing);
	if (missing)
		rmdir(d);
	warned = fixed = 0;
	char lp[PATH_MAX + 1];
	strcpy(lp, d);
	if (total) {
		size_t l = strlen(lp);
		if ((total - l) % 2)
			lp[l++] = '/';
		for (; l < total; l += 2)
			memcpy(lp + l, "/.", 2);
		lp[l] = '\0';
	}
	bool r = CFG_readDirectory(lp, true, true, !strict, stop);
	after("dir", r, more);
	for (int i = 0; i < nm_; ++i)
		if (unlink(made[i]))
			rmdir(made[i]);
	rmdir(d);
	free(more);
}
/* ------------------------------------------------------------------- runs */
static void cleanup(void)
{
	unlink(path);
	for (int i = 0; i < 8; ++i) {
		char t[300];
		snprintf(t, sizeof t, "%s/target%d", dir, i);
		unlink(t);
	}
	rmdir(dir);
}
static const char alpha[] = "[]=a\n\r #1";
static void run(unsigned i)
{
	snprintf(dir, sizeof dir, "cfgXXXXXX");
	if (!mkdtemp(dir))
		abort();
	snprintf(path, sizeof path, "%s/x.conf", dir);
	for (int s = 0; s < 3; ++s)
		CFG_registerSection(secs[s]);
	meta();
	defaults();
	if (ex("enum")) {
		/* all files of some bytes, alone or behind the start of a section; the first byte belongs to the scenario */
		int len = ex("enum6") ? 6 : ex("enum5") ? 5 : 4, na = sizeof alpha - 1, pre = i / na;
		char b[40];
		for (int n = 1; n <= len; ++n) {
			unsigned long tot = 1;
			for (int k = 1; k < n; ++k)
				tot *= na;
			for (unsigned long c = 0; c < tot; ++c) {
				int p = pre ? sprintf(b, pre == 1 ? "[Alpha]\n" : "[alpha]\r\nA=2\r\n") : 0;
				unsigned long x = c;
				b[p++] = alpha[i % na];
				for (int k = 1; k < n; ++k, x /= na)
					b[p++] = alpha[x % na];
				vDbl = 7;
				warned = fixed = 0;
				put(path, b, p);
				bool strict = c % 2;
				bool r = CFG_readFile(path, true, true, !strict);
				char d[100];
				dbl(d, vDbl);
				sim_ev("\"e\":\"e\",\"r\":%d,\"s\":%d,\"b\":%s,\"d\":%s", r, strict, sim_bytes(b, p), d);
			}
		}
		vDbl = 1.5;
		readFile("[beta]\n", 7, false, true, true);
	} else
		for (unsigned k = 4 + sim_rand_n(30); k; --k)
			switch (sim_rand_n(16)) {
			case 0: defaults(); break;
			case 1: check(); break;
			case 2: case 3: if (!ex("read")) { values(); roundtrip(sim_rand_n(2) ? -1 : (int)sim_rand_n(3)); } break;
			case 4: if (!ex("read")) writeFail(); break;
			case 5: setters(); break;
			case 6: case 7: if (!ex("read")) directory(); break;
			case 8: {
				char more[200];
				warned = fixed = 0;
				char p[400];
				sprintf(p, "%s/missing.conf", dir);
				bool r = CFG_readFile(p, true, true, sim_rand_n(2));
				sprintf(more, " ");
				after("noread", r, "");
				break;
			}
			case 9: values(); break;
			default: {
				char b[3000];
				size_t n = content(b, sim_rand_n(8));
				if (sim_rand_n(30) == 0 && n)
					b[sim_rand_n(n)] = 0; /* anything may be in a file */
				readFile(b, n, sim_rand_n(2), sim_rand_n(4), sim_rand_n(4));
			}
			}
	CFG_unregisterAll();
	{
		/* nothing is known any more */
		put(path, "[alpha]\nnum=5\n", 14);
		warned = fixed = 0;
		bool r = CFG_readFile(path, true, true, true);
		after("none", r, "");
	}
	cleanup();
	sim_done();
}
static unsigned nscen(void) { return ex("enum") ? 3 * (sizeof alpha - 1) : 8; }
static const char * name(unsigned i) { return "cfg"; }
int main(int argc, char ** argv) { return sim_main(argc, argv, nscen, run, name); }
