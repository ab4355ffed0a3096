/* The libraries' log writes to streams of the driver: every piece is a scheduling point. */
#include <ostream>
#include <streambuf>
#ifdef GP
#include "gplib/opensky.hh"
#else
#include "radarcape/lib/opensky.hh"
#endif
extern "C" { void log_piece(int k, const char * s, size_t n); void log_sync(int k); void log_init(void); }
class Buf : public std::streambuf {
	int k;
public:
	Buf(int k) : k(k) {}
	int overflow(int c) { if (c != EOF) { char x = c; log_piece(k, &x, 1); } return c; }
	std::streamsize xsputn(const char * s, std::streamsize n) { log_piece(k, s, n); return n; }
	int sync() { log_sync(k); return 0; }
};
static Buf b1(0), b2(1);
static std::ostream s1(&b1), s2(&b2);
void log_init(void) { OpenSky::setLogStreams(s1, s2); }
