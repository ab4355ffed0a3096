/* C interface to the feeder libraries. GP: gplib, otherwise the radarcape library */
#include <cstdint>
#include <cstddef>
#ifdef GP
#include "gplib/opensky.hh"
#else
#include "radarcape/lib/opensky.hh"
#endif
extern "C" {
void lib_init(void) { OpenSky::init(); }
void lib_enable(void) { OpenSky::enable(); }
void lib_disable(void) { OpenSky::disable(); }
void lib_pos(double a, double b, double c) { OpenSky::setGpsPosition(a, b, c); }
#ifdef GP
void lib_configure(int type, uint32_t serial) { OpenSky::configure((OPENSKY_DEVICE_TYPE)type, serial); }
void lib_nopos(void) { OpenSky::unsetGpsPosition(); }
void lib_submit(uint64_t ts, bool utc, bool sync, int8_t rssi, const uint8_t * p, size_t n) { OpenSky::submitFrame(ts, utc, sync, rssi, p, n); }
#else
void lib_configure(int type, uint32_t serial) { OpenSky::configure(); }
void lib_status(int s) { OpenSky::setGpsTimeStatus((GpsTimeStatus_t)s); }
void lib_output(const uint8_t * m, int t) { OpenSky::output_message(m, (MessageType_T)t); }
#endif
}
