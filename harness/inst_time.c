/* The time comparison macros behind ordinary functions (library code: compiled with coverage). */
#include "inst_time.h"
#include "timer/timecheck.h"
static int      w_after(uint64_t a, uint64_t b) { timestamp_t x = (timestamp_t)a, y = (timestamp_t)b; return time_after(x, y) != 0; }
static int      w_before(uint64_t a, uint64_t b) { timestamp_t x = (timestamp_t)a, y = (timestamp_t)b; return time_before(x, y) != 0; }
static int      w_after_eq(uint64_t a, uint64_t b) { timestamp_t x = (timestamp_t)a, y = (timestamp_t)b; return time_after_or_equal(x, y) != 0; }
static int      w_loose(uint64_t s, uint64_t c, uint64_t d) { return is_loosely_expired((timestamp_t)s, (timestamp_t)c, (timestamp_t)d) != 0; }
static int      w_alias(uint64_t s, uint64_t c, uint64_t d) { return is_expired((timestamp_t)s, (timestamp_t)c, (timestamp_t)d) != 0; }
static int      w_strict(uint64_t s, uint64_t c, uint64_t d) { return is_strictly_expired((timestamp_t)s, (timestamp_t)c, (timestamp_t)d) != 0; }
static uint64_t w_interval(uint64_t a, uint64_t b) { return (uint64_t)time_interval((timestamp_t)a, (timestamp_t)b); }
#define STR_(x) #x
#define STR(x) STR_(x)
const time_ops_t time_ops = {STR(GEL_CUSTOM_TIMESTAMP_TYPE), 8 * sizeof(timestamp_t), w_after, w_before, w_after_eq, w_loose, w_alias, w_strict, w_interval};
