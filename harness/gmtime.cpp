// C29 calendar conversion against the C library and an independent day count.
#include "common.hpp"
#include <coda/gmtime.h>
using namespace vp;

static void one(int64_t t)
{
    // days-to-civil by counting eras, independent of the code under test
    int64_t days = t / 86400, rem = t % 86400;
    int64_t z = days + 719468, era = z / 146097, doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
    if (y > INT32_MAX) return;
    struct tm a, b; memset(&a, 0x5A, sizeof(a));
    time_t tt = (time_t) t;
    if (gmtime_r(&tt, &b))
        HCHECK(b.tm_year + (int64_t) 1900 == y && b.tm_mon + 1 == m && b.tm_mday == d && b.tm_wday == (4 + days) % 7, "the two oracles disagree on %lld", (long long) t);
    coda_gmtime(tt, &a);
    CHECK(a.tm_sec == rem % 60 && a.tm_min == rem / 60 % 60 && a.tm_hour == rem / 3600, "time", "time %lld is %02d:%02d:%02d", (long long) t, a.tm_hour, a.tm_min, a.tm_sec);
    CHECK(a.tm_mday == d && a.tm_mon == m && a.tm_year == y, "date", "time %lld is %d-%d-%d, expected %lld-%lld-%lld", (long long) t, a.tm_year, a.tm_mon, a.tm_mday,
          (long long) y, (long long) m, (long long) d);
    CHECK(a.tm_wday == (4 + days) % 7, "weekday", "time %lld has weekday %d, expected %lld", (long long) t, a.tm_wday, (long long) ((4 + days) % 7));
    ev("times converted");
    if (m == 2 && d == 29) ev("leap days");
    if (want_sample()) sample("%lld -> %d-%02d-%02d %02d:%02d:%02d weekday %d", (long long) t, a.tm_year, a.tm_mon, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec, a.tm_wday);
}

void vp_case(In &in)
{
    int64_t t;
    switch (in.below(5))
    {
    case 0: t = in.u32(); break;
    case 1: t = (int64_t) (in.u64() >> (in.u8() & 63)) & INT64_MAX; break;
    case 2: t = (int64_t) (((int64_t) 1 << (in.u8() % 63)) - 3 + in.below(6)); break;
    default: t = (int64_t) in.below(3000) * 31556952 + in.below(31600000);   // around the year boundaries
    }
    if (t < 0) t = 0;
    if (t > 67767976233532799ll) t %= 67767976233532799ll;
    sig((uint64_t) t); one(t); mark();
}

// every day of a 400 year cycle, its first, last and one other second, and the same day in a later cycle
uint64_t vp_exh_count(bool) { return 146097 + 86400; }
void vp_exh(uint64_t i)
{
    Rng r(opt.seed * 1000003 + i);
    if (i >= 146097) { i -= 146097; one((int64_t) i); one(951782400 + (int64_t) i); one(4107542400ll + (int64_t) i); sig(i + 1000000000); mark(); return; }
    int64_t d = (int64_t) i * 86400;
    one(d); one(d + 86399); one(d + (int64_t) r.below(86400));
    one(d + 146097ll * 86400 * (1 + (int64_t) r.below(5000)) + (int64_t) r.below(86400));
    sig(i); mark();
}
void vp_init() { }
