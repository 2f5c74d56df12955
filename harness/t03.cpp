// T03: the DateTime value
#include "mc.hpp"
#include "timeutil.hpp"
#include "utils_time.h"
#include <sys/time.h>
using namespace ccgl; using namespace ccgl::utils_time;
using std::string;

// the clock is an input chosen by the explorer
static long long g_clock_ms = 0;
extern "C" time_t __wrap_time(time_t* t) { time_t v = (time_t)(g_clock_ms / 1000); if (t) *t = v; return v; }
extern "C" int __wrap_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = g_clock_ms / 1000; tv->tv_usec = (g_clock_ms % 1000) * 1000; return 0; }

static string show(const DateTime& d) { char b[160]; snprintf(b, 160, "%d-%d-%d %d:%d:%d.%d wd%d yd%d abs=%llu/%llu", d.year, d.month, d.day, d.hour, d.minute, d.second, d.milliseconds, d.day_of_week, d.day_of_year, (unsigned long long)d.filetime, (unsigned long long)d.total_milliseconds); return b; }
static long offset(const Zone& z, long long sec) { return z.std + (in_dst(z, sec) ? 3600 : 0); }
// expected value for an absolute time in milliseconds, shown in local time
static void expect(mc::X& x, const char* key, const DateTime& d, const Zone& z, long long abs_ms) {
    x.step();
    long long s = abs_ms / 1000; Civil c = civil(s + offset(z, s));
    if (d.year != c.y || d.month != c.m || d.day != c.d || d.hour != c.H || d.minute != c.M || d.second != c.S || d.milliseconds != abs_ms % 1000 || d.day_of_week != c.wday || d.day_of_year != c.yday ||
        d.filetime != (vuint64_t)abs_ms || d.total_milliseconds != (vuint64_t)abs_ms)
        x.fail(key, "%s, expected %ld-%d-%d %d:%d:%d.%lld abs=%lld", show(d).c_str(), c.y, c.m, c.d, c.H, c.M, c.S, abs_ms % 1000, abs_ms);
}
static const int YEARS[] = {1970, 1999, 2000, 2004, 2023, 2024, 2037, 2100};
MC_BODY(components, 8) {
    int z = x.choose(NZONES); int y = YEARS[x.choose(8)]; int mo = x.range(1, 12); if (!x.mine()) return;
    if (y == 1970 && mo == 1) return;                       // local times before the epoch are not representable
    static const int D[] = {1, 2, 15, 27, 28, 29, 30, 31}; int d = D[x.choose(8)];
    static const int H[] = {0, 1, 12, 22, 23, 24, 25}, M[] = {0, 1, 59, 60}, S[] = {0, 1, 58, 59, 60}, MS[] = {0, 1, 500, 999};
    const Zone& zn = ZONES[z];
    int h = zn.dst ? 12 : H[x.choose(7)], mi = M[x.choose(4)], s = S[x.choose(5)], ms = MS[x.choose(4)];   // no ambiguous hours
    set_zone(z);
    x.note("FromDateTime(%d,%d,%d,%d,%d,%d,%d) in %s", y, mo, d, h, mi, s, ms, zn.tz);
    long long wall = (days(y, mo, 1) + d - 1) * 86400LL + h * 3600 + mi * 60 + s;
    long long sec = wall - zn.std; if (zn.dst && in_dst(zn, wall - zn.std - 3600)) sec -= 3600;
    long long abs_ms = sec * 1000 + ms;
    DateTime v = DateTime::FromDateTime(y, mo, d, h, mi, s, ms);
    expect(x, "components", v, zn, abs_ms);
    DateTime w = DateTime::FromFileTime(v.filetime);
    expect(x, "rebuild-from-absolute", w, zn, abs_ms);
    MC_TRUE(x, "rebuild-equal", v == w && !(v != w) && v <= w && v >= w && !(v < w) && !(v > w));
}
MC_BODY(absolute, 8) {          // every half hour of two years, in every zone
    int z = x.choose(NZONES); int y = x.range(2003, x.thorough ? 2012 : 2004); int day = x.choose(366); if (!x.mine()) return;
    int hh = x.choose(48); static const int MS[] = {0, 1, 999}; int ms = MS[x.choose(3)]; set_zone(z);
    long long abs_ms = (days(y, 1, 1) * 86400LL + day * 86400LL + hh * 1800LL) * 1000 + ms;
    x.note("FromFileTime(%lld) in %s", abs_ms, ZONES[z].tz);
    expect(x, "absolute", DateTime::FromFileTime((vuint64_t)abs_ms), ZONES[z], abs_ms);
}
static const int SHIFTS[] = {0, 1, 2, 999, 1000, 1001, 59999, 60000, 3599999, 3600000, 86399999, 86400000, 86400001, 2147483646, 2147483647};
MC_BODY(shifts, 8) {            // every sequence of forward/backward moves up to a depth
    int z = x.choose(x.thorough ? NZONES : 6); set_zone(z); const Zone& zn = ZONES[z];
    static const long long B[] = {946684799999LL, 946684800000LL, 951782399500LL, 1099116000001LL, 1678604399999LL, 4102444799999LL};
    long long abs_ms = B[x.choose(6)]; if (!x.mine()) return;
    int depth = x.thorough ? 4 : 3; DateTime v = DateTime::FromFileTime((vuint64_t)abs_ms);
    x.note("start %lld in %s", abs_ms, zn.tz);
    for (int i = 0; i < depth; i++) {
        int k = x.choose(1 + 2 * 15); if (k == 0) break;
        int ms = SHIFTS[(k - 1) / 2]; bool fwd = (k - 1) % 2 == 0; DateTime before = v;
        x.also(" %s(%d)", fwd ? "Forward" : "Backward", ms);
        v = fwd ? v.Forward(ms) : v.Backward(ms); abs_ms += fwd ? ms : -(long long)ms;
        expect(x, fwd ? "forward" : "backward", v, zn, abs_ms);
        MC_TRUE(x, "order-after-shift", (ms == 0) == (v == before) && (fwd || ms == 0 ? v >= before : v < before));
    }
    x.outcome((uint64_t)abs_ms);
}
MC_BODY(order, 4) {             // all pairs
    static const long long B[] = {0, 1, 999, 1000, 1001, 60000, 86399999, 86400000, 951782399999LL, 951782400000LL, 951868800000LL, 978307199999LL, 978307200000LL, 4102444800000LL, 253402300799999LL};
    set_zone(x.choose(2)); long long a = B[x.choose(15)]; if (!x.mine()) return; long long b = B[x.choose(15)];
    x.note("compare %lld and %lld", a, b);
    DateTime p = DateTime::FromFileTime((vuint64_t)a), q = DateTime::FromFileTime((vuint64_t)b);
    MC_EQ(x, "==", p == q, a == b); MC_EQ(x, "!=", p != q, a != b); MC_EQ(x, "<", p < q, a < b); MC_EQ(x, "<=", p <= q, a <= b); MC_EQ(x, ">", p > q, a > b); MC_EQ(x, ">=", p >= q, a >= b);
    x.outcome(a < b ? 0 : a == b ? 1 : 2);
}
MC_BODY(clock_now, 8) {         // the current time, with the clock under the explorer's control
    int z = x.choose(NZONES); int d = x.choose(x.thorough ? 3660 : 732); if (!x.mine()) return; set_zone(z); const Zone& zn = ZONES[z];
    static const long long off[] = {0, 3599999, 43200001, 86399999}; long long ms = days(2003, 1, 1) * 86400000LL + d * 86400000LL + off[x.choose(4)];
    g_clock_ms = ms; x.note("clock at %lld in %s", ms, zn.tz);
    DateTime l = DateTime::LocalTime(); expect(x, "local-now", l, zn, ms);
    DateTime u = DateTime::UTCTime(); x.step();
    Civil c = civil(ms / 1000);
    if (!zn.dst) {               // (a UTC clock reading inside a local daylight-saving gap has no local counterpart)
        if (u.year != c.y || u.month != c.m || u.day != c.d || u.hour != c.H || u.minute != c.M || u.second != c.S || u.milliseconds != ms % 1000 || u.day_of_week != c.wday || u.day_of_year != c.yday)
            x.fail("utc-now", "%s", show(u).c_str());
        DateTime cv = l.ToUTCTime(); MC_TRUE(x, "to-utc", cv == u && cv.hour == c.H && cv.day == c.d && cv.milliseconds == ms % 1000);
        DateTime b = cv.ToLocalTime(); expect(x, "utc-and-back", b, zn, ms);
    }
    MC_TRUE(x, "TimeCounting", TimeCounting() >= ms / 1000.0 - 1e-3 && TimeCounting() <= ms / 1000.0 + 1e-3);
}
MC_BODY(memory, 1) {            // no call keeps memory
    int z = x.choose(NZONES), call = x.choose(8); set_zone(z); static const long long B[] = {86400000LL, 951782399500LL, 1099116000001LL, 4102444799999LL};
    long long ms = B[x.choose(4)]; g_clock_ms = ms;
    static const char* KN[] = {"LocalTime", "UTCTime", "FromDateTime", "FromFileTime", "ToLocalTime", "ToUTCTime", "Forward", "Backward"};
    x.note("memory kept by %s at %lld in %s", KN[call], ms, ZONES[z].tz);
    size_t live = 0; uint64_t sum = 0; DateTime v = DateTime::FromFileTime((vuint64_t)ms);
    for (int k = 0; k < 3; k++) {           // (the first round may fill caches of the C library)
        if (k == 1) live = mc::live_blocks();
        DateTime r = call == 0 ? DateTime::LocalTime() : call == 1 ? DateTime::UTCTime() : call == 2 ? DateTime::FromDateTime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.milliseconds) :
            call == 3 ? DateTime::FromFileTime((vuint64_t)ms) : call == 4 ? v.ToLocalTime() : call == 5 ? v.ToUTCTime() : call == 6 ? v.Forward(1000) : v.Backward(1000);
        sum += r.filetime;
    }
    MC_EQ(x, "memory", mc::live_blocks(), live); x.outcome(sum);
}
