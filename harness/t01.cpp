// T01: calendar arithmetic
#include "mc.hpp"
#include "timeutil.hpp"
#include "utils_time.h"
using namespace ccgl::utils_time;

static void one_day(mc::X& x, int z, long dn) {
    const Zone& zn = ZONES[z];
    // midnight, last second of the day, noon -- in the zone's local clock and in UTC
    for (int local = 0; local < 2; local++) {
        bool utc = !local;
        if (local && zn.dst && dn < 366) continue;      // POSIX rules are defined from 1970 on
        long long secs[3] = {0, 43200, 86399};
        for (long long s : secs) {
            long long t = dn * 86400LL + s - (local ? zn.std : 0);
            bool dst = local && in_dst(zn, t);
            Civil c = civil(t + (local ? zn.std : 0) + (dst ? 3600 : 0));   // wall clock
            Civil st = civil(t + (local ? zn.std : 0));                     // standard time
            MC_EQ(x, "GetYear", GetYear(t, utc), c.y); MC_EQ(x, "GetMonth", GetMonth(t, utc), c.m); MC_EQ(x, "GetDay", GetDay(t, utc), c.d);
            MC_EQ(x, "DayOfYear-time", DayOfYear(t, utc), c.yday + 1);
            MC_EQ(x, "JulianDay-time", JulianDay(t, utc), days(c.y, c.m, c.d) + 2440588);
            if (c.y < 10000 && c.y >= 1000) {
                int y = -1, m = -1, d = -1; GetDateInfoFromTimet(t, &y, &m, &d, utc); x.step();
                if (y != st.y || m != st.m || d != st.d) x.fail("GetDateInfoFromTimet", "%d-%d-%d expected %ld-%d-%d (t=%lld)", y, m, d, st.y, st.m, st.d, t);
            }
            struct tm tmv; GetDateTime(t, &tmv, utc); x.step();
            if (tmv.tm_year + 1900 != c.y || tmv.tm_mon + 1 != c.m || tmv.tm_mday != c.d || tmv.tm_hour != c.H || tmv.tm_min != c.M || tmv.tm_sec != c.S || tmv.tm_wday != c.wday || tmv.tm_yday != c.yday)
                x.fail("GetDateTime", "broken-down time differs at t=%lld", t);
        }
        Civil c = civil(dn * 86400LL);
        int y = (int)c.y, m = c.m, d = c.d;
        long long t0 = dn * 86400LL - (local ? zn.std : 0);
        MC_EQ(x, "ConvertYMDToTime", (long long)ConvertYMDToTime(y, m, d, utc), t0);
        int y2 = 0, m2 = 0, d2 = 0;
        if (c.y < 10000 && c.y >= 1000) { GetDateInfoFromTimet(ConvertYMDToTime(y, m, d, utc), &y2, &m2, &d2, utc); x.step();
            if (y2 != c.y || m2 != c.m || d2 != c.d) x.fail("compose-decompose", "%d-%d-%d became %d-%d-%d", y, m, d, y2, m2, d2); }
    }
}
MC_BODY(julian_days, 8) {       // pure year/month/day functions, every day of a year
    long y = x.range(1, x.thorough ? 9999 : 3200); if (!x.mine()) return;
    x.note("every day of year %ld", y);
    MC_EQ(x, "IsLeapYear", IsLeapYear((int)y), leap(y));
    int doy = 1;
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++, doy++) {
        MC_EQ(x, "JulianDay-ymd", JulianDay((int)y, m, d), days(y, m, d) + 2440588);
        MC_EQ(x, "DayOfYear-ymd", DayOfYear((int)y, m, d), doy);
    }
}
MC_BODY(time_stamps, 8) {       // every day of the years, every zone
    int z = x.choose(NZONES); long y = x.thorough ? x.range(1600, 2500) : x.range(1880, 2110); if (!x.mine()) return;
    set_zone(z);
    x.note("every day of %ld in zone %s", y, ZONES[z].tz);
    for (long dn = year_start(y); dn < year_start(y + 1); dn++) one_day(x, z, dn);
}
MC_BODY(every_hour, 8) {        // every hour of a year in the daylight-saving zones
    int z = x.range(0, NZONES - 1); long y = x.range(1999, x.thorough ? 2028 : 2005); if (!x.mine()) return;
    set_zone(z); const Zone& zn = ZONES[z];
    x.note("every hour of %ld in zone %s", y, zn.tz);
    for (long long t = year_start(y) * 86400LL; t < year_start(y + 1) * 86400LL; t += 1800) {
        bool dst = in_dst(zn, t); Civil c = civil(t + zn.std + (dst ? 3600 : 0)), st = civil(t + zn.std);
        MC_EQ(x, "GetYear", GetYear(t, false), c.y); MC_EQ(x, "GetMonth", GetMonth(t, false), c.m); MC_EQ(x, "GetDay", GetDay(t, false), c.d);
        MC_EQ(x, "DayOfYear-time", DayOfYear(t, false), c.yday + 1); MC_EQ(x, "JulianDay-time", JulianDay(t, false), days(c.y, c.m, c.d) + 2440588);
        int yy = -1, m = -1, d = -1; GetDateInfoFromTimet(t, &yy, &m, &d, false); x.step();
        if (yy != st.y || m != st.m || d != st.d) x.fail("GetDateInfoFromTimet", "%d-%d-%d expected %ld-%d-%d (t=%lld)", yy, m, d, st.y, st.m, st.d, t);
    }
}
MC_BODY(memory, 1) {            // no call keeps memory
    int z = x.choose(NZONES), call = x.choose(9); bool utc = x.flag(); set_zone(z);
    static const long long T[] = {0, 951782400, 1099116000, 1689292800}; long long t = T[x.choose(4)];
    static const char* KN[] = {"GetYear", "GetMonth", "GetDay", "DayOfYear", "JulianDay", "GetDateInfoFromTimet", "GetDateTime", "ConvertYMDToTime", "JulianDay(y,m,d)"};
    x.note("memory kept by %s(%lld) in %s", KN[call], t, ZONES[z].tz);
    size_t live = 0; int y = 2020, m = 7, d = 14, s = 0; struct tm v;
    for (int k = 0; k < 3; k++) {           // (the first round may fill caches of the C library)
        if (k == 1) live = mc::live_blocks();
        switch (call) {
            case 0: s += GetYear(t, utc); break; case 1: s += GetMonth(t, utc); break; case 2: s += GetDay(t, utc); break;
            case 3: s += DayOfYear(t, utc); break; case 4: s += JulianDay(t, utc); break; case 5: s += GetDateInfoFromTimet(t, &y, &m, &d, utc); break;
            case 6: GetDateTime(t, &v, utc); break; case 7: y = 2020; m = 7; d = 14; s += (int)ConvertYMDToTime(y, m, d, utc); break; default: s += JulianDay(y, m, d) + DayOfYear(y, m, d);
        }
    }
    MC_EQ(x, "memory", mc::live_blocks(), live); x.outcome((uint64_t)s);
}
