// T02: time <-> text
#include "mc.hpp"
#include "timeutil.hpp"
#include "utils_time.h"
using namespace ccgl::utils_time;
using std::string;

static void one(mc::X& x, int z, long long t, bool utc) {
    const Zone& zn = ZONES[z];
    Civil c = civil(t + (utc ? 0 : zn.std));                 // local text is standard time
    char a[64], b[64], d[64];
    snprintf(a, 64, "%04ld-%02d-%02d", c.y, c.m, c.d);
    snprintf(b, 64, "%s %02d:%02d:%02d", a, c.H, c.M, c.S);
    snprintf(d, 64, "%04ld_%02d_%02d_%02d%02d%02d", c.y, c.m, c.d, c.H, c.M, c.S);
    long long day = t - (c.H * 3600 + c.M * 60 + c.S);
    string s1 = ConvertToString(t, utc), s2 = ConvertToString2(t, utc), s3 = ConvertToString3(t, utc);
    if (s1 != a) x.fail("date-text", "t=%lld utc=%d \"%s\" expected \"%s\"", t, utc, s1.c_str(), a);
    if (s2 != b) x.fail("date-time-text", "t=%lld utc=%d \"%s\" expected \"%s\"", t, utc, s2.c_str(), b);
    if (s3 != d) x.fail("compact-text", "t=%lld utc=%d \"%s\" expected \"%s\"", t, utc, s3.c_str(), d);
    x.step(3);
    auto back = [&](const char* key, const string& s, const char* fmt, bool hour, long long want) {
        long long g = (long long)ConvertToTime(s, fmt, hour, utc); x.step();
        if (g != want) x.fail(key, "\"%s\" utc=%d parsed as %lld expected %lld", s.c_str(), utc, g, want);
    };
    back("parse-date", s1, "%d-%d-%d", false, day);
    back("parse-date", s1, "%4d-%2d-%2d", false, day);
    back("parse-date", string(a).substr(0, 4) + string(a).substr(5, 2) + string(a).substr(8, 2), "%4d%2d%2d", false, day);
    back("parse-date-time", s2, "%d-%d-%d %d:%d:%d", true, t);
    back("parse-date-time", s2, "%4d-%2d-%2d %2d:%2d:%2d", true, t);
    back("parse-date-time", s2, "%d-%d-%d", false, day);
    back("parse-compact", s3, "%4d_%2d_%2d_%2d%2d%2d", true, t);
}
MC_BODY(hours, 8) {
    int z = x.choose(NZONES); long y = x.thorough ? x.range(1970, 2037) : x.range(1998, 2009); if (!x.mine()) return;
    bool utc = x.flag(); set_zone(z);
    x.note("every half hour of %ld in zone %s, %s text", y, ZONES[z].tz, utc ? "UTC" : "local");
    int odd = 0;
    for (long long t = year_start(y) * 86400LL - 86400; t < year_start(y + 1) * 86400LL; t += x.thorough ? 900 : 3600) one(x, z, t + (odd = (odd + 1) % 3) - 1, utc);
}
MC_BODY(transitions, 8) {       // each second around the daylight-saving changes, month, year ends
    int z = x.choose(NZONES); long y = x.range(1999, x.thorough ? 2030 : 2004); if (!x.mine()) return;
    int m = x.range(1, 12); int which = x.choose(3); bool utc = x.flag(); set_zone(z); const Zone& zn = ZONES[z];
    long long c0;
    if (which == 0) c0 = days(y, m, 1) * 86400LL - zn.std;
    else if (!zn.dst) return;
    else { const Rule& r = which == 1 ? zn.on : zn.off; if (r.m != m) return; c0 = rule_day(y, r) * 86400LL + r.hour * 3600 - zn.std - (which == 2 ? 3600 : 0); }
    x.note("around instant %lld in zone %s", c0, zn.tz);
    for (long long d = -7300; d <= 7300; d += (d > -70 && d < 70) || (d > 3500 && d < 3700) || (d < -3500 && d > -3700) ? 1 : 59) one(x, z, c0 + d, utc);
}
MC_BODY(days_of_centuries, 8) {
    long y = x.thorough ? x.range(1000, 9999) : x.range(1800, 2200); if (!x.mine()) return;
    set_zone(0); x.note("every day of %ld, UTC", y);
    for (long dn = year_start(y); dn < year_start(y + 1); dn++) one(x, 0, dn * 86400LL + (dn * 7919) % 86400 - ((dn * 7919) % 86400 < 0 ? -86400 : 0), true);
}
MC_BODY(not_a_date, 1) {        // text without a date gives the documented failure value (0), deterministically
    static const char* s[] = {"", "abc", "-", "2018", "2018-", "2018-06", "2018/06/09", "x2018-06-09"};
    string t = s[x.choose(8)]; bool hour = x.flag(), utc = x.flag(); set_zone(0);
    x.note("ConvertToTime(\"%s\")", t.c_str());
    MC_EQ(x, "failure-value", (long long)ConvertToTime(t, hour ? "%d-%d-%d %d:%d:%d" : "%d-%d-%d", hour, utc), 0LL);
}
MC_BODY(memory, 1) {            // no call keeps memory
    int z = x.choose(NZONES), call = x.choose(6); bool utc = x.flag(); set_zone(z);
    static const long long T[] = {86400, 951782400, 1099116000, 1689292800}; long long t = T[x.choose(4)];
    static const char* KN[] = {"ConvertToString", "ConvertToString2", "ConvertToString3", "ConvertToTime date", "ConvertToTime date and time", "ConvertToTime no date"};
    x.note("memory kept by %s(%lld) in %s", KN[call], t, ZONES[z].tz);
    size_t live = 0, n = 0;
    for (int k = 0; k < 3; k++) {           // (the first round may fill caches of the C library)
        if (k == 1) live = mc::live_blocks();
        switch (call) {
            case 0: n += ConvertToString(t, utc).size(); break; case 1: n += ConvertToString2(t, utc).size(); break; case 2: n += ConvertToString3(t, utc).size(); break;
            case 3: n += (size_t)ConvertToTime("2010-01-02", "%d-%d-%d", false, utc); break; case 4: n += (size_t)ConvertToTime("2010-01-02 03:04:05", "%d-%d-%d %d:%d:%d", true, utc); break;
            default: n += (size_t)ConvertToTime("no date", "%d-%d-%d", false, utc);
        }
    }
    MC_EQ(x, "memory", mc::live_blocks(), live); x.outcome((uint64_t)n);
}
