// Independent calendar and POSIX time-zone oracle (no use of the C library's time functions)
#ifndef TIMEUTIL_HPP
#define TIMEUTIL_HPP
#include <cstdlib>
#include <ctime>
#include <string>
struct Civil { long y; int m, d, H, M, S; int wday, yday; };
static inline bool leap(long y) { if (y % 400 == 0) return true; if (y % 100 == 0) return false; return y % 4 == 0; }
static inline int mdays(long y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : t[m - 1]; }
// days since 1970-01-01, by counting years and months one at a time from cached year starts
static inline long year_start(long y) {
    static long tab[12001]; static bool init = false;
    if (!init) { tab[1970] = 0; for (long i = 1971; i <= 12000; i++) tab[i] = tab[i - 1] + (leap(i - 1) ? 366 : 365);
        for (long i = 1969; i >= 0; i--) tab[i] = tab[i + 1] - (leap(i) ? 366 : 365); init = true; }
    return tab[y];
}
static inline long days(long y, int m, int d) { long r = year_start(y); for (int i = 1; i < m; i++) r += mdays(y, i); return r + d - 1; }
static inline Civil civil(long long t) {
    long dn = (long)(t / 86400); long s = (long)(t % 86400); if (s < 0) { s += 86400; dn--; }
    Civil c; c.H = (int)(s / 3600); c.M = (int)(s / 60 % 60); c.S = (int)(s % 60);
    c.wday = (int)(((dn % 7) + 7 + 4) % 7);
    long y = 1970 + dn / 366 - (dn < 0); if (y < 0) y = 0;
    while (year_start(y + 1) <= dn) y++;
    while (year_start(y) > dn) y--;
    c.y = y; long r = dn - year_start(y); c.yday = (int)r; c.m = 1;
    while (r >= mdays(y, c.m)) { r -= mdays(y, c.m); c.m++; }
    c.d = (int)r + 1; return c;
}
struct Rule { int m, w, dow, hour; };                          // POSIX Mm.w.d/h, hour in the clock before the change
struct Zone { const char* tz; long std; bool dst; Rule on, off; };   // std: seconds east of UTC
static inline long rule_day(long y, const Rule& r) {            // day number of the w-th (5 = last) weekday of the month
    long first = days(y, r.m, 1); int wd = (int)(((first % 7) + 7 + 4) % 7); int d = 1 + (r.dow - wd + 7) % 7 + (r.w - 1) * 7;
    while (d > mdays(y, r.m)) d -= 7;
    return first + d - 1;
}
static inline bool in_dst(const Zone& z, long long t) {
    if (!z.dst) return false;
    long y = civil(t + z.std).y;
    long long on = (long long)rule_day(y, z.on) * 86400 + z.on.hour * 3600 - z.std;             // in standard time
    long long off = (long long)rule_day(y, z.off) * 86400 + z.off.hour * 3600 - (z.std + 3600); // in daylight time
    return on < off ? (t >= on && t < off) : !(t >= off && t < on);
}
static const Zone ZONES[] = {
    {"UTC0", 0, false, {}, {}},
    {"CST-8", 8 * 3600, false, {}, {}},
    {"NPT-5:45", 5 * 3600 + 2700, false, {}, {}},
    {"AAA11:30", -(11 * 3600 + 1800), false, {}, {}},
    {"EST5EDT,M3.2.0/2,M11.1.0/2", -5 * 3600, true, {3, 2, 0, 2}, {11, 1, 0, 2}},
    {"CET-1CEST,M3.5.0/2,M10.5.0/3", 3600, true, {3, 5, 0, 2}, {10, 5, 0, 3}},
    {"AEST-10AEDT,M10.1.0/2,M4.1.0/3", 10 * 3600, true, {10, 1, 0, 2}, {4, 1, 0, 3}},
    {"NZST-12NZDT,M9.5.0/2,M4.1.0/3", 12 * 3600, true, {9, 5, 0, 2}, {4, 1, 0, 3}},
    {"AMT4AMST,M10.3.0/0,M2.3.0/0", -4 * 3600, true, {10, 3, 0, 0}, {2, 3, 0, 0}},
};
static const int NZONES = sizeof ZONES / sizeof *ZONES;
static inline void set_zone(int z) { static int cur = -1; if (cur != z) { setenv("TZ", ZONES[z].tz, 1); tzset(); cur = z; } }
#endif
