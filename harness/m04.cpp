// M04: option maps written into documents and read back, every type of field through every typed reader.
#include "mc.hpp"
#include "db_mongoc.h"
#include "utils_time.h"
#include "mongo_stub.hpp"
#include <cmath>
#include <ctime>
using namespace ccgl; using namespace ccgl::db_mongoc;
using std::string; using std::vector;
static void quiet() { static bool once = false; if (!once) { once = true; std::cout.setstate(std::ios::failbit); } }

struct Num { bool is, integer, canonical, grey; double d; long long i; };
static Num classify(const string& t) {      // what a text is as a number
    Num n = {false, false, false, false, 0, 0}; const char* p = t.c_str(); if (*p == '+' || *p == '-') p++;
    const char* d0 = p; while (isdigit(*p)) p++; int nd = p - d0; bool point = false; if (*p == '.') { point = true; p++; const char* f = p; while (isdigit(*p)) p++; nd += p - f; }
    bool dec = nd > 0; bool ex = false; if (dec && (*p == 'e' || *p == 'E')) { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (isdigit(*q)) { while (isdigit(*q)) q++; p = q; ex = true; } }
    dec = dec && *p == 0 && t.size() == strlen(t.c_str()); char* e; double v = strtod(t.c_str(), &e); bool whole = !t.empty() && *e == 0;
    if (dec && std::isfinite(v)) { n.is = true; n.d = v; }
    else if (whole || t.find(' ') != string::npos || t.find('\t') != string::npos) { n.grey = true; n.d = v; }
    if (n.is && !point && !ex) { errno = 0; long long l = strtoll(t.c_str(), NULL, 10); if (!errno) { n.integer = true; n.i = l; n.canonical = std::to_string(l) == t; } }
    return n;
}
template <typename T> static void as_number(mc::X& x, bson_t* b, const char* type, const string& what, bool judged, bool number, long double v) {
    T got = T(77); bool ok = GetNumericFromBson(b, "K", got); x.step(); if (!judged) return;
    if (!number) { if (ok) x.fail("not-a-number", "%s read as %s: %.17g", what.c_str(), type, (double)got); return; }
    if (std::isnan(v)) { if (ok && (std::numeric_limits<T>::is_integer || !std::isnan((double)got))) x.fail("nan", "%s read as %s: %.17g", what.c_str(), type, (double)got); return; }
    if (std::numeric_limits<T>::is_integer) {
        long double lo = (long double)std::numeric_limits<T>::min(), hi = (long double)std::numeric_limits<T>::max(); bool whole = v == std::floor(v), fits = whole ? v >= lo && v <= hi : v > lo && v < hi, beyond = v <= lo - 1 || v >= hi + 1;
        if (beyond) { if (ok) x.fail("out-of-range", "%s read as %s: %.17g", what.c_str(), type, (double)got); }
        else if (fits) { if (!ok || (whole ? (long double)got != v : std::fabs((long double)got - v) >= 1)) x.fail("number", "%s read as %s: %s %.20Lg", what.c_str(), type, ok ? "" : "failed,", (long double)got); }
    } else {
        long double hi = (long double)std::numeric_limits<T>::max(); if (std::isinf(v)) { if (ok && (long double)got != v) x.fail("inf", "%s read as %s: %.17g", what.c_str(), type, (double)got); return; }
        if (std::fabs(v) > hi) { if (ok && std::isfinite((double)got) ) x.fail("out-of-range", "%s read as %s: %.17g", what.c_str(), type, (double)got); return; }
        if (!ok || (long double)got != (long double)(T)v) x.fail("number", "%s read as %s: %s %.17g", what.c_str(), type, ok ? "" : "failed,", (double)got);
    }
}
static void all_numbers(mc::X& x, bson_t* b, const string& what, bool judged, bool number, long double v) {
    as_number<double>(x, b, "double", what, judged, number, v); as_number<float>(x, b, "float", what, judged, number, v); as_number<int>(x, b, "int", what, judged, number, v); as_number<vint64_t>(x, b, "int64", what, judged, number, v);
    as_number<vuint8_t>(x, b, "uint8", what, judged, number, v); as_number<short>(x, b, "int16", what, judged, number, v); as_number<vuint32_t>(x, b, "uint32", what, judged, number, v); as_number<vuint64_t>(x, b, "uint64", what, judged, number, v);
}
static bool same_real(const string& s, double v) { char* e; double g = strtod(s.c_str(), &e); return !s.empty() && *e == 0 && (g == v || (std::isnan(g) && std::isnan(v))); }

static void text(mc::X& x, const string& t) {
    Num n = classify(t); string w = "option \"" + mc::esc(t) + "\""; STRING_MAP o; o["K"] = t; bson_t b = BSON_INITIALIZER; x.step(2);
    AppendStringOptionsToBson(&b, o); bson_iter_t it; if (bson_count_keys(&b) != 1 || !bson_iter_init_find(&it, &b, "K")) { x.fail("keys", "%s: %d fields", w.c_str(), (int)bson_count_keys(&b)); bson_destroy(&b); return; }
    string s = GetStringFromBson(&b, "K"); x.outcome(s);
    bool right = n.is ? (n.canonical ? s == t : s == t || same_real(s, n.d)) : n.grey ? s == t || same_real(s, n.d) : s == t;
    if (!right) x.fail("text", "%s read as text: \"%s\"", w.c_str(), mc::esc(s).c_str());
    all_numbers(x, &b, w, !n.grey, n.is, n.integer ? (long double)n.i : (long double)n.d);
    // the same options find the file that was stored with them
    bson_t q = BSON_INITIALIZER; AppendStringOptionsToBson(&q, o, "metadata."); mg::File f = mg::make("f", "", &b); bool nan = n.grey && std::isnan(n.d);
    if (bson_count_keys(&q) != 1 || (!nan && !mg::match(f, &q))) x.fail("filter", "%s does not match the document written with it", w.c_str());
    bson_destroy(&b); bson_destroy(&q);
}
static const string ALPHA = "019.-+eEa x";
MC_BODY(texts, 16) {
    quiet(); int len = x.choose(x.thorough ? 7 : 6); string t; for (int i = 0; i < len; i++) { t += ALPHA[x.choose((int)ALPHA.size())]; if (i == 1 && !x.mine()) return; } if (len < 2 && !x.mine()) return; if (len == 6 && t.find_first_of("019") == string::npos) return;
    x.note("\"%s\"", mc::esc(t).c_str()); text(x, t);
}
MC_BODY(numbers, 8) {       // around every power of two and ten, as integer, real and with exponents
    quiet(); int base = x.choose(2), e = x.choose(base ? 24 : 70), d = x.choose(5) - 2, form = x.choose(8); if (!x.mine()) return;
    unsigned __int128 m = 1; for (int i = 0; i < e; i++) m *= base ? 10 : 2; __int128 v = (__int128)m + d; bool neg = form & 1; if (v < 0) return;
    string s; { __int128 k = v; if (!k) s = "0"; while (k) { s.insert(s.begin(), (char)('0' + (int)(k % 10))); k /= 10; } } if (neg) s = "-" + s;
    form >>= 1; if (form == 1) s += ".5"; else if (form == 2) s += "e-3"; else if (form == 3) s += ".0"; x.note("\"%s\"", s.c_str()); text(x, s);
}
MC_BODY(words, 1) {
    quiet(); static const vector<string> W = {"TRUE", "true", "False", "inf", "-inf", "nan", "infinity", "0x10", "0x1p3", "1d5", "1e400", "-1e400", "1e-400", "4.9e-324", "1.7976931348623157e308", "0.1", "0.123456789", "20220101.5", "1234567.25", "2019-01-31", "2019-01-31 10:20:30", "Unknown", "1 2", "12 m", "3,5", "1e", "e1", ".", "-", "+1", "1.", ".5", "--1", "99999999999999999999", "340282346638528859811704183484516925440", "\xc3\xa9", "a\nb", "a.b", "-9999", "-3.40282346639e+38", "16777217", "0.30000000000000004", "9007199254740993", "1e15", "123456.7"};
    const string& t = x.pick(W); x.note("\"%s\"", mc::esc(t).c_str()); text(x, t);
}
// ---- maps
MC_BODY(maps, 1) {
    quiet(); static const vector<string> K = {"K", "a b", "Z9"}, V = {"", "12", "x", "-0.5"}, P = {"", "metadata.", "p"}; int pre = x.choose(3); STRING_MAP o; for (const string& k : K) { int v = x.choose(5); if (v < 4) o[k] = V[v]; }
    x.note("%zu options, prefix \"%s\"", o.size(), P[pre].c_str()); bson_t b = BSON_INITIALIZER; BSON_APPEND_UTF8(&b, "first", "1st"); AppendStringOptionsToBson(&b, o, P[pre]); x.step();
    if (bson_count_keys(&b) != o.size() + 1 || GetStringFromBson(&b, "first") != "1st") x.fail("keys", "%d fields", (int)bson_count_keys(&b));
    for (auto& i : o) { string g = GetStringFromBson(&b, (P[pre] + i.first).c_str()); if (g != i.second) x.fail("text", "%s is \"%s\" instead of \"%s\"", i.first.c_str(), g.c_str(), i.second.c_str()); bool bl = GetBoolFromBson(&b, (P[pre] + i.first).c_str()); bool num = i.second == "12" || i.second == "-0.5"; if (bl != num) x.fail("bool", "\"%s\" read as truth value %d", i.second.c_str(), bl); }
    if (GetStringFromBson(&b, "absent") != "" || GetBoolFromBson(&b, "absent") || GetDatetimeFromBson(&b, "absent") != -1) x.fail("absent", "a field that is not there has a value"); int q = 5; if (GetNumericFromBson(&b, "absent", q)) x.fail("absent", "a field that is not there has a value"); bson_destroy(&b);
}
// ---- every type of field through every reader
static void readers(mc::X& x, bson_t* b, const string& w, bool number, long double v, const char* str, int truth /* -1 not judged */, bool time_judged, bool time_fails, long long t0, long long t1) {
    all_numbers(x, b, w, true, number, v); string s = GetStringFromBson(b, "K"); x.step(3);
    if (str && s != str) x.fail("string", "%s as text: \"%s\"", w.c_str(), mc::esc(s).c_str()); if (!str && number && !same_real(s, (double)v)) x.fail("string", "%s as text: \"%s\"", w.c_str(), s.c_str());
    bool bo = GetBoolFromBson(b, "K"); if (truth >= 0 && bo != (truth == 1)) x.fail("bool", "%s as truth value: %d", w.c_str(), bo);
    if (time_judged) { long long t = GetDatetimeFromBson(b, "K"); if (time_fails ? t != -1 : t != t0 && t != t1) x.fail("time", "%s as time: %lld", w.c_str(), t); }
}
MC_BODY(types, 1) {
    quiet(); int ty = x.choose(10); bson_t b = BSON_INITIALIZER; char w[200];
    if (ty == 0) { static const vector<int> V = {0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, INT32_MAX, INT32_MIN, 16777217}; int v = x.pick(V); snprintf(w, sizeof w, "int32 %d", v); x.note("%s", w); BSON_APPEND_INT32(&b, "K", v); readers(x, &b, w, true, v, std::to_string(v).c_str(), v != 0, true, true, 0, 0); }
    else if (ty == 1) { static const vector<long long> V = {0, 1, -1, 2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 9007199254740993LL, INT64_MAX, INT64_MIN, 256}; long long v = x.pick(V); snprintf(w, sizeof w, "int64 %lld", v); x.note("%s", w); BSON_APPEND_INT64(&b, "K", v); readers(x, &b, w, true, v, std::to_string(v).c_str(), v != 0, true, true, 0, 0); }
    else if (ty == 2) { static const vector<double> V = {0, 0.5, -0.5, 1, 3, 1e-10, 255, 256, -1, 2147483647, 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 9.2e18, 9223372036854775808., -9223372036854775808., 1e19, 18446744073709551616., 1e30, 3e38, 1e39, -1e300, 0.1, 123456.789, 1.0 / 3, INFINITY, -INFINITY, NAN}; double v = x.pick(V); snprintf(w, sizeof w, "double %.17g", v); x.note("%s", w); BSON_APPEND_DOUBLE(&b, "K", v); readers(x, &b, w, true, v, NULL, std::isnan(v) ? -1 : v != 0, true, true, 0, 0); }
    else if (ty == 3) {
        static const vector<string> V = {"", "x", "TRUE", "true", "FALSE", "1", "0", "12", "-3.5", "1e3", "12abc", "abc12", "1 2", "2020-02-29", "2020-2-9", "1999-12-31 23:59:59", "1970-01-01", "2038-01-20", "2040-06-01 00:00:01", "99999999999", "4e9", "not 7"};
        const string& v = x.pick(V); snprintf(w, sizeof w, "text \"%s\"", v.c_str()); x.note("%s", w); BSON_APPEND_UTF8(&b, "K", v.c_str()); Num n = classify(v); struct tm tm; memset(&tm, 0, sizeof tm); bool date = sscanf(v.c_str(), "%d-%d-%d %d:%d:%d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec) >= 3; tm.tm_year -= 1900; tm.tm_mon--; long long t = date ? timegm(&tm) : 0;
        if (n.grey) { bson_destroy(&b); return; }
        readers(x, &b, w, n.is, n.integer ? (long double)n.i : (long double)n.d, v.c_str(), n.is ? -1 : v == "TRUE" || v == "true", date, false, t, t);
    }
    else if (ty == 4) { bool v = x.flag(); snprintf(w, sizeof w, "truth value %d", v); x.note("%s", w); BSON_APPEND_BOOL(&b, "K", v); x.step(3); double d = 77; if (GetNumericFromBson(&b, "K", d) && d != v) x.fail("number", "%s as number: %g", w, d); string s = GetStringFromBson(&b, "K"); if (s != "" && ((v && s != "true" && s != "TRUE" && s != "1") || (!v && s != "false" && s != "FALSE" && s != "0"))) x.fail("string", "%s as text %s", w, s.c_str()); if (GetBoolFromBson(&b, "K") != v) x.fail("bool", "%s read as %d", w, !v); if (GetDatetimeFromBson(&b, "K") != -1) x.fail("time", "%s read as a time", w); }
    else if (ty == 5) { static const vector<long long> V = {0, 1, 5, 99, 999, 1000, 1001, 1999, 60000, 999999, 1234567890123LL, 2147483647000LL, 2147483648000LL, 4102444800000LL, 4294967296000LL, 253402300799999LL, -1000, -86400000LL, -2208988800000LL}; long long v = x.pick(V); snprintf(w, sizeof w, "time of %lld ms", v); x.note("%s", w); BSON_APPEND_DATE_TIME(&b, "K", v); x.step(); long long t = GetDatetimeFromBson(&b, "K"), f = v / 1000; if (t != f && !(v < 0 && v % 1000 && t == f - 1)) x.fail("time", "%s as time: %lld", w, t); double d = 0; if (GetNumericFromBson(&b, "K", d) && d != (double)v && d != (double)f) x.fail("number", "%s as number: %.17g", w, d); }
    else { if (ty == 6) BSON_APPEND_NULL(&b, "K"); else if (ty == 7) { bson_oid_t o; memset(&o, '7', sizeof o); BSON_APPEND_OID(&b, "K", &o); } else { bson_t c = BSON_INITIALIZER; if (ty == 8) BSON_APPEND_DOCUMENT(&b, "K", &c); else BSON_APPEND_ARRAY(&b, "K", &c); bson_destroy(&c); }
        snprintf(w, sizeof w, "%s", ty == 6 ? "null" : ty == 7 ? "object id" : ty == 8 ? "document" : "array"); x.note("%s", w); x.step(4); double d; if (GetNumericFromBson(&b, "K", d)) x.fail("not-a-number", "%s read as a number", w); if (GetBoolFromBson(&b, "K")) x.fail("bool", "%s read as true", w); if (GetDatetimeFromBson(&b, "K") != -1) x.fail("time", "%s read as a time", w); }
    bson_destroy(&b);
}
MC_BODY(instants, 8) {     // times from 1902 to 2200
    quiet(); int k = x.choose(x.thorough ? 40000 : 4000); if (!x.mine()) return; long long s = -2145916800LL + k * (x.thorough ? 235001LL : 2350013LL); x.note("instant %lld", s);
    for (int ms = 0; ms < 1000; ms += s >= 0 ? 333 : 1000) { bson_t b = BSON_INITIALIZER; BSON_APPEND_DATE_TIME(&b, "K", s * 1000 + ms); long long t = GetDatetimeFromBson(&b, "K"); x.step(); if (t != s) x.fail("time", "%lld ms read as %lld", s * 1000 + ms, t); bson_destroy(&b); }
    time_t q = (time_t)s; struct tm tm; gmtime_r(&q, &tm); char t[64]; for (int f = 0; f < 2; f++) { strftime(t, sizeof t, f ? "%Y-%m-%d" : "%Y-%m-%d %H:%M:%S", &tm); STRING_MAP o; o["K"] = t; bson_t b = BSON_INITIALIZER; AppendStringOptionsToBson(&b, o); long long g = GetDatetimeFromBson(&b, "K"), want = f ? s - (s % 86400 + 86400) % 86400 : s; x.step(); if (g != want && want != -1) x.fail("time", "\"%s\" read as %lld, not %lld", t, g, want); bson_destroy(&b); }
}
