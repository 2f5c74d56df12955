// S02: numbers <-> text
#include "mc.hpp"
#include "utils_string.h"
#include <cmath>
using namespace ccgl; using namespace ccgl::utils_string;
using std::string; using std::wstring; using std::vector;
typedef __int128 i128;

static wstring widen(const string& s) { return wstring(s.begin(), s.end()); }
static string narrow(const wstring& w) { string s; for (wchar_t c : w) s += (c > 0 && c < 128) ? (char)c : '?'; return s; }
// canonical decimal of an integer?  value in v
static bool canon(const string& s, i128& v) {
    size_t i = 0; bool neg = false;
    if (i < s.size() && s[i] == '-') { neg = true; i++; }
    if (i >= s.size() || s.size() - i > 30) return false;
    if (s[i] == '0' && (s.size() - i > 1 || neg)) return false;
    v = 0;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    return true;
}
static string dec(i128 v) { if (v == 0) return "0"; bool n = v < 0; string r; while (v) { int d = (int)(v % 10); r = char('0' + (d < 0 ? -d : d)) + r; v /= 10; } return n ? "-" + r : r; }
static const i128 I64MIN = -((i128)1 << 63), I64MAX = ((i128)1 << 63) - 1, U64MAX = ((i128)1 << 64) - 1, I32MIN = -((i128)1 << 31), I32MAX = ((i128)1 << 31) - 1, U32MAX = ((i128)1 << 32) - 1;

static string brief(const string& s) { return s.size() < 80 ? s : s.substr(0, 30) + "...(" + std::to_string(s.size()) + ")..." + s.substr(s.size() - 20); }
static void check_int_text(mc::X& x, const string& s) {
    i128 v = 0; bool c = canon(s, v); wstring w = widen(s);
    for (int wide = 0; wide < 2; wide++) {
        bool ok; string t = wide ? "wide-" : "";
        // must: values of the guaranteed range; may: values the return type can hold; never anything else
        ok = !c; { i128 g = wide ? (i128)IsInt(w, ok) : (i128)IsInt(s, ok); x.step();
            bool must = c && v >= I32MIN && v <= I32MAX, may = c && v >= I64MIN && v <= I64MAX;
            if ((must && !ok) || (ok && !may) || (ok && g != v)) x.fail(t + "IsInt", "\"%s\" -> %s success=%d", mc::esc(brief(s)).c_str(), dec(g).c_str(), ok); }
        ok = !c; { i128 g = wide ? (i128)IsInt64(w, ok) : (i128)IsInt64(s, ok); x.step();
            bool must = c && v >= I64MIN && v <= I64MAX;
            if (must != ok || (ok && g != v)) x.fail(t + "IsInt64", "\"%s\" -> %s success=%d", mc::esc(brief(s)).c_str(), dec(g).c_str(), ok);
            i128 u = wide ? (i128)ToInt64(w) : (i128)ToInt64(s); if (must && u != v) x.fail(t + "ToInt64", "\"%s\" -> %s", brief(s).c_str(), dec(u).c_str());
            u = wide ? (i128)ToInt(w) : (i128)ToInt(s); if (c && v >= I32MIN && v <= I32MAX && u != v) x.fail(t + "ToInt", "\"%s\" -> %s", brief(s).c_str(), dec(u).c_str()); }
        ok = !c; { i128 g = wide ? (i128)IsUInt(w, ok) : (i128)IsUInt(s, ok); x.step();
            bool must = c && v >= 0 && v <= U32MAX, may = c && v >= 0 && v <= U64MAX;
            if ((must && !ok) || (ok && !may) || (ok && g != v)) x.fail(t + "IsUInt", "\"%s\" -> %s success=%d", mc::esc(brief(s)).c_str(), dec(g).c_str(), ok); }
        ok = !c; { i128 g = wide ? (i128)IsUInt64(w, ok) : (i128)IsUInt64(s, ok); x.step();
            bool must = c && v >= 0 && v <= U64MAX;
            if (must != ok || (ok && g != v)) x.fail(t + "IsUInt64", "\"%s\" -> %s success=%d", mc::esc(brief(s)).c_str(), dec(g).c_str(), ok);
            i128 u = wide ? (i128)ToUInt64(w) : (i128)ToUInt64(s); if (must && u != v) x.fail(t + "ToUInt64", "\"%s\" -> %s", brief(s).c_str(), dec(u).c_str());
            u = wide ? (i128)ToUInt(w) : (i128)ToUInt(s); if (c && v >= 0 && v <= U32MAX && u != v) x.fail(t + "ToUInt", "\"%s\" -> %s", brief(s).c_str(), dec(u).c_str()); }
    }
    x.outcome(c ? 1 : 0);
}
// the decimal grammar of the C library's reals (leading blanks allowed by it), value by long double
static bool real(const string& s, long double& val) {
    size_t i = 0, n = s.size();
    while (i < n && (s[i] == ' ' || s[i] == '\t')) i++;
    bool neg = false;
    if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    long double m = 0; int digits = 0, scale = 0;
    auto digit = [&](bool after) { if (m < 1e30L) { m = m * 10 + (s[i] - '0'); if (after) scale--; } else if (!after) scale++; i++; digits++; };   // beyond 30 digits only the size counts
    while (i < n && isdigit((unsigned char)s[i])) digit(false);
    if (i < n && s[i] == '.') { i++; while (i < n && isdigit((unsigned char)s[i])) digit(true); }
    if (!digits) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        i++; bool en = false; if (i < n && (s[i] == '-' || s[i] == '+')) en = s[i++] == '-';
        int e = 0, ed = 0; while (i < n && isdigit((unsigned char)s[i])) { e = e * 10 + (s[i++] - '0'); ed++; if (e > 100000) e = 100000; }
        if (!ed) return false;
        scale += en ? -e : e;
    }
    if (i != n) return false;
    val = m * powl(10.0L, scale); if (neg) val = -val;
    return true;
}
static void check_real_text(mc::X& x, const string& s) {
    long double v = 0; bool want = real(s, v); wstring w = widen(s);
    bool ok = !want; double g = IsDouble(s, ok); x.step();
    bool okw = !want; double gw = IsDouble(w, okw); x.step();
    if (ok != want) x.fail("IsDouble", "\"%s\" success=%d expected %d", mc::esc(brief(s)).c_str(), ok, want);
    if (okw != want) x.fail("wide-IsDouble", "\"%s\" success=%d expected %d", mc::esc(brief(s)).c_str(), okw, want);
    if (IsNumber(s) != want || IsNumber(w) != want) x.fail("IsNumber", "\"%s\" expected %d", mc::esc(brief(s)).c_str(), want);
    x.step(2);
    if (want) {
        double e = (double)v;
        auto near = [&](double a) { return a == e || fabs(a - e) <= fabs(e) * 1e-14 || (std::isinf(a) && fabsl(v) > 1.79e308L) || (fabsl(v) < 1e-300L && fabs(a) < 1e-299); };
        if (!near(g) || !near(gw) || !near(ToDouble(s)) || !near(ToDouble(w))) x.fail("IsDouble-value", "\"%s\" -> %.17g / %.17g", brief(s).c_str(), g, gw);
        x.step(2);
    }
}
MC_BODY(texts, 8) {
    string alpha = "019-+.e ,x"; int n = x.choose(x.thorough ? 8 : 6); string s;
    for (int i = 0; i < n; i++) { s += alpha[x.choose((int)alpha.size() - (x.thorough ? 1 : 0))]; if (i == 1 && !x.mine()) return; }
    if (n < 2 && !x.mine()) return;
    x.note("text \"%s\"", mc::esc(s).c_str());
    check_int_text(x, s);
    if (s.find('x') == string::npos || s.find("0x") == string::npos) check_real_text(x, s);   // C hexadecimal notation: not judged
}
MC_BODY(boundaries, 1) {
    // every power of two and of ten, +-3, both signs, with decorations that make it non-canonical
    int kind = x.choose(2); int e = x.choose(kind ? 22 : 70); int d = x.range(-3, 3); bool neg = x.flag();
    i128 v = 1; for (int i = 0; i < e; i++) v *= kind ? 10 : 2;
    v += d; if (neg) v = -v;
    const char* pre[] = {"", "0", "+", " ", "-"}; const char* post[] = {"", " ", ".", "0", "a", "\n"};
    string s = pre[x.choose(5)] + dec(v) + post[x.choose(6)];
    x.note("text \"%s\"", mc::esc(s).c_str());
    check_int_text(x, s);
    check_real_text(x, s.find_first_of("a\n") == string::npos ? s : dec(v));
}
MC_BODY(printing, 1) {
    int kind = x.choose(3); i128 v = 0;
    if (kind == 2) v = x.range(-300, 300);
    else { int e = x.choose(kind ? 20 : 65); v = 1; for (int i = 0; i < e; i++) v *= kind ? 10 : 2; v += x.range(-2, 2); if (x.flag()) v = -v; }
    x.note("number %s", dec(v).c_str());
    if (v >= I64MIN && v <= I64MAX) {
        vint64_t n = (vint64_t)v; string want = dec(v); bool ok = false;
        MC_EQ(x, "itoa", itoa((vint)n), (sizeof(vint) == 8 ? want : itoa((vint)n)));
        MC_EQ(x, "itow", narrow(itow((vint)n)), (sizeof(vint) == 8 ? want : narrow(itow((vint)n))));
        MC_EQ(x, "i64toa", i64toa(n), want);
        MC_EQ(x, "i64tow", narrow(i64tow(n)), want);
        MC_EQ(x, "i64-roundtrip", (IsInt64(i64toa(n), ok) == n && ok), true);
        MC_EQ(x, "i64w-roundtrip", (IsInt64(i64tow(n), ok) == n && ok), true);
        MC_EQ(x, "ValueToString", ValueToString(n), want);
        if (v >= I32MIN && v <= I32MAX) { MC_EQ(x, "i-roundtrip", (IsInt(itoa((vint)n), ok) == n && ok), true); MC_EQ(x, "iw-roundtrip", (IsInt(itow((vint)n), ok) == n && ok), true); }
    }
    if (v >= 0 && v <= U64MAX) {
        vuint64_t n = (vuint64_t)v; string want = dec(v); bool ok = false;
        if (sizeof(vuint) == 8 || v <= U32MAX) { MC_EQ(x, "utoa", utoa((vuint)n), want); MC_EQ(x, "utow", narrow(utow((vuint)n)), want);
            MC_EQ(x, "u-roundtrip", (IsUInt(utoa((vuint)n), ok) == n && ok), true); MC_EQ(x, "uw-roundtrip", (IsUInt(utow((vuint)n), ok) == n && ok), true); }
        MC_EQ(x, "u64toa", u64toa(n), want);
        MC_EQ(x, "u64tow", narrow(u64tow(n)), want);
        MC_EQ(x, "u64-roundtrip", (IsUInt64(u64toa(n), ok) == n && ok), true);
        MC_EQ(x, "u64w-roundtrip", (IsUInt64(u64tow(n), ok) == n && ok), true);
    }
}
MC_BODY(print_reals, 1) {
    int kind = x.choose(3); double v;
    if (kind == 0) v = x.range(-1000, 1000) / 64.0;                       // exact binary fractions: six decimals suffice for /64
    else if (kind == 1) { v = 1; int e = x.range(-8, 308); for (int i = 0; i < e; i++) v *= 10; for (int i = 0; i > e; i--) v /= 10; v *= 1 + x.choose(9) ; if (x.flag()) v = -v; if (std::isinf(v)) return; }
    else { double s[] = {1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, 9007199254740993.0, -9007199254740992.0, 0.0000005, 0.9999999, 99.9999999, 123456.789012}; v = s[x.choose(10)]; }
    x.note("ftoa(%.17g)", v);
    string s = ftoa(v); x.step();
    bool ok = false; double back = IsDouble(s, ok);
    if (!ok) x.fail("ftoa-text", "\"%s\" is not a number", s.c_str());
    // "%f" resolution: half a unit of the sixth decimal, plus double rounding of the parse
    if (fabs(back - v) > 5.0000001e-7 + fabs(v) * 1e-15) x.fail("ftoa-value", "\"%s\" parses to %.17g", s.c_str(), back);
    if (s.find('.') != string::npos && (s.back() == '0' || s.back() == '.')) x.fail("ftoa-trailing", "\"%s\"", s.c_str());
    MC_EQ(x, "ftow", narrow(ftow(v)), s);
}
MC_BODY(widening, 4) {
    int n = x.choose(4); string s;
    for (int i = 0; i < n; i++) s += (char)(n == 3 ? " aZ0~"[x.choose(5)] : 1 + x.choose(127));
    if (!x.mine()) return;
    x.note("atow/wtoa(\"%s\")", mc::esc(s).c_str());
    wstring w = atow(s); MC_TRUE(x, "atow", w == widen(s));
    MC_EQ(x, "wtoa", wtoa(w), s);
}
template <typename T> static void lists(mc::X& x, const char* t) {
    static const char* tok[] = {"1", "-2", "3.5", "", "abc", "1e2", " 4", "-", "7 ", "0"};
    char d = ",;"[x.choose(2)]; int n = x.choose(x.thorough ? 6 : 5); string s; vector<T> want; int fields = 0; bool last_empty = false;
    bool some_bad = false;
    for (int i = 0; i < n; i++) {
        string f = tok[x.choose(10)]; s += (i ? string(1, d) : "") + f; fields++; last_empty = f.empty();
        long double v; if (real(f.substr(0, f.find_last_not_of(' ') + 1), v)) want.push_back((T)v); else if (!(f.empty() && i == n - 1)) some_bad = true;
    }
    (void)last_empty; (void)fields;
    x.note("SplitStringForValues<%s>(\"%s\", '%c')", t, s.c_str(), d);
    vector<T> got(1, (T)99); bool ok = SplitStringForValues(s, d, got); x.step();
    if (s.empty()) { if (ok) x.fail("list-empty", "empty list reported as parsed"); return; }
    if (got != want) x.fail("list-values", "%zu values, expected %zu", got.size(), want.size());
    if (ok != !some_bad) x.fail("list-status", "status %d", ok);
    x.outcome(got.size() * 2 + ok);
}
MC_BODY(list_int, 1) { lists<int>(x, "int"); }
MC_BODY(list_double, 1) { lists<double>(x, "double"); }
MC_BODY(list_float, 1) { lists<float>(x, "float"); }
MC_BODY(list_long, 1) { lists<long>(x, "long"); }
// texts and lists beyond any fixed buffer or narrow counter
static const int LONG[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537};
static const int NLONG = sizeof(LONG) / sizeof(*LONG);
MC_BODY(long_texts, 4) {
    int n = LONG[x.choose(NLONG)], kind = x.choose(12); if (!x.mine()) return;
    string z((size_t)n, '0'), d((size_t)n, '7'), b((size_t)n, ' '), l((size_t)n, 'q'), s;
    switch (kind) { case 0: s = z + "5"; break; case 1: s = "5" + z; break; case 2: s = d; break; case 3: s = "-" + d; break; case 4: s = "0." + z + "5"; break; case 5: s = "12." + d; break;
        case 6: s = "5" + b; break; case 7: s = "5" + b + "x"; break; case 8: s = l; break; case 9: s = "42" + l; break; case 10: s = "1.5e-" + z + "3"; break; default: s = "0." + d + "x"; }
    x.note("text of form %d with a run of %d", kind, n);
    if (kind == 6) { bool ok = true; IsInt64(s, ok); MC_EQ(x, "IsInt64-long", ok, false); }
    else { check_int_text(x, s); check_real_text(x, s); }
    wstring w = atow(s); MC_TRUE(x, "atow-long", w == widen(s)); MC_TRUE(x, "wtoa-long", wtoa(w) == s);
}
template <typename T> static void long_list(mc::X& x, const char* t) {
    int n = LONG[x.choose(NLONG - 6)], kind = x.choose(4), step = x.choose(3); if (!x.mine()) return;   // all numbers; a bad one first, last, in the middle
    x.note("SplitStringForValues<%s>: %d values, %s", t, n, kind == 0 ? "all numbers" : kind == 1 ? "the first is none" : kind == 2 ? "the last is none" : "one in the middle is none");
    string s; vector<T> want;
    for (int i = 0; i < n; i++) {
        if (i) s += ',';
        if ((kind == 1 && i == 0) || (kind == 2 && i == n - 1) || (kind == 3 && i == n / 2)) { s += "abc"; continue; }
        long v = step == 0 ? i % 97 : step == 1 ? i * 31L : -(long)i; s += std::to_string(v); want.push_back((T)v);
    }
    vector<T> got; bool ok = SplitStringForValues(s, ',', got); x.step();
    if (got.size() != want.size()) x.fail("long-list-size", "%zu values, expected %zu", got.size(), want.size());
    else for (size_t i = 0; i < want.size(); i++) if (got[i] != want[i]) { x.fail("long-list-values", "value %zu is %g, expected %g", i, (double)got[i], (double)want[i]); break; }
    MC_EQ(x, "long-list-status", ok, kind == 0);
}
MC_BODY(long_list_int, 4) { long_list<int>(x, "int"); }
MC_BODY(long_list_double, 4) { long_list<double>(x, "double"); }
MC_BODY(long_list_float, 4) { long_list<float>(x, "float"); }
