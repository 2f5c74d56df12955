// S04: reals print as decimals that read back; narrow and wide texts convert into each other
#include "mc.hpp"
#include "utils_string.h"
#include <clocale>
#include <cmath>
#include <cstring>
#include <limits>
using namespace ccgl; using namespace ccgl::utils_string; using std::string; using std::wstring;
static string exact(double v) {      // the nearest decimal of six places (ties as the C library takes them), shortest form
    char b[400]; snprintf(b, sizeof b, "%.6f", v); string s = b; size_t p = s.find('.'); if (p == string::npos) return s; size_t e = s.find_last_not_of('0'); s.erase(e == p ? p : e + 1); return s; }
static void real(mc::X& x, double v) {
    x.step(2); string s = ftoa(v), w = exact(v); if (s != w) { x.fail("ftoa", "%.17g prints as \"%s\", expected \"%s\"", v, s.c_str(), w.c_str()); return; }
    wstring ws = ftow(v); if (ws != wstring(s.begin(), s.end())) { x.fail("ftow", "%.17g prints differently as wide text", v); return; }
    bool ok = false; double b = IsDouble(s, ok); if (std::isfinite(v) && (!ok || !(std::fabs(b - v) <= 5.0000001e-7 + std::fabs(v) * 3e-16))) x.fail("roundtrip", "%.17g prints as \"%s\" which reads as %.17g (%d)", v, s.c_str(), b, ok);
    ok = false; b = IsDouble(ws, ok); if (std::isfinite(v) && (!ok || !(std::fabs(b - v) <= 5.0000001e-7 + std::fabs(v) * 3e-16))) x.fail("roundtrip-wide", "%.17g prints as \"%s\" which reads as %.17g (%d)", v, s.c_str(), b, ok);
    if (std::isfinite(v)) x.outcome(s);
}
// every exponent of doubles with a lattice of mantissas
MC_BODY(reals, 16) {
    int e = x.choose(2047); if (!x.mine()) return; int sign = x.choose(2); int n = x.thorough ? 512 : 32; x.note("binary exponent %d", e - 1023);
    for (int m = 0; m < n; m++) { uint64_t bits = ((uint64_t)sign << 63) | ((uint64_t)e << 52) | ((uint64_t)m * ((1ull << 52) / n)) | (m & 1 ? 0x5a5a5a5 : 0); if (m == n - 1) bits |= (1ull << 52) - 1; double v; memcpy(&v, &bits, 8); x.note("%.17g", v); real(x, v); if (x.nviol) return; }
}
// decimals: every number of up to six places in a range, at the places where rounding carries
MC_BODY(decimals, 16) {
    int whole = x.choose(12); if (!x.mine()) return; static const double W[] = {0, 1, 9, 10, 99, 100, 999, 1000, 4096, 99999, 1e6, 123456789}; int places = x.choose(8); double p = std::pow(10, places); int top = places < 4 ? (int)p : 2000; int part = x.choose(4);
    for (int i = 0; i < top; i++) { if (i % 4 != part) continue; double f = places < 4 ? i / p : part < 2 ? i / p : (p - 1 - i) / p; for (int s = 0; s < 2; s++) { double v = (W[whole] + f) * (s ? -1 : 1); x.note("%.17g", v); real(x, v); if (x.nviol) return; } }
}
MC_BODY(special, 1) {
    static const double V[] = {0., -0., 0.5e-6, 0.4999999e-6, 0.5000001e-6, -0.5e-6, 999999.9999995, 1e15, 1e16, 1e17, 1e22, 1e23, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, 9007199254740993., INFINITY, -INFINITY, NAN};
    double v = V[x.choose(20)]; x.note("%.17g", v); real(x, v);
}
// texts
static const char* LOC[] = {"C", "C.UTF-8"};
static bool valid_utf8(const string& s, wstring& w) {
    w.clear(); for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; unsigned cp; int n; if (c < 0x80) { cp = c; n = 0; } else if (c >= 0xc2 && c < 0xe0) { cp = c & 31; n = 1; } else if (c >= 0xe0 && c < 0xf0) { cp = c & 15; n = 2; } else if (c >= 0xf0 && c < 0xf5) { cp = c & 7; n = 3; } else return false;
        if (i + n >= s.size()) return false; for (int k = 1; k <= n; k++) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) return false; cp = cp << 6 | (d & 63); } if ((n == 2 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff))) return false; w += (wchar_t)cp; i += n + 1; } return true; }
static void narrow(mc::X& x, const string& s, int l) {
    wstring w; bool ok = l ? valid_utf8(s, w) : true; if (!l) { for (unsigned char c : s) { if (c > 127) ok = false; w += (wchar_t)c; } }
    { wstring g = atow("w"); wtoa(g); }        // the C library's own tables
    size_t live = mc::live_blocks(); x.step(); { wstring g = atow(s); if (ok ? g != w : !g.empty()) { x.fail(ok ? "atow" : "atow-invalid", ok ? "converted to %zu wide characters, expected %zu or others" : "a text that cannot be converted gives %zu wide characters (%zu)", g.size(), w.size()); return; }
        if (ok) { x.step(); string b = wtoa(g); if (b != s) { x.fail("roundtrip", "back it is \"%s\"", b.c_str()); return; } } bool num = true; x.step(2); vint a1 = IsInt(w, num); bool n2 = true; vint a2 = IsInt(s, n2); if (ok && (num != n2 || (num && a1 != a2))) x.fail("number", "as a wide text it is a number: %d, as a narrow one: %d", num, n2); }
    if (mc::live_blocks() > live) x.fail("memory", "%zu blocks of memory are kept", mc::live_blocks() - live);
    x.outcome((uint64_t)ok * 64 + s.size());
}
MC_BODY(bytes, 8) {
    int l = x.choose(2); int n = x.choose(3); if (!x.mine()) return; setlocale(LC_ALL, LOC[l]); string s; for (int i = 0; i <= n && i < 2; i++) s += (char)(1 + x.choose(255)); if (n == 2) s = "ab" + s + "z"; x.note("\"%s\" in locale %s", mc::esc(s).c_str(), LOC[l]); narrow(x, s, l); setlocale(LC_ALL, "C");
}
MC_BODY(sequences, 8) {
    static const char* T[] = {"a", "Z9", " ", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xc3", "\xe4\xb8", "\xff", "\xed\xa0\x80", "-1", "\x7f"};
    int l = x.choose(2), n = x.choose(x.thorough ? 6 : 5); if (!x.mine()) return; setlocale(LC_ALL, LOC[l]); string s; for (int i = 0; i < n; i++) s += T[x.choose(12)]; x.note("\"%s\" in locale %s", mc::esc(s).c_str(), LOC[l]); narrow(x, s, l); setlocale(LC_ALL, "C");
}
// every wide character, alone and within a text
MC_BODY(wide, 16) {
    int l = x.choose(2), blk = x.choose(0x1110); if (!x.mine()) return; setlocale(LC_ALL, LOC[l]); int pre = x.choose(2), lead = x.choose(x.thorough ? 4 : 2) * 13; int step = x.thorough ? 1 : blk < 8 ? 1 : 5;
    for (int i = blk * 256 + (blk == 0); i < blk * 256 + 256; i += step) {
        wstring w((size_t)lead, L'q'); if (pre) w += L"1"; w += (wchar_t)i; if (pre) w += L"x"; bool ok = l ? !(i >= 0xd800 && i < 0xe000) : i < 128; x.note("wide text of %d, %s character U+%04X in locale %s", lead, pre ? "1, x and" : "and", i, LOC[l]); x.step();
        { wstring g = atow("w"); wtoa(g); } size_t live = mc::live_blocks(); { string s = wtoa(w); string rest((size_t)lead, 'q'); if (pre) rest += "1x"; if (!ok && !s.empty() && s != rest /* ignorable characters may be left out */) { x.fail("wtoa-invalid", "a text that cannot be converted gives \"%s\"", mc::esc(s).c_str()); return; } if (ok) { if (atow(s) != w) { x.fail("wide-roundtrip", "it comes back as another text"); return; } }
            bool num = true; IsDouble(w, num); x.step(); if (num && !(i < 128)) x.fail("number", "it is taken for a number"); }
        if (mc::live_blocks() > live) { x.fail("memory", "%zu blocks of memory are kept", mc::live_blocks() - live); return; } }
    x.outcome((uint64_t)blk); setlocale(LC_ALL, "C");
}
// long texts
MC_BODY(lengths, 4) {
    int l = x.choose(2); if (!x.mine()) return; setlocale(LC_ALL, LOC[l]); int n = x.choose(600), k = x.choose(3); string s((size_t)n, 'y'); if (n && k == 1) s[n - 1] = (char)0xff; if (n && k == 2) s = (l ? string("\xe4\xb8\xad") : string("\t")) + s; x.note("%d characters, kind %d, locale %s", n, k, LOC[l]); narrow(x, s, l); setlocale(LC_ALL, "C");
}
