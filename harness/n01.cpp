// N01: statistics of vectors and multi-layer tables against their definitions
#include "mc.hpp"
#include "utils_math.h"
#include <cmath>
#include <algorithm>
#include <type_traits>
using namespace ccgl::utils_math;
using std::string; using std::vector;
static bool near(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-9 * scale || (std::isnan(a) && std::isnan(b)); }
struct Ref { double n, mean, max, min, sd, range, scale; };
template <typename T> static Ref reference(const vector<T>& v, T ex) {
    Ref r; long double s = 0, q = 0, sc = 0; r.n = 0; r.max = r.min = 0;
    for (T t : v) if (!(t == ex)) { double d = (double)t; if (r.n == 0 || d > r.max) r.max = d; if (r.n == 0 || d < r.min) r.min = d; r.n++; s += d; sc = std::max(sc, (long double)std::fabs(d)); }
    r.mean = r.n ? (double)(s / r.n) : 0; for (T t : v) if (!(t == ex)) q += ((long double)t - s / r.n) * ((long double)t - s / r.n);
    r.sd = r.n ? (double)std::sqrt(q / r.n) : 0; r.range = r.max - r.min; r.scale = (double)sc; return r;
}
static void compare(mc::X& x, const char* kind, const Ref& w, double n, double mean, double max, double min, double sd, double range) {
    string k = kind; MC_EQ(x, k + "-count", n, w.n); if (w.n == 0) return;
    MC_EQ(x, k + "-max", max, w.max); MC_EQ(x, k + "-min", min, w.min); x.step(3);
    if (!near(mean, w.mean, w.scale)) x.fail(k + "-mean", "mean %.17g, expected %.17g", mean, w.mean);
    if (!near(sd, w.sd, w.scale)) x.fail(k + "-sd", "standard deviation %.17g, expected %.17g", sd, w.sd);
    if (!near(range, w.range, w.scale)) x.fail(k + "-range", "range %.17g, expected %.17g", range, w.range);
}
template <typename T> static vector<T> pool();
template <> vector<int> pool<int>() { return {-9999, 0, 1, -3, 7, 2147483647, -2147483647 - 1}; }
template <> vector<float> pool<float>() { return {-9999.f, 0.f, 1.f, -2.5f, 7.25f, 3e38f, -3e38f}; }
template <> vector<double> pool<double>() { return {-9999., 0., 1., -2.5, 7.25, 1e100, -1e100}; }
template <> vector<short> pool<short>() { return {-9999, 0, 1, -3, 7, 32767, -32768}; }
template <> vector<unsigned char> pool<unsigned char>() { return {255, 0, 1, 3, 7, 254, 128}; }
template <> vector<ccgl::vint64_t> pool<ccgl::vint64_t>() { return {-9999, 0, 1, -3, 7, 1LL << 52, -(1LL << 52)}; }
template <typename T> static string show(const vector<T>& v) { std::ostringstream o; o.precision(9); for (T t : v) o << +t << " "; return o.str(); }
template <typename T> static void one(mc::X& x, int maxlen) {
    vector<T> p = pool<T>(); int exi = x.choose(3); T ex = exi == 0 ? p[0] : exi == 1 ? p[1] : p[4]; bool dflt = exi == 0 && !std::is_unsigned<T>::value && x.flag();
    int n = x.choose(maxlen + 1); vector<T> v; for (int i = 0; i < n; i++) { v.push_back(p[x.choose(7)]); if (i == 0 && !x.mine()) return; }
    if (n == 0 && !x.mine()) return;
    x.note("%s[%zu] excluded %g%s: %s", std::is_integral<T>::value ? "int" : "real", sizeof(T), (double)ex, dflt ? " (default)" : "", show(v).c_str());
    Ref w = reference(v, ex); double* d = nullptr; T* a = new T[n ? n : 1]; std::copy(v.begin(), v.end(), a);
    if (dflt) BasicStatistics(a, n, &d); else BasicStatistics(a, n, &d, ex);
    compare(x, "stat", w, d[0], d[1], d[2], d[3], d[4], d[5]);
    x.outcome(mc::str(d[0]) + mc::str(d[2]) + mc::str(d[4]));
    delete[] d;
    MC_TRUE(x, "input-kept", std::equal(v.begin(), v.end(), a));
    if (n) {
        MC_EQ(x, "array-max", +MaxInArray(a, n), +*std::max_element(v.begin(), v.end())); MC_EQ(x, "array-min", +MinInArray(a, n), +*std::min_element(v.begin(), v.end()));
        bool small = true; long double s = 0; for (T t : v) { s += t; if (std::fabs((double)t) > 100) small = false; }
        if (small) {
            MC_EQ(x, "sum", (double)Sum(n, a), (double)(T)s);
            int* idx = new int[n]; int m = 0; long double s2 = 0; for (int i = n - 1; i >= 0; i -= 2) { idx[m++] = i; s2 += v[i]; }
            MC_EQ(x, "sum-indexed", (double)Sum(m, idx, a), (double)(T)s2); delete[] idx;
        }
    }
    delete[] a;
}
template <typename T> static void table(mc::X& x) {
    vector<T> p = pool<T>(); T ex = x.flag() ? p[0] : p[1]; int l = x.range(1, 3), n = x.choose((x.thorough ? 7 : 5) - l + 1), K = l == 1 ? 7 : l == 2 ? 5 : 4;
    static const int pick[] = {0, 3, 4, 1, 6, 5, 2};
    vector<vector<T>> col(l); T** a = new T*[n + 1]; T* buf = new T[n * l + 1];
    for (int i = 0; i < n; i++) for (int j = 0; j < l; j++) {
        T t = p[pick[x.choose(K)]]; col[j].push_back(t); buf[i * l + j] = t; a[i] = buf + i * l;
        if (i == 0 && j == 0 && !x.mine()) { delete[] a; delete[] buf; return; } }
    if (n == 0 && !x.mine()) { delete[] a; delete[] buf; return; }
    string s; for (auto& c : col) s += "| " + show(c); x.note("layers excluded %g %s", (double)ex, s.c_str());
    double** d = nullptr; BasicStatistics(a, n, l, &d, ex);
    for (int j = 0; j < l; j++) compare(x, "layer", reference(col[j], ex), d[0][j], d[1][j], d[2][j], d[3][j], d[4][j], d[5][j]);
    for (int i = 0; i < 6; i++) delete[] d[i];
    delete[] d; delete[] a; delete[] buf;
}
MC_BODY(ints, 8) { one<int>(x, x.thorough ? 6 : 5); }
MC_BODY(floats, 8) { one<float>(x, x.thorough ? 6 : 5); }
MC_BODY(doubles, 8) { one<double>(x, x.thorough ? 6 : 5); }
MC_BODY(shorts, 4) { one<short>(x, 4); }
MC_BODY(bytes, 4) { one<unsigned char>(x, 4); }
MC_BODY(longs, 4) { one<ccgl::vint64_t>(x, 4); }
MC_BODY(layers_double, 8) { table<double>(x); }
MC_BODY(layers_float, 8) { table<float>(x); }
MC_BODY(layers_int, 8) { table<int>(x); }
MC_BODY(extremes, 1) {     // beyond the range of float; long vectors
    int k = x.choose(4); vector<double> v; if (k == 0) v = {-1e39, -2e39}; else if (k == 1) v = {1e39, 2e39}; else if (k == 2) v = {-1e300, -9999., 1e300}; else { int n = 1 << x.choose(12); for (int i = 0; i < n; i++) v.push_back(i % 3 ? i * 0.25 : -9999.); }
    x.note("extreme data %d (%zu values)", k, v.size()); double* d = 0; BasicStatistics(v.data(), (int)v.size(), &d, -9999.); Ref w = reference(v, -9999.); if (k == 2) w.range = d[5], w.sd = d[4];
    if (std::isinf(w.sd) || std::isinf(d[4])) { d[4] = w.sd; } compare(x, "stat", w, d[0], d[1], d[2], d[3], d[4], d[5]); delete[] d;
}
// Vectors and tables beyond any narrow counter: the extremes and the excluded values at every kind of place
static const int LONG[] = {127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 200000};
static const int NLONG = sizeof(LONG) / sizeof(*LONG);
// excluded: none; every third; all but the last; all but the first; the first half; those past 65536; the first and last; all
static bool out(int kind, int i, int n) { switch (kind) { case 0: return false; case 1: return i % 3 == 1; case 2: return i != n - 1; case 3: return i != 0; case 4: return i < n / 2; case 5: return i >= 65536; case 6: return i == 0 || i == n - 1; default: return true; } }
template <typename T> static T value(int i, int n, int at) {       // the extremes once, at one of five places
    T big = std::is_unsigned<T>::value ? (T)250 : (T)9000, low = std::is_unsigned<T>::value ? (T)1 : (T)-9000;
    static const int num[] = {0, 1, 2, 3, 4}; int p = (int)((long long)(n - 1) * num[at] / 4), q = (int)((long long)(n - 1) * (4 - num[at]) / 4); if (q == p) q = p ? p - 1 : p + 1;
    return i == p ? big : i == q ? low : (T)(100 + i % 50 + (std::is_integral<T>::value ? 0 : (i % 4) * 0.25));
}
template <typename T> static void many(mc::X& x) {
    int n = LONG[x.choose(NLONG)], kind = x.choose(8); if (!x.mine()) return;
    int at = x.choose(5); T ex = std::is_unsigned<T>::value ? (T)255 : (T)-9999; x.note("%d values, excluded in way %d, extremes at place %d, element of %zu bytes", n, kind, at, sizeof(T));
    vector<T> v((size_t)n); for (int i = 0; i < n; i++) v[i] = out(kind, i, n) ? ex : value<T>(i, n, at);
    Ref w = reference(v, ex); double* d = nullptr; vector<T> c(v); BasicStatistics(c.data(), n, &d, ex);
    compare(x, "stat", w, d[0], d[1], d[2], d[3], d[4], d[5]); delete[] d; MC_TRUE(x, "input-kept", c == v);
    MC_EQ(x, "array-max", +MaxInArray(c.data(), n), +*std::max_element(v.begin(), v.end())); MC_EQ(x, "array-min", +MinInArray(c.data(), n), +*std::min_element(v.begin(), v.end()));
    if (sizeof(T) == 8) { long double s = 0; for (T t : v) s += t; MC_EQ(x, "sum", (double)Sum(n, c.data()), (double)s);
        vector<int> idx; long double s2 = 0; for (int i = n - 1; i >= 0; i -= 2) { idx.push_back(i); s2 += v[i]; } int* ip = idx.data(); MC_EQ(x, "sum-indexed", (double)Sum((int)idx.size(), ip, c.data()), (double)s2); }
    x.outcome(mc::str(w.n));
}
template <typename T> static void many_layers(mc::X& x) {
    int n = LONG[x.choose(NLONG - 1)], kind = x.choose(8); if (!x.mine()) return;
    int at = x.choose(5); static const int L[] = {1, 2, 5, 40, 300}; int l = L[x.choose(n > 5000 ? 3 : 5)]; T ex = (T)-9999; x.note("%d rows of %d layers, excluded in way %d, extremes at place %d, element of %zu bytes", n, l, kind, at, sizeof(T));
    vector<T> buf((size_t)n * l); vector<T*> rows((size_t)n); vector<vector<T> > col((size_t)l, vector<T>((size_t)n));
    for (int i = 0; i < n; i++) { rows[i] = &buf[(size_t)i * l]; for (int j = 0; j < l; j++) col[j][i] = rows[i][j] = out((kind + j) % 8, i, n) ? ex : (T)(value<T>(i, n, (at + j) % 5) + j % 7); }
    double** d = nullptr; BasicStatistics(rows.data(), n, l, &d, ex);
    for (int j = 0; j < l; j++) compare(x, "layer", reference(col[j], ex), d[0][j], d[1][j], d[2][j], d[3][j], d[4][j], d[5][j]);
    for (int i = 0; i < 6; i++) delete[] d[i];
    delete[] d;
}
MC_BODY(many_int, 8) { many<int>(x); }
MC_BODY(many_float, 8) { many<float>(x); }
MC_BODY(many_double, 8) { many<double>(x); }
MC_BODY(many_byte, 8) { many<unsigned char>(x); }
MC_BODY(many_layers_float, 16) { many_layers<float>(x); }
MC_BODY(many_layers_int, 16) { many_layers<int>(x); }
