// A03: arrays as text: writing one- and two-dimensional arrays, reading them from files and strings
#include "mc.hpp"
#include <cmath>
#include <fstream>
#include <sstream>
#include "utils_array.cpp"          // (the readers are templates defined there)
using namespace ccgl::utils_array;
using std::string; using std::vector;

// independent rendering with six significant digits, by way of decimal digits
static string six(float v) {
    if (std::isnan(v)) return std::signbit(v) ? "-nan" : "nan";
    if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
    if (v == 0) return std::signbit(v) ? "-0" : "0";
    char b[64]; snprintf(b, 64, "%.5e", (double)v); string s = b, r; if (s[0] == '-') { r = "-"; s = s.substr(1); }
    int e = atoi(s.c_str() + s.find('e') + 1); string dg = s.substr(0, 1) + s.substr(2, 5); size_t k = dg.size(); while (k > 1 && dg[k - 1] == '0') k--; dg.resize(k);
    if (e < -4 || e >= 6) { char x[16]; snprintf(x, 16, "e%c%02d", e < 0 ? '-' : '+', e < 0 ? -e : e); return r + dg.substr(0, 1) + (k > 1 ? "." + dg.substr(1) : "") + x; }
    if (e < 0) return r + "0." + string(-e - 1, '0') + dg;
    while ((int)dg.size() < e + 1) dg += '0';
    return r + dg.substr(0, e + 1) + ((int)dg.size() > e + 1 ? "." + dg.substr(e + 1) : "");
}
static const float V[] = {0.f, 1.f, -1.f, 0.5f, -9999.f, 123456.f, 1234567.f, 0.1f, 3.14159274f, 1e-5f, -2.5e10f, 3.4028235e38f, 1.17549435e-38f, 99999.95f, 0.00012345678f, -0.f};
static const int NV = sizeof V / sizeof *V;
static string slurp(const string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spill(const string& f, const string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }

MC_BODY(write, 8) {
    int rows = x.choose(5), cols = x.range(1, 3); bool two = x.flag(), old = x.flag(); if (!x.mine()) return;
    if (!two && cols > 1) return;
    int n = rows * cols; vector<int> pick(n); int seed = x.choose(NV), step = x.choose(NV);      // every arithmetic progression through the values
    for (int i = 0; i < n; i++) pick[i] = (seed + i * step) % NV;
    x.note("write %d x %d%s, values %d+%d*i%s", rows, cols, two ? "" : " (1D)", seed, step, old ? " over an older, longer file" : "");
    string f = x.scratch + "/a.txt"; mc::clean_dir(x.scratch); if (old) spill(f, string(500, 'z'));
    string want; for (int i = 0; i < rows; i++) { for (int j = 0; j < cols; j++) want += six(V[pick[i * cols + j]]) + (two ? "\t" : ""); want += "\n"; }
    size_t live = 0, now = 1, n2;
    for (int k = 0; k < 2 && live != now; k++) {
        live = mc::live_blocks();
        float* d = new float[n]; for (int i = 0; i < n; i++) d[i] = V[pick[i]];
        const float** p = new const float*[rows]; for (int i = 0; i < rows; i++) p[i] = d + i * cols;
        if (two) Output2DArrayToTxtFile(rows, cols, p, f.c_str()); else Output1DArrayToTxtFile(rows, d, f.c_str());
        delete[] p; delete[] d; now = mc::live_blocks();
    }
    n2 = now; MC_EQ(x, "write-memory", n2, live);
    MC_EQ(x, "written-text", slurp(f), want); x.outcome(want);
}
static const char* SEPS[] = {" ", "\n", "\t", "  ", "\r\n", "\n\n"};
template <typename T> struct Kind;
template <> struct Kind<int> { static string text(int k) { static const char* t[] = {"0", "7", "-1", "2147483647", "-2147483648", "+5", "0012"}; return t[k]; } static int value(int k) { static const int t[] = {0, 7, -1, 2147483647, -2147483647 - 1, 5, 12}; return t[k]; } };
template <> struct Kind<float> { static string text(int k) { static const char* t[] = {"0", "0.5", "-1", "1e3", "-2.5E-2", "+5.25", "16777216"}; return t[k]; } static float value(int k) { static const float t[] = {0, 0.5f, -1, 1000, -0.025f, 5.25f, 16777216.f}; return t[k]; } };
template <> struct Kind<double> { static string text(int k) { static const char* t[] = {"0", "0.1", "-1", "1e300", "-2.5E-2", "+5.25", "123456789.125"}; return t[k]; } static double value(int k) { static const double t[] = {0, 0.1, -1, 1e300, -0.025, 5.25, 123456789.125}; return t[k]; } };
template <typename T> static void reading(mc::X& x, const char* tn) {
    int how = x.choose(3), rows = x.choose(5), seed = x.choose(7), step = x.choose(7); string sep = SEPS[x.choose(6)]; bool tail = x.flag();   // 0: 1D file, 1: 2D file, 2: string
    vector<int> len(rows, 1); if (how) for (int i = 0; i < rows; i++) len[i] = x.choose(x.thorough ? 4 : 3);
    string s = "ROWS" + sep + std::to_string(rows); int q = 0;
    for (int i = 0; i < rows; i++) { if (how) s += sep + std::to_string(len[i]); for (int j = 0; j < len[i]; j++) s += sep + Kind<T>::text((seed + q++ * step) % 7); }
    if (tail) s += sep;
    x.note("%s %s from \"%s\"", tn, how == 0 ? "1D file" : how == 1 ? "2D file" : "2D string", s.c_str());
    string f = x.scratch + "/b.txt"; if (how < 2) spill(f, s);
    int r = -7; bool ok = true, extent = true; size_t live = 0, now = 1;
    for (int k = 0; k < 2 && live != now; k++) {
        live = mc::live_blocks(); r = -7; q = 0;
        if (how == 0) {
            T* d = nullptr; Read1DArrayFromTxtFile(f.c_str(), r, d);
            if (r == rows) for (int i = 0; i < rows; i++) { if (d[i] != Kind<T>::value((seed + q++ * step) % 7)) ok = false; d[i] = T(1); }
            Release1DArray(d); if (d) extent = false;
        } else {
            T** d = nullptr; if (how == 1) Read2DArrayFromTxtFile(f.c_str(), r, d); else Read2DArrayFromString(s.c_str(), r, d);
            if (r == rows) for (int i = 0; i < rows; i++) {
                if (d[i][0] != T(len[i])) ok = false;
                for (int j = 1; j <= len[i]; j++) if (d[i][j] != Kind<T>::value((seed + q++ * step) % 7)) ok = false;
                for (int j = 0; j <= len[i]; j++) d[i][j] = T(2);
            }
            if (r == rows) { for (int i = 0; i < rows; i++) delete[] d[i]; delete[] d; }
        }
        now = mc::live_blocks();
    }
    MC_EQ(x, "rows-read", r, rows); MC_EQ(x, "values-read", ok, true); MC_EQ(x, "released", extent, true);
    if (r == rows) MC_EQ(x, "read-memory", now, live);
    x.outcome((uint64_t)(rows * 8 + how));
}
MC_BODY(read, 16) {
    int t = x.choose(3); if (!x.mine()) return;
    if (t == 0) reading<int>(x, "int"); else if (t == 1) reading<float>(x, "float"); else reading<double>(x, "double");
}
MC_BODY(write_then_read, 4) {       // what is written reads back, each value within half a unit of its sixth digit
    int rows = x.range(1, 4), cols = x.range(1, 4), seed = x.choose(NV), step = x.choose(NV); if (!x.mine()) return;
    x.note("%d x %d, values %d+%d*i", rows, cols, seed, step);
    mc::clean_dir(x.scratch); string f = x.scratch + "/c.txt"; float* d = new float[rows * cols]; const float** p = new const float*[rows];
    for (int i = 0; i < rows * cols; i++) d[i] = V[(seed + i * step) % NV]; for (int i = 0; i < rows; i++) p[i] = d + i * cols;
    Output2DArrayToTxtFile(rows, cols, p, f.c_str());
    std::istringstream lines(slurp(f)); string l, s = "N " + std::to_string(rows); int nl = 0;
    while (std::getline(lines, l)) { s += "\n" + std::to_string(cols) + " " + l; nl++; }
    double** g = nullptr; int r = 0; bool ok = true; Read2DArrayFromString(s.c_str(), r, g);
    MC_EQ(x, "lines", nl, rows); MC_EQ(x, "rows-back", r, rows);
    if (r == rows && nl == rows) for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { double e = d[i * cols + j]; if (!(std::fabs(g[i][j + 1] - e) <= std::fabs(e) * 5.0000001e-6)) ok = false; }
    for (int i = 0; g && i < r; i++) delete[] g[i]; delete[] g; delete[] p; delete[] d;
    MC_EQ(x, "values-back", ok, true); x.outcome((uint64_t)(seed * 64 + step));
}
