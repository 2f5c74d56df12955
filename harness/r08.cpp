// R08: sequences of operations on one raster against a plain grid of values
#include "raster.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const char* CONF[] = {"plain", "positions calculated", "compact from file", "values over a mask", "file through a mask", "compact file through a mask"};
template <typename T> struct St {         // the raster, the reference and what else is alive
    clsRasterData<T>* r; G g; vector<int> list; bool P; vector<clsRasterData<T>*> others; double dflt; bool has_dflt;
    St(): r(nullptr), P(false), dflt(0), has_dflt(false) {}
    ~St() { delete r; for (auto* o : others) delete o; }
    void compact() { if (P) return; P = true; list = g.valid(); std::set<int> s(list.begin(), list.end()); for (int i = 0; i < g.r * g.c; i++) if (!s.count(i)) for (int k = 0; k < g.l; k++) g.v[i * g.l + k] = g.nd; }
    bool stored(int c) const { return !P || std::binary_search(list.begin(), list.end(), c); }
};
static bool close_to(double a, double b) { return a == b || std::fabs(a - b) <= 1e-5 * (std::fabs(a) + std::fabs(b)); }
template <typename R> static void stats(mc::X& x, const string& key, R* r, const G& g) {
    for (int k = 0; k < g.l; k++) { double n = 0, s = 0, q = 0, mx = 0, mn = 0; for (int i = 0; i < g.r * g.c; i++) { double v = g.v[i * g.l + k]; if (v == g.nd) continue; if (n == 0 || v > mx) mx = v; if (n == 0 || v < mn) mn = v; n++; s += v; }
        if (n) for (int i = 0; i < g.r * g.c; i++) { double v = g.v[i * g.l + k]; if (v != g.nd) q += (v - s / n) * (v - s / n); }
        x.step(6); if (r->GetValidNumber(k + 1) != (int)n) { x.fail(key + "-count", "layer %d has %d valid cells according to its statistics, expected %g", k + 1, r->GetValidNumber(k + 1), n); return; }
        if (!n) continue;
        double a[5] = {r->GetAverage(k + 1), r->GetMaximum(k + 1), r->GetMinimum(k + 1), r->GetStd(k + 1), r->GetRange(k + 1)}, w[5] = {s / n, mx, mn, std::sqrt(q / n), mx - mn}; static const char* N[] = {"mean", "maximum", "minimum", "standard deviation", "range"};
        for (int i = 0; i < 5; i++) if (!close_to(a[i], w[i])) { x.fail(key, "%s of layer %d is %.9g, expected %.9g", N[i], k + 1, a[i], w[i]); return; } }
}
// initial grids: 2x3 over few values, no-data in different places
template <typename T> static G grid0(int which, int l, double nd) {
    static const int A[4][6] = {{1, 2, -1, 3, 1, -1}, {-1, 1, 1, -1, 2, 5}, {7, 7, 2, 2, 1, 1}, {-1, 3, -1, -1, -1, -1}};
    G g(2, 3, l, nd); for (int i = 0; i < 6; i++) for (int k = 0; k < l; k++) { int a = A[(which + k) % 4][(i + 2 * k) % 6]; g.v[i * l + k] = a < 0 ? nd : a; } return g; }
template <typename T> static bool make(mc::X& x, St<T>& s, int conf) {
    typedef clsRasterData<T> R; G& g = s.g;
    if (conf == 0 || conf == 1) { s.r = from_data<T>(g); if (conf == 1) { s.r->SetCalcPositions(); s.compact(); } }
    else if (conf == 2) { vector<string> f; for (int k = 0; k < g.l; k++) f.push_back(input_file(g, k, 0)); s.r = g.l == 1 ? R::Init(f[0], true) : R::Init(f, true); s.compact(); }
    else { G m(2, 3, 1, g.nd); for (int i = 0; i < 6; i++) if (i != 4) m.v[i] = 1;                     // a mask without cell 4
        R* mask = from_data<T>(m); s.others.push_back(mask); vector<int> p = m.valid(); int ml; int* mp; mask->GetRasterPositionData(&ml, &mp);
        for (int k = 0; k < g.l; k++) g.v[4 * g.l + k] = g.nd;
        if (conf == 3) { if (g.l == 1) { vector<T> v; for (int c : p) v.push_back((T)g.v[c]); s.r = new R(mask, v.data(), (int)v.size()); } else { T** v = nullptr; Initialize2DArray((int)p.size(), g.l, v, (T)0); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < g.l; k++) v[i][k] = (T)g.v[p[i] * g.l + k]; s.r = new R(mask, v, (int)p.size(), g.l); Release2DArray(v); } s.P = true; s.list = p; }
        else { vector<string> f; for (int k = 0; k < g.l; k++) f.push_back(input_file(g, k, 0)); s.r = g.l == 1 ? R::Init(f[0], conf == 5, mask, true) : R::Init(f, conf == 5, mask, true);
            if (!s.r) { x.fail("create", "reading through the mask failed"); return false; }
            s.P = s.r->PositionsCalculated(); s.list = s.r->GetCellNumber() == 5 ? p : g.valid();
            if (g.l > 1) for (int i = 0; i < 6; i++) if (g.v[i * g.l] == g.nd && conf != 3) for (int k = 0; k < g.l; k++) g.v[i * g.l + k] = s.r->GetValue(i / 3, i % 3, k + 1) == (T)g.nd ? g.nd : g.v[i * g.l + k]; } }
    if (!s.r) { x.fail("create", "no raster was created"); return false; }
    return true;
}
enum { N_SET = 6, OPS = N_SET + 14 };
// returns false when the operation is not applicable in this state
template <typename T> static bool op(mc::X& x, St<T>& s, int o) {
    typedef clsRasterData<T> R; G& g = s.g; R* r = s.r; x.step();
    if (o < N_SET) { static const int C[] = {0, 2, 5}; int c = C[o % 3], k = g.l > 1 ? o % 2 : 0; double v = o < 3 ? 9 : o == 3 ? g.nd : 2; x.also("; (%d,%d) layer %d := %g", c / 3, c % 3, k + 1, v); r->SetValue(c / 3, c % 3, (T)v, k + 1); if (s.stored(c)) g.v[c * g.l + k] = v; return true; }
    switch (o - N_SET) {
    case 0: case 1: case 2: { double v = o - N_SET == 0 ? 7 : o - N_SET == 1 ? 2 : 0; x.also("; ReplaceNoData(%g)", v); r->ReplaceNoData((T)v); for (double& d : g.v) if (d == g.nd) d = v; g.nd = v; s.dflt = v; s.has_dflt = true; return true; }
    case 3: case 4: case 5: { map<int, T> m; int w = o - N_SET; if (w == 3) { m[1] = (T)10; m[2] = (T)20; m[9] = (T)9; m[3] = (T)1; } else if (w == 4) { m[1] = (T)2; m[2] = (T)1; m[3] = (T)g.nd; m[10] = (T)3; } else m[7] = (T)5;
        m.erase((int)g.nd); x.also("; Reclassify(%s)", w == 3 ? "1:10 2:20 9:9 3:1" : w == 4 ? "1:2 2:1 3:no-data 10:3" : "7:5"); map<int, T> before = m; r->Reclassify(m); if (m != before) x.fail("reclassify-map", "the caller's map was changed");
        for (double& d : g.v) if (d != g.nd) { auto it = m.find((int)d); d = it == m.end() ? g.nd : (double)it->second; } return true; }
    case 6: if (s.P || !g.count()) return false; x.also("; SetCalcPositions"); if (!r->SetCalcPositions()) x.fail("positions", "SetCalcPositions failed"); s.compact(); return true;
    case 7: { if (!s.P && !g.count()) return false; x.also("; GetRasterPositionData"); int n; int** p; r->GetRasterPositionData(&n, &p); s.compact(); return true; }
    case 8: x.also("; SetDefaultValue(4)"); r->SetDefaultValue(4); s.dflt = 4; s.has_dflt = true; return true;
    case 9: x.also("; UpdateStatistics"); r->UpdateStatistics(); stats(x, "statistics", r, g); return true;
    case 10: x.also("; GetAverage"); r->GetAverage(1); return true;
    case 11: x.also("; SetOutDataType"); r->SetOutDataType(RDT_Double); r->SetCoreName("other"); return true;
    case 12: { x.also("; continue with a copy"); R* n = new R(r); delete r; s.r = n; return true; }
    case 13: { x.also("; assign from a copy"); R* n = new R(r); r->ReplaceNoData((T)33); r->Copy(n); delete n; if (!s.has_dflt) s.dflt = r->GetDefaultValue(); return true; }
    }
    return false;
}
template <typename T> static void judge(mc::X& x, St<T>& s, const string& key) {
    G& g = s.g; x.outcome(g.show() + (s.P ? "p" : "f")); same(x, key, s.r, g, s.P ? &s.list : nullptr, s.P); if (s.has_dflt) MC_EQ(x, "default", s.r->GetDefaultValue(), s.dflt); }
template <typename T> static void run(mc::X& x, int l, int depth, double nd, int confs) {
    int conf = x.choose(confs), which = x.choose(4), len = x.choose(depth + 1); int o0 = len ? x.choose(OPS) : -1; if (!x.mine()) return;
    St<T> s; s.g = grid0<T>(which, l, nd); x.note("%s, %s", CONF[conf], s.g.show().c_str());
    if (!make(x, s, conf)) return;
    for (int i = 0; i < len; i++) { int o = i ? x.choose(OPS) : o0; if (!op(x, s, o)) return; }
    judge(x, s, "sequence"); if (len && x.nviol == 0) { s.r->UpdateStatistics(); stats(x, "statistics", s.r, s.g); }
}
// after the operations, the raster is written and read by independent readers
template <typename T> static void out(mc::X& x, int l, int depth, double nd) {
    int conf = x.choose(4), which = x.choose(3), len = depth, o0 = x.choose(OPS); if (!x.mine()) return; bool tif = x.flag();
    St<T> s; s.g = grid0<T>(which, l, nd); x.note("%s, %s", CONF[conf], s.g.show().c_str()); if (!make(x, s, conf)) return;
    for (int i = 0; i < len; i++) { int o = i ? x.choose(OPS) : o0; if (!op(x, s, o)) return; }
    string dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); x.also("; written as %s", tif ? "GeoTIFF" : "ASCII grid"); x.step();
    if (!s.r->OutputToFile(dir + (tif ? "/r.tif" : "/r.asc"))) { x.fail("output", "writing failed"); return; }
    for (int k = 0; k < l; k++) { G r; bool ok = false; if (l == 1) ok = tif ? tif_read(dir + "/r.tif", r) : asc_read(dir + "/r.asc", r); else for (int b = 1; b >= 0 && !ok; b--) { string f = dir + "/r_" + std::to_string(k + b) + (tif ? ".tif" : ".asc"); struct stat st; if (b == 1 && stat((dir + "/r_0" + (tif ? ".tif" : ".asc")).c_str(), &st) == 0) continue; ok = tif ? tif_read(f, r) : asc_read(f, r); }
        if (!ok) { x.fail("output", "layer %d cannot be read back", k + 1); return; }
        if (r.r != s.g.r || r.c != s.g.c) { x.fail("output", "written as %dx%d", r.r, r.c); return; }
        for (int i = 0; i < s.g.r; i++) for (int j = 0; j < s.g.c; j++) { bool h = s.g.has(i, j, k), hr = r.at(i, j) != r.nd; if (h != hr || (h && r.at(i, j) != s.g.at(i, j, k))) { x.fail("output", "cell (%d,%d) layer %d is %.9g (no-data %.9g) in the file, expected %.9g (no-data %.9g)", i, j, k + 1, r.at(i, j), r.nd, s.g.at(i, j, k), s.g.nd); return; } } }
}
// every fraction is classed by its integer part
MC_BODY(fractions, 4) {
    static const double V[] = {0.5, 1, 1.5, 1.999, 2, 2.5, -0.5, -1.5, -2, 1e6 + 0.5}; int l = x.range(1, 2), conf = x.choose(3); if (!x.mine()) return; G g(1, 3, l, -9999); for (int i = 0; i < 3; i++) for (int k = 0; k < l; k++) { int c = k ? (i + 4) % 11 : x.choose(11); g.v[i * l + k] = c == 10 ? g.nd : V[c]; }
    if (conf && !g.count()) return; x.note("Reclassify(-2:20 -1:10 0:5 1:0 2:-9999 1000000:1), %s, %s", CONF[conf], g.show().c_str()); FR* r = from_data<float>(g); if (conf) r->SetCalcPositions(); vector<int> list = g.valid(); if (conf) for (int i = 0; i < 3; i++) if (!g.has(0, i)) for (int k = 0; k < l; k++) g.at(0, i, k) = g.nd;
    if (conf == 2) { FR* c = new FR(r); delete r; r = c; } map<int, float> m; m[-2] = 20; m[-1] = 10; m[0] = 5; m[1] = 0; m[2] = -9999; m[1000000] = 1;
    r->Reclassify(m); for (double& d : g.v) if (d != g.nd) { auto it = m.find((int)(float)d); d = it == m.end() ? g.nd : it->second; } same(x, "fractions", r, g, conf ? &list : nullptr, conf > 0); delete r;
}
MC_BODY(ints, 48) { run<int>(x, 1, x.thorough ? 4 : 3, -9999, 6); }
MC_BODY(floats, 24) { run<float>(x, 1, x.thorough ? 3 : 2, -9999, 6); }
MC_BODY(doubles_layers, 48) { run<double>(x, 2, x.thorough ? 4 : 3, -9999, x.thorough ? 6 : 4); }
MC_BODY(bytes, 24) { run<unsigned char>(x, 1, 2, 255, 6); }
MC_BODY(shorts_layers, 24) { run<short>(x, 3, 2, -32768, 4); }
MC_BODY(out_int, 16) { out<int>(x, 1, 2, -9999); }
MC_BODY(out_layers, 16) { out<double>(x, 2, x.thorough ? 2 : 1, -9999); }
// sequences of whole-raster operations on rasters beyond the sizes of blocks and narrow counters
template <typename T> static void sizes(mc::X& x, double nd) { int sz = x.choose(NSIZES), kind = x.choose(NKINDS), l = few_or_many(x), conf = x.choose(3), o0 = x.choose(14), o1 = x.choose(14); if (!x.mine()) return; if (l > 2 && sz > (x.thorough ? 3 : 2)) return; if (!x.thorough && (kind + conf * 3 + o0 * 5 + o1) % (sz >= 4 ? 110 : 14)) return;
    St<T> s; s.g = sized<T>(sz, kind, l, nd, 9); x.note("%s, %s", CONF[conf], s.g.show().c_str()); if (!make(x, s, conf)) return; if (!op(x, s, N_SET + o0) || !op(x, s, N_SET + o1)) return; judge(x, s, "sequence"); if (x.nviol == 0) { s.r->UpdateStatistics(); stats(x, "statistics", s.r, s.g); } }
MC_BODY(sizes_int, 32) { sizes<int>(x, -9999); }
MC_BODY(sizes_float, 32) { sizes<float>(x, -9999); }
MC_BODY(sizes_byte, 32) { sizes<unsigned char>(x, 255); }
