// R09: statistics of rasters describe their valid cells
#include "raster.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const int SHAPES[][2] = {{1,1},{1,2},{2,1},{1,3},{2,2},{1,4},{2,3}};
static const char* NAME[] = {"NUM", "MEAN", "MAX", "MIN", "STD", "RANGE"};
struct Ref { double v[6]; };
static Ref ref(const G& g, int k) { double n = 0, mx = 0, mn = 0; long double s = 0, q = 0; for (int i = 0; i < g.r * g.c; i++) { double v = g.v[i * g.l + k]; if (v == g.nd) continue; if (n == 0 || v > mx) mx = v; if (n == 0 || v < mn) mn = v; n++; s += v; }
    if (n) for (int i = 0; i < g.r * g.c; i++) { double v = g.v[i * g.l + k]; if (v != g.nd) q += (v - s / n) * (v - s / n); }
    Ref r = {{n, n ? (double)(s / n) : 0, mx, mn, n ? (double)std::sqrt(q / n) : 0, mx - mn}}; return r; }
static bool close_to(double a, double b, double sc) { return a == b || std::fabs(a - b) <= 1e-6 * sc; }
template <typename R> static double named(R* r, int s, int lyr) { return s == 0 ? r->GetValidNumber(lyr) : s == 1 ? r->GetAverage(lyr) : s == 2 ? r->GetMaximum(lyr) : s == 3 ? r->GetMinimum(lyr) : s == 4 ? r->GetStd(lyr) : r->GetRange(lyr); }
template <typename R> static void arrays(R* r, int s, int* n, double** v) { if (s == 0) r->GetValidNumber(n, v); else if (s == 1) r->GetAverage(n, v); else if (s == 2) r->GetMaximum(n, v); else if (s == 3) r->GetMinimum(n, v); else if (s == 4) r->GetStd(n, v); else r->GetRange(n, v); }
static const char* KEY[] = {STATS_RS_VALIDNUM, STATS_RS_MEAN, STATS_RS_MAX, STATS_RS_MIN, STATS_RS_STD, STATS_RS_RANGE};
// first: the statistic asked for first; way: 0 named getters, 1 by name, 2 whole arrays
template <typename R> static void judge(mc::X& x, const char* key, R* r, const G& g, int first, int way) {
    for (int t = 0; t < 6; t++) { int s = (first + t) % 6;
        for (int k0 = 0; k0 < g.l; k0++) { int k = first % 2 ? g.l - 1 - k0 : k0; Ref w = ref(g, k); double sc = std::fabs(w.v[2]) + std::fabs(w.v[3]) + 1, got; x.step(); string low;
            if (way == 2 && g.l > 1) { int n = -1; double* v = nullptr; arrays(r, s, &n, &v); if (n != g.l || !v) { x.fail(key, "%s of all layers is not available", NAME[s]); return; } got = v[k]; }
            else if (way == 1) { low = KEY[s]; for (char& c : low) c = (char)tolower(c); got = r->GetStatistics(first % 2 ? low : string(KEY[s]), k + 1); }
            else got = named(r, s, k + 1);
            if (s && w.v[0] == 0) continue;
            if (s == 0 ? got != w.v[0] : !close_to(got, w.v[s], sc)) { x.fail(key, "%s of layer %d is %.9g, expected %.9g", NAME[s], k + 1, got, w.v[s]); return; } } }
}
template <typename T> static vector<double> pool(double nd) { vector<double> v; v.push_back(nd); v.push_back(0); v.push_back(1); v.push_back(std::is_unsigned<T>::value ? 254 : -3); v.push_back(std::numeric_limits<T>::is_integer ? 100 : 7.25); return v; }
static const char* CONF[] = {"plain", "positions", "from file", "compact from file", "values over a mask", "copied", "copied after calculation"};
template <typename T> static clsRasterData<T>* make(mc::X& x, const G& g0, G& g, int conf, vector<clsRasterData<T>*>& others) {
    typedef clsRasterData<T> R; g = g0; R* r = nullptr; auto compacted = [&]() { for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] == g.nd) for (int k = 1; k < g.l; k++) g.v[i * g.l + k] = g.nd; };
    if (conf <= 1) { r = from_data<T>(g); if (conf) { r->SetCalcPositions(); compacted(); } }
    else if (conf <= 3) { vector<string> f; for (int k = 0; k < g.l; k++) f.push_back(input_file(g, k, 0)); r = g.l == 1 ? R::Init(f[0], conf == 3) : R::Init(f, conf == 3); compacted(); }
    else if (conf == 4) { G m = g.layer(0); for (double& d : m.v) if (d != m.nd) d = 5; R* mask = from_data<T>(m); others.push_back(mask); vector<int> p = g.valid(); compacted();
        if (g.l == 1) { vector<T> v; for (int c : p) v.push_back((T)g.v[c]); r = new R(mask, v.data(), (int)v.size()); } else { T** v = nullptr; Initialize2DArray((int)p.size(), g.l, v, (T)0); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < g.l; k++) v[i][k] = (T)g.v[p[i] * g.l + k]; r = new R(mask, v, (int)p.size(), g.l); Release2DArray(v); } }
    else { R* s = from_data<T>(g); others.push_back(s); if (conf == 6) s->CalculateStatistics(); r = new R(s); }
    if (!r) x.fail("create", "no raster was created"); return r; }
// every grid: all the statistics, starting with each of them, in each way of asking
template <typename T> static void grids(mc::X& x, int nshape, int l, double nd) {
    int s = x.choose(nshape); G g0(SHAPES[s][0], SHAPES[s][1], l, nd), g; vector<double> p = pool<T>(nd); int cells = g0.r * g0.c; if (l > 1 && cells * l > (x.thorough ? 8 : 6)) return;
    int conf = x.choose(7); if (cells > 4 && conf % 2 == 0 && !x.thorough) return; if (!x.mine()) return; for (double& d : g0.v) d = p[x.choose(cells * l > 5 ? 3 + (conf == 1) : 5)];
    if (!g0.count() && (conf == 1 || conf == 3 || conf == 4)) return;
    x.note("%s %s", CONF[conf], g0.show().c_str()); static int turn = 0;
    vector<clsRasterData<T>*> others; clsRasterData<T>* r = make<T>(x, g0, g, conf, others); if (!r) return; x.outcome(g.show());
    int first = x.choose(6), way = x.choose(l > 1 ? 3 : 2); x.also(", %s first, %s", NAME[first], way == 0 ? "named" : way == 1 ? "by name" : "all layers"); (void)turn;
    judge(x, "statistics", r, g, first, way); judge(x, "statistics-again", r, g, 0, way);
    if (way == 1) { MC_EQ(x, "unknown", r->GetStatistics("nonsense"), r->GetDefaultValue()); MC_EQ(x, "layer", r->GetStatistics(STATS_RS_MEAN, l + 1), r->GetDefaultValue()); MC_EQ(x, "layer", r->GetStatistics(STATS_RS_MEAN, 0), r->GetDefaultValue()); }
    delete r; for (auto* o : others) delete o;
}
// statistics interleaved with changes: current after a refresh, and when asked for the first time
enum { OPS = 15 };
template <typename T> static void history(mc::X& x, int l, int depth, double nd) {
    typedef clsRasterData<T> R; static const double A[3][4] = {{1, -3, 5, 2}, {0, 1, 0, 8}, {2, 0, 0, 0}}; int conf = x.choose(5), which = x.choose(3), len = x.range(1, depth), o0 = x.choose(OPS); if (!x.mine()) return;
    G g0(2, 2, l, nd), g; for (int i = 0; i < 4; i++) for (int k = 0; k < l; k++) { double a = A[(which + k) % 3][(i + k) % 4]; g0.v[i * l + k] = a == 0 ? nd : std::is_unsigned<T>::value ? std::fabs(a) : a; } if (!g0.has(0, 0)) g0.at(0, 0) = 4;
    x.note("%s %s", CONF[conf], g0.show().c_str()); vector<R*> others; R* r = make<T>(x, g0, g, conf, others); if (!r) return;
    vector<int> list = g.valid(); bool P = r->PositionsCalculated(); bool fresh = true /* statistics, if calculated, describe the values */, known = false;
    auto stored = [&](int c) { return !P || std::count(list.begin(), list.end(), c); };
    auto changed = [&]() { if (known) fresh = false; };
    auto query = [&](int first, int way) { if (fresh) judge(x, "history", r, g, first, way); else named(r, first, 1); known = true; };
    for (int t = 0; t < len && x.nviol == 0; t++) { int o = t ? x.choose(OPS) : o0; x.step();
        switch (o) {
        case 0: case 1: case 2: { int c = o == 0 ? 0 : 3, k = o == 1 ? l - 1 : 0; double v = o == 2 ? g.nd : 50; x.also("; cell %d layer %d := %g", c, k + 1, v); r->SetValue(c / 2, c % 2, (T)v, k + 1); if (stored(c)) { g.v[c * l + k] = v; changed(); } break; }
        case 3: { x.also("; ReplaceNoData(5)"); r->ReplaceNoData((T)5); for (double& d : g.v) if (d == g.nd) d = 5; g.nd = 5; changed(); break; }
        case 4: { x.also("; Reclassify(1:7 5:1 2:2)"); map<int, T> m; m[1] = 7; m[2] = 2; if (g.nd != 5) m[5] = 1; r->Reclassify(m); for (double& d : g.v) if (d != g.nd) { auto it = m.find((int)d); d = it == m.end() ? g.nd : (double)it->second; } changed(); break; }
        case 5: x.also("; UpdateStatistics"); r->UpdateStatistics(); fresh = known = true; break;
        case 6: x.also("; CalculateStatistics"); r->CalculateStatistics(); known = true; break;
        case 7: x.also("; mean?"); query(1, 0); break;
        case 8: x.also("; all?"); query(4, 1); break;
        case 9: x.also("; layers?"); query(2, 2); break;
        case 10: x.also("; ReleaseStatsMap2D"); r->ReleaseStatsMap2D(); if (l > 1) { known = false; fresh = true; } break;
        case 11: { x.also("; copied"); R* n = new R(r); delete r; r = n; break; }
        case 12: { x.also("; copied into a raster with statistics"); G h(1, 2, l == 1 ? 2 : l, nd); h.v.assign(h.v.size(), 3); if (t % 2 == 0) h = G(1, 2, 1, nd); R* n = from_data<T>(h); n->CalculateStatistics(); n->Copy(r); delete r; r = n; break; }
        case 13: { x.also("; other files read"); for (auto*& q : others) { (void)q; } G h(1, 3, l, -9999); if (std::is_unsigned<T>::value) h.nd = 255; for (int i = 0; i < 3; i++) for (int k = 0; k < l; k++) h.v[i * l + k] = i == 1 ? h.nd : 10 + 5 * i + k; vector<string> f; for (int k = 0; k < l; k++) f.push_back(input_file(h, k, 0));
            bool ok = l == 1 ? r->ReadFromFile(f[0]) : r->ReadFromFiles(f); if (!ok) { x.fail("reread", "reading other files failed"); break; } P = r->PositionsCalculated(); list = h.valid(); g = h; known = false; fresh = true; len = 0;
            query(0, 0); r->UpdateStatistics(); query(3, 1); break; }
        case 14: if (P || !g.count()) break; x.also("; SetCalcPositions"); r->SetCalcPositions(); P = true; list = g.valid(); for (int i = 0; i < 4; i++) if (!stored(i)) for (int k = 0; k < l; k++) { if (g.v[i * l + k] != g.nd) changed(); g.v[i * l + k] = g.nd; } break;
        } }
    if (fresh) query(5, l > 1 ? 2 : 0);
    if (x.nviol == 0) { r->UpdateStatistics(); fresh = true; query(0, 1); x.outcome(g.show()); }
    delete r; for (auto* o : others) delete o;
}
MC_BODY(grids_float, 24) { grids<float>(x, x.thorough ? 7 : 6, 1, -9999); }
MC_BODY(grids_int, 24) { grids<int>(x, 6, 1, -9999); }
MC_BODY(grids_double, 8) { grids<double>(x, 5, 1, -3.4028234663852886e38); }
MC_BODY(grids_byte, 8) { grids<unsigned char>(x, 5, 1, 255); }
MC_BODY(layers2, 16) { grids<float>(x, 5, 2, -9999); }
MC_BODY(layers3, 16) { grids<double>(x, 3, 3, -9999); }
MC_BODY(history1, 16) { history<int>(x, 1, x.thorough ? 4 : 3, -9999); }
MC_BODY(history2, 16) { history<float>(x, 2, x.thorough ? 4 : 3, -9999); }
MC_BODY(history3, 8) { history<unsigned char>(x, 3, 3, 255); }
// rasters beyond the sizes of blocks and narrow counters
template <typename T> static void sizes(mc::X& x, double nd) { int sz = x.choose(NSIZES), kind = x.choose(NKINDS), l = few_or_many(x), conf = x.choose(7), first = x.choose(6), way = x.choose(3); if (!x.mine()) return; if (l > 2 && sz > (x.thorough ? 3 : 2)) return; if (way == 2 && l == 1) return; if (!x.thorough && (kind + conf + first + way) % (sz >= 4 ? 16 : 4)) return;
    G g0 = sized<T>(sz, kind, l, nd), g; if (!std::numeric_limits<T>::is_integer) for (size_t i = 0; i < g0.v.size(); i++) if (g0.v[i] != nd) g0.v[i] = (T)(100 - g0.v[i] / 16); x.note("%s %s", CONF[conf], g0.show().c_str()); vector<clsRasterData<T>*> others; clsRasterData<T>* r = make<T>(x, g0, g, conf, others); if (!r) return; x.outcome(g.show()); judge(x, "statistics", r, g, first, way); delete r; for (auto* o : others) delete o; }
MC_BODY(sizes_float, 24) { sizes<float>(x, -9999); }
MC_BODY(sizes_int, 24) { sizes<int>(x, -9999); }
MC_BODY(sizes_byte, 24) { sizes<unsigned char>(x, 255); }
