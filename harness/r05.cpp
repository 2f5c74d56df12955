// R05: coordinates and cells convert back and forth
#include "raster.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const double ORG[] = {0, 2, -9999, 0.1, -0.5, 512345.678901, -179.99583333333334, 38000000.5, 1e6 / 3, -4287654.321, 123456789, 5e-4};
static const double CS[] = {1, 2, 30, 0.5, 0.1, 0.008333333333333333, 10.0 / 3, 1000, 1e-3, 90};
static const double OFF[] = {0, 0.25, -0.25, 0.499999, -0.499999, 0.49, -0.375};
template <typename T> static void go(mc::X& x, int rmax, int cmax) {
    int ox = x.choose(12), oy = x.choose(x.thorough ? 12 : 5); double cs = CS[x.choose(10)]; if (!x.mine()) return; int r = x.range(1, rmax), c = x.range(1, cmax); int how = x.choose(4);
    int oi = (ox * 3 + oy * 5 + 1) % 12; G g(r, c, 1, -9999, ORG[ox], x.thorough ? ORG[oy] : ORG[oi], cs); if (std::fabs(g.x) + std::fabs(g.y) > 1e8 * cs) x.prune();     // the offsets must be told apart
    for (int i = 0; i < r * c; i++) g.v[i] = (how == 1 && i % 3 == 1 && r * c > 1) ? g.nd : i + 1;
    x.note("%s%s", g.show().c_str(), how == 1 ? " with positions" : how == 2 ? " from an ASCII file with corner" : how == 3 ? " through a given header" : "");
    clsRasterData<T>* rs; if (how == 2) { std::ostringstream o; o.precision(17); o << "NCOLS " << c << "\nNROWS " << r << "\nXLLCORNER " << g.x - cs / 2 << "\nYLLCORNER " << g.y - cs / 2 << "\nCELLSIZE " << cs << "\nNODATA_VALUE -9999\n"; for (int i = 0; i < r * c; i++) o << i + 1 << "\n"; put("c.asc", o.str()); rs = clsRasterData<T>::Init("c.asc"); if (!rs) { x.fail("read", "cannot be read"); return; } }
    else if (how == 3) { G d(2, 2, 1, -9999, 777, 888, 9); for (double& v : d.v) v = 1; rs = from_data<T>(d); } else rs = from_data<T>(g); if (how == 1) rs->SetCalcPositions();
    STRDBL_MAP h; if (how == 3) { h[HEADER_RS_NCOLS] = c; h[HEADER_RS_NROWS] = r; h[HEADER_RS_XLL] = g.x; h[HEADER_RS_YLL] = g.y; h[HEADER_RS_CELLSIZE] = cs; h[HEADER_RS_NODATA] = -9999; h[HEADER_RS_LAYERS] = 1; }
    vector<int> list = g.valid(); map<int, int> ix; for (size_t i = 0; i < list.size(); i++) ix[list[i]] = (int)i; double tol = 1e-9 * cs + 4e-16 * (std::fabs(g.x) + std::fabs(g.y));
    auto inside = [&](double px, double py, int i, int j) { x.step();
        ROW_COL p = how == 3 ? rs->GetPositionByCoordinate(px, py, &h) : rs->GetPositionByCoordinate(px, py); if (p.first != i || p.second != j) { x.fail("cell", "(%.17g,%.17g) is in cell (%d,%d), expected (%d,%d)", px, py, p.first, p.second, i, j); return; }
        if (how == 3) return; int want = how == 1 ? (g.has(i, j) ? ix[i * c + j] : -1) : i * c + j; int q = rs->GetPosition(px, py); if (q != want) { x.fail("index", "(%.17g,%.17g) has index %d, expected %d", px, py, q, want); return; }
        float fx = (float)px, fy = (float)py; if (std::fabs(fx - g.cx(j)) < 0.4999 * cs && std::fabs(fy - g.cy(i)) < 0.4999 * cs) { q = rs->GetPosition(fx, fy); if (q != want) x.fail("index-float", "(%.9g,%.9g) has index %d, expected %d", fx, fy, q, want); } };
    auto outside = [&](double px, double py) { x.step(); ROW_COL p = how == 3 ? rs->GetPositionByCoordinate(px, py, &h) : rs->GetPositionByCoordinate(px, py); bool o = p.first < 0 && p.second < 0; int q = how == 3 ? -2 : rs->GetPosition(px, py); if (!o) x.fail("outside-cell", "(%.17g,%.17g) is outside but was given cell (%d,%d)", px, py, p.first, p.second); if (q != -2) x.fail("outside-index", "(%.17g,%.17g) is outside but has index %d", px, py, q); };
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        for (double a : OFF) for (double b : OFF) inside(g.cx(j) + a * cs, g.cy(i) + b * cs, i, j);
        if (how != 3) { XY_COOR q = rs->GetCoordinateByRowCol(i, j); if (std::fabs(q.first - g.cx(j)) > tol || std::fabs(q.second - g.cy(i)) > tol) x.fail("centre", "the centre of cell (%d,%d) is given as (%.17g,%.17g), expected (%.17g,%.17g)", i, j, q.first, q.second, g.cx(j), g.cy(i)); inside(q.first, q.second, i, j); }
    }
    double w = g.cx(0) - cs / 2, e = g.cx(c - 1) + cs / 2, s = g.cy(r - 1) - cs / 2, n = g.cy(0) + cs / 2;
    static const double D[] = {1e-6, 0.3, 0.5, 0.99, 1, 5, 1000, 1e10};
    for (double d : D) { for (int j = 0; j < c; j++) { outside(g.cx(j), n + d * cs); outside(g.cx(j), s - d * cs); } for (int i = 0; i < r; i++) { outside(w - d * cs, g.cy(i)); outside(e + d * cs, g.cy(i)); }
        outside(w - d * cs, n + d * cs); outside(e + d * cs, n + d * cs); outside(w - d * cs, s - d * cs); outside(e + d * cs, s - d * cs); }
    delete rs; x.outcome(g.show());
}
MC_BODY(points_float, 16) { go<float>(x, x.thorough ? 6 : 4, x.thorough ? 7 : 5); }
MC_BODY(points_int, 8) { go<int>(x, 2, 3); }
// wide and tall rasters: every cell of one row or column
MC_BODY(long_rasters, 8) {
    int n[] = {17, 255, 256, 1000, 4097}; int k = x.choose(5); bool tall = x.flag(); double cs = CS[x.choose(10)]; int o = x.choose(12); if (!x.mine()) return; G g(tall ? n[k] : 2, tall ? 2 : n[k], 1, -9999, ORG[o], ORG[(o * 5 + 3) % 12], cs); if (std::fabs(g.x) + std::fabs(g.y) > 1e8 * cs) x.prune(); for (double& v : g.v) v = 1;
    x.note("%dx%d at (%.12g,%.12g)/%.12g", g.r, g.c, g.x, g.y, cs); FR* rs = from_data<float>(g); int bad = 0;
    for (int i = 0; i < g.r && !bad; i++) for (int j = 0; j < g.c && !bad; j++) { XY_COOR q = rs->GetCoordinateByRowCol(i, j); static const double O[] = {0, 0.4999, -0.4999}; for (double a : O) { x.step(); ROW_COL p = rs->GetPositionByCoordinate(q.first + a * cs, q.second - a * cs); int ix = rs->GetPosition(q.first + a * cs, q.second - a * cs); if (p.first != i || p.second != j || ix != i * g.c + j) { bad = 1; x.fail("cell", "a point of cell (%d,%d) is given cell (%d,%d), index %d", i, j, p.first, p.second, ix); break; } } }
    delete rs; }
