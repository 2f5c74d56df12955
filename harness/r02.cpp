// R02: rasters written as ASCII grids read back unchanged
#include "raster.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const int SHAPES[][2] = {{1,1},{1,2},{2,1},{1,3},{2,2},{3,1},{2,3},{3,2}};
static const double GEO[][3] = {{2, 3, 2}, {0.25, -0.125, 0.5}, {512345.678901, 4287654.321098, 30}, {-179.99583333333334, -59.99583333333333, 0.008333333333333333}, {-9999, -9999, 100}, {1e6 / 3, 2e7 / 3, 10.0 / 3}, {0, 0, 1e-4}, {38000000.5, 4400000.25, 1000}};
template <typename T> static vector<double> values() { vector<double> v; typedef std::numeric_limits<T> L;
    double c[] = {0, 1, 7, -1, 42, 255, -128, 127, 32767, 123456, 1234567, -7654321, 2147483647, -2147483648.0, 4294967295.0, 1.5, -0.25, 0.1, 1.0 / 3, 1e-5, -1234.5678, 123456.789, 9999999.5, 1e10, 1e-30, 3.4e38, -3.4e38, 1e300, -9998.5, -9999.5};
    for (double d : c) { if (L::is_integer && d != std::floor(d)) continue; if (d < (double)L::lowest() || d > (double)L::max()) continue; v.push_back((double)(T)d); } return v; }
static bool near6(double a, double b) { return a == b || std::fabs(a - b) <= 5.0001e-6 * std::fabs(b); }
// all the values of a file, told by our own reader
static bool file_is(mc::X& x, const string& f, const G& g, bool exact) {
    G r; if (!asc_read(f, r)) { x.fail("file", "%s is no ASCII grid", f.c_str()); return false; }
    if (r.r != g.r || r.c != g.c) { x.fail("dims", "file is %dx%d, expected %dx%d", r.r, r.c, g.r, g.c); return false; }
    double tol = 1e-9 * (std::fabs(g.x) + std::fabs(g.y)) + 1e-9 * g.cs; if (std::fabs(r.x - g.x) > tol || std::fabs(r.y - g.y) > tol || std::fabs(r.cs - g.cs) > 1e-9 * g.cs) { x.fail("georef", "file has (%.12g,%.12g)/%.12g, expected (%.12g,%.12g)/%.12g", r.x, r.y, r.cs, g.x, g.y, g.cs); return false; }
    if (!near6(r.nd, g.nd)) { x.fail("nodata", "file declares no-data %.12g, expected %.12g", r.nd, g.nd); return false; }
    for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) { double a = r.at(i, j), b = g.at(i, j); if (exact ? a != b : !near6(a, b)) { x.fail("value", "cell (%d,%d) is %.12g in the file, expected %.12g", i, j, a, b); return false; } }
    return true;
}
template <typename T> static void back(mc::X& x, const string& f, const G& g, bool exact) {       // by the library itself
    for (int calc = 0; calc < 2; calc++) { if (calc && !g.count()) continue; clsRasterData<T>* r = clsRasterData<T>::Init(f, calc); x.step(1 + g.r * g.c);
        if (!r) { x.fail("reread", "the written file cannot be read"); return; }
        if (r->GetRows() != g.r || r->GetCols() != g.c) x.fail("dims", "reread as %dx%d", r->GetRows(), r->GetCols());
        else { double tol = 1e-9 * (std::fabs(g.x) + std::fabs(g.y)) + 1e-9 * g.cs; if (std::fabs(r->GetXllCenter() - g.x) > tol || std::fabs(r->GetYllCenter() - g.y) > tol || std::fabs(r->GetCellWidth() - g.cs) > 1e-9 * g.cs) x.fail("georef", "reread at (%.12g,%.12g)/%.12g", r->GetXllCenter(), r->GetYllCenter(), r->GetCellWidth());
            if (!near6((double)r->GetNoDataValue(), g.nd)) x.fail("nodata", "reread no-data %.12g, expected %.12g", (double)r->GetNoDataValue(), g.nd);
            for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) { double a = (double)r->GetValue(i, j), b = g.at(i, j); if (r->IsNoData(i, j) != !g.has(i, j)) { x.fail("nodata-cell", "cell (%d,%d) no-data: %d, expected %d (%.12g)", i, j, (int)r->IsNoData(i, j), (int)!g.has(i, j), b); i = g.r; break; } if (g.has(i, j) && (exact ? a != b : !near6(a, b))) { x.fail("value", "cell (%d,%d) reread as %.12g, expected %.12g", i, j, a, b); i = g.r; break; } }
            if (calc && r->GetCellNumber() != g.count()) x.fail("count", "%d valid cells reread, expected %d", r->GetCellNumber(), g.count()); }
        delete r; } }
static const char* HOW[] = {"OutputToFile", "OutputAscFile", "OutputToFile of a copy", "OutputToFile over an existing file", "OutputToFile to a new directory", "OutputToFile by a relative path"};
template <typename T> static void written(mc::X& x, const G& g, int how, bool calc) { int l = g.l;
    x.note("%s%s: %s", HOW[how], calc ? " with positions" : "", g.show().c_str());
    string dir = "out"; mc::clean_dir(x.scratch + "/out"); mkdir("out", 0777); if (how == 4) dir = "out/deep"; string f = (how == 5 ? string("./") + dir : x.scratch + "/" + dir) + "/res.asc";
    if (how == 3) { string junk(5000, '7'); if (l == 1) put(f, junk); else for (int k = 0; k <= l; k++) put(x.scratch + "/out/res_" + std::to_string(k) + ".asc", junk); }
    clsRasterData<T>* r = from_data<T>(g); if (calc) r->SetCalcPositions(); clsRasterData<T>* c = nullptr; if (how == 2) { c = r; r = new clsRasterData<T>(c); }
    x.step(); bool ok = how == 1 ? r->OutputAscFile(f) : r->OutputToFile(f);
    if (!ok) { if (how != 4) x.fail("refused", "writing failed"); } else {       // a missing directory may be refused
        bool exact = std::numeric_limits<T>::is_integer; dir = x.scratch + "/" + dir; vector<string> all = list_dir(dir), files; for (auto& a : all) if (a.size() > 4 && a.substr(a.size() - 4) == ".asc") files.push_back(a);
        if (l == 1) { if (files != vector<string>{"res.asc"}) x.fail("files", "%zu files were written%s%s", files.size(), files.empty() ? "" : ", first ", files.empty() ? "" : files[0].c_str()); else if (file_is(x, dir + "/res.asc", g, exact)) back<T>(x, dir + "/res.asc", g, exact); }
        else { int base = -1; for (int b = 0; b < 2 && base < 0; b++) { bool m = true; for (int k = 0; k < l; k++) m = m && std::count(files.begin(), files.end(), "res_" + std::to_string(k + b) + ".asc"); if (m) { G q; if (how == 3 && !asc_read(dir + "/res_" + std::to_string(b) + ".asc", q)) continue; base = b; } }
            if (base < 0 || ((int)files.size() != l && how != 3)) x.fail("files", "%zu files were written for %d layers", files.size(), l);
            else { vector<string> names; bool good = true; for (int k = 0; k < l && good; k++) { string n = dir + "/res_" + std::to_string(k + base) + ".asc"; names.push_back(n); G q = g.layer(k); good = file_is(x, n, q, exact); if (good) back<T>(x, n, q, exact); }
                if (good && exact) { G h = g; for (int i = 0; i < g.r * g.c; i++) if (g.v[i * l] == g.nd) for (int k = 1; k < l; k++) h.v[i * l + k] = h.nd; clsRasterData<T>* m = clsRasterData<T>::Init(names, false); h.x = g.x; same(x, "reread-layers", m, h, nullptr, 0); delete m; } } }
        x.outcome(g.show());
    }
    delete r; delete c;
}
template <typename T> static void write(mc::X& x, int nshape, int l, const vector<double>& nds) {
    int s = x.choose(nshape); G g(SHAPES[s][0], SHAPES[s][1], l, nds[x.choose((int)nds.size())]); vector<double> v = values<T>(); bool calc = x.flag(); int how = x.choose(6); if (!x.mine()) return;
    int pat, off; if (how == 0 || x.thorough) { pat = x.choose(1 << (g.r * g.c)); off = x.choose((int)v.size()); } else { pat = (1 << (g.r * g.c)) - 2 + x.choose(2); off = x.choose(3) * 5 % (int)v.size(); }
    int ge = off % 8; g.x = GEO[ge][0]; g.y = GEO[ge][1]; g.cs = GEO[ge][2];
    for (int i = 0; i < g.r * g.c; i++) for (int k = 0; k < l; k++) { double w = v[(off + i * 3 + k * 5) % v.size()]; if (near6(w, g.nd)) w = 1; if ((pat >> i & 1) || (k > 0 && !calc && i % 2)) g.v[i * l + k] = w; }
    if (calc && !g.count()) x.prune();
    written<T>(x, g, how, calc);
}
template <typename T> static void sizes(mc::X& x) {
    int s = x.choose(NSIZES), kind = x.choose(NKINDS), l = few_or_many(x), how = x.choose(3); bool calc = x.flag(); if (!x.mine()) return; if (l > 2 && s > (x.thorough ? 3 : 2)) return; if (!x.thorough && s >= 4 && (kind + how) % 3) return;
    G g = sized<T>(s, kind, l, sizeof(T) == 1 ? 255 : -9999); if (!std::numeric_limits<T>::is_integer) for (size_t i = 0; i < g.v.size(); i++) if (g.v[i] != g.nd) g.v[i] = (T)(g.v[i] + 0.25 * (i % 4)); written<T>(x, g, how, calc);
}
#if PART == 0
MC_BODY(floats, 16) { write<float>(x, 6, 1, {-9999, 0, -3.4028234663852886e38, 1e-7}); }
#endif
#if PART == 1
MC_BODY(doubles, 16) { write<double>(x, 6, 1, {-9999, 123456789.125, -1.7976931348623157e308}); }
#endif
#if PART == 2
MC_BODY(ints, 16) { write<int>(x, 6, 1, {-9999, -2147483648.0, 0, 2147483647}); }
#endif
#if PART == 3
MC_BODY(bytes, 8) { write<unsigned char>(x, 5, 1, {255, 0}); }
#endif
#if PART == 4
MC_BODY(chars, 8) { write<signed char>(x, 5, 1, {-128, 0}); }
#endif
#if PART == 5
MC_BODY(shorts, 8) { write<short>(x, 5, 1, {-32768, -9999}); }
#endif
#if PART == 6
MC_BODY(unsigneds, 8) { write<unsigned int>(x, 5, 1, {4294967295.0, 0}); }
#endif
#if PART == 7
MC_BODY(longs, 8) { write<vint64_t>(x, 5, 1, {-9999}); }
#endif
#if PART == 2
MC_BODY(layers_int, 16) { write<int>(x, 5, 2, {-9999}); }
#endif
#if PART == 0
MC_BODY(layers_float, 16) { write<float>(x, 5, 3, {-9999}); }
#endif
// the plain functions, with every header value
#if PART == 1
MC_BODY(functions, 4) {
    int s = x.choose(8), ge = x.choose(8); if (!x.mine()) return; G g(SHAPES[s][0], SHAPES[s][1], 1, -9999, GEO[ge][0], GEO[ge][1], GEO[ge][2]); for (int i = 0; i < g.r * g.c; i++) g.v[i] = i + 1; int kind = x.choose(3);
    STRDBL_MAP h = InitialHeader(); UpdateHeader(h, HEADER_RS_NCOLS, g.c); UpdateHeader(h, HEADER_RS_NROWS, g.r); UpdateHeader(h, HEADER_RS_XLL, g.x); UpdateHeader(h, HEADER_RS_YLL, g.y); UpdateHeader(h, HEADER_RS_CELLSIZE, g.cs); UpdateHeader(h, HEADER_RS_NODATA, g.nd); UpdateHeader(h, HEADER_RS_LAYERS, 1);
    float* d = data1d<float>(g); string f = x.scratch + "/f.asc"; x.note("function %d: %s", kind, g.show().c_str()); if (x.flag()) put(f, string(3000, 'x')); x.step(); bool ok = kind == 0 ? WriteSingleAsc(f, h, d) : WriteRasterToFile(f, h, STRING_MAP(), d);
    if (kind == 2 && ok) { STRDBL_MAP h2; float* e = nullptr; if (!ReadAscFile(f, h2, e)) x.fail("reread", "the written file cannot be read"); else { float* e2 = e; ok = WriteSingleAsc(f, h2, e2); Release1DArray(e); } }       // written from what was read
    if (!ok) x.fail("refused", "writing failed"); else file_is(x, f, g, true); Release1DArray(d);
}
#endif
#if PART == 5
MC_BODY(sizes_int, 32) { sizes<int>(x); }
#endif
#if PART == 6
MC_BODY(sizes_float, 32) { sizes<float>(x); }
#endif
#if PART == 3
MC_BODY(sizes_byte, 32) { sizes<unsigned char>(x); }
#endif
