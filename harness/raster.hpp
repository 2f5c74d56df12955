// Shared by the raster checks: reference grids, independent writers and readers of files, and the comparison of a
// raster object with a reference grid through every public way of access.
#ifndef RASTER_HPP
#define RASTER_HPP
#include "mc.hpp"
#include "data_raster.hpp"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <sys/stat.h>
#include <dirent.h>
#include <omp.h>
using namespace ccgl; using namespace ccgl::data_raster;
using std::string; using std::vector; using std::map;
typedef clsRasterData<int> IR; typedef clsRasterData<float> FR; typedef clsRasterData<double> DR;
typedef clsRasterData<float, int> FIR; typedef clsRasterData<double, int> DIR_; typedef clsRasterData<int, float> IFR;

struct G {                        // reference: a plain grid of values, cells equal to nd have no data
    int r, c, l; double x, y, cs, nd; vector<double> v;
    G(): r(0), c(0), l(1), x(0), y(0), cs(1), nd(-9999) {}
    G(int r_, int c_, int l_, double nd_, double x_ = 2, double y_ = 3, double cs_ = 2): r(r_), c(c_), l(l_), x(x_), y(y_), cs(cs_), nd(nd_), v((size_t)r_ * c_ * l_, nd_) {}
    double& at(int i, int j, int k = 0) { return v[((size_t)i * c + j) * l + k]; }
    double at(int i, int j, int k = 0) const { return v[((size_t)i * c + j) * l + k]; }
    bool has(int i, int j, int k = 0) const { return at(i, j, k) != nd; }
    int count(int k = 0) const { int n = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) n += has(i, j, k); return n; }
    vector<int> valid() const { vector<int> p; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (has(i, j)) p.push_back(i * c + j); return p; }
    G layer(int k) const { G g(r, c, 1, nd, x, y, cs); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) g.at(i, j) = at(i, j, k); return g; }
    double cx(int j) const { return x + j * cs; }
    double cy(int i) const { return y + (r - 1 - i) * cs; }
    // the value at the place (px, py), or nd outside
    bool locate(double px, double py, int& i, int& j) const {
        double fx = (px - (x - cs / 2)) / cs, fy = ((y + (r - 0.5) * cs) - py) / cs;
        if (fx < 0 || fy < 0 || fx > c || fy > r) return false;
        j = (int)fx; i = (int)fy; if (j == c) j--; if (i == r) i--; return true;
    }
    string show() const {
        string s; char b[160]; snprintf(b, sizeof b, "%dx%d", r, c); s = b; if (l > 1) { snprintf(b, sizeof b, "x%d", l); s += b; }
        snprintf(b, sizeof b, "@(%.9g,%.9g)/%.9g [", x, y, cs); s += b;
        for (int i = 0; i < r; i++) { if (i) s += " / "; for (int j = 0; j < c; j++) for (int k = 0; k < l; k++) { if (k) s += ","; else if (j) s += " "; if (has(i, j, k)) { snprintf(b, sizeof b, "%.9g", at(i, j, k)); s += b; } else s += "-"; } }
        if (s.size() > 400) { char e[60]; snprintf(e, sizeof e, "... #%zx", (size_t)std::hash<string>()(s)); s = s.substr(0, 200) + e; }
        snprintf(b, sizeof b, "] nodata %.9g", nd); return s + b;
    }
};
// ---- rasters beyond the sizes of blocks, buffers and narrow counters: shapes and regular placements of no-data
static const int SIZES[][2] = {{1,300},{300,1},{16,17},{40,33},{129,130},{2,35000}}; enum { NSIZES = 6, NKINDS = 8 };
static const char* KIND[] = {"every cell", "checkerboard", "every 7th cell missing", "first cell only", "last cell only", "first row and last column missing", "scattered cells", "diagonal"};
static inline bool placed(int kind, int i, int j, int r, int c) { uint32_t h = (uint32_t)(i * 131 + j) * 2654435761u; switch (kind) { case 1: return (i + j) % 2 == 0; case 2: return (i * c + j) % 7 != 6; case 3: return i == 0 && j == 0; case 4: return i == r - 1 && j == c - 1; case 5: return (i > 0 || r == 1) && (j < c - 1 || c == 1); case 6: return (h >> 28) < 5; case 7: return i * (long)c / r == j || j * (long)r / c == i; } return true; }
template <typename T> static G sized(int size, int kind, int l, double nd, int modulus = 30000) { G g(SIZES[size][0], SIZES[size][1], l, nd); int m = sizeof(T) == 1 ? std::min(modulus, 120) : modulus; for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) if (placed(kind, i, j, g.r, g.c)) for (int k = 0; k < l; k++) g.at(i, j, k) = 1 + (i * g.c + j + 37 * k) % m; return g; }
static inline int few_or_many(mc::X& x) { static const int L[] = {1, 2, 12}; return L[x.choose(3)]; }      // layers
// ---- independent file writers and readers
static inline string asc_text(const G& g, int k = 0) {
    std::ostringstream o; o.precision(17);
    o << "NCOLS " << g.c << "\nNROWS " << g.r << "\nXLLCENTER " << g.x << "\nYLLCENTER " << g.y << "\nCELLSIZE " << g.cs << "\nNODATA_VALUE " << g.nd << "\n";
    for (int i = 0; i < g.r; i++) { for (int j = 0; j < g.c; j++) o << g.at(i, j, k) << (j + 1 < g.c ? " " : ""); o << "\n"; }
    return o.str();
}
static inline void put(const string& f, const string& t) { FILE* h = fopen(f.c_str(), "wb"); if (!h || fwrite(t.data(), 1, t.size(), h) != t.size() || fclose(h)) { fprintf(stderr, "cannot write %s\n", f.c_str()); abort(); } }
static inline bool get(const string& f, string& t) { FILE* h = fopen(f.c_str(), "rb"); if (!h) return false; char b[65536]; size_t n; t.clear(); while ((n = fread(b, 1, sizeof b, h)) > 0) t.append(b, n); fclose(h); return true; }
// ASCII grid of our own dialect-free parser: upper-case keys, everything else is a failure
static inline bool asc_read(const string& f, G& g) {
    string t; if (!get(f, t)) return false; std::istringstream is(t); string k; double xc = 0, yc = 0; bool hx = false, hy = false, cx = false, cy = false; g = G(); g.nd = NAN;
    while (is >> k) {
        if (k == "NCOLS") is >> g.c; else if (k == "NROWS") is >> g.r; else if (k == "XLLCENTER" || k == "XLLCORNER") { is >> xc; hx = true; cx = k == "XLLCORNER"; }
        else if (k == "YLLCENTER" || k == "YLLCORNER") { is >> yc; hy = true; cy = k == "YLLCORNER"; } else if (k == "CELLSIZE") is >> g.cs; else if (k == "NODATA_VALUE") is >> g.nd;
        else { char* e; double d = strtod(k.c_str(), &e); if (*e) return false; g.v.push_back(d); }
        if (!is) return false;
    }
    g.x = xc + (cx ? g.cs / 2 : 0); g.y = yc + (cy ? g.cs / 2 : 0); g.l = 1; return hx && hy && g.r > 0 && g.c > 0 && g.v.size() == (size_t)g.r * g.c;
}
static inline void tif_write(const string& f, const G& g, int k, GDALDataType t, bool set_nd = true) {
    GDALDriver* d = GetGDALDriverManager()->GetDriverByName("GTiff"); GDALDataset* ds = d->Create(f.c_str(), g.c, g.r, 1, t, nullptr);
    vector<double> b((size_t)g.r * g.c); for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) b[i * g.c + j] = g.at(i, j, k);
    if (ds->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, g.c, g.r, b.data(), g.c, g.r, GDT_Float64, 0, 0) != CE_None) abort();
    if (set_nd) ds->GetRasterBand(1)->SetNoDataValue(g.nd); double gt[6] = {g.x - g.cs / 2, g.cs, 0, g.y + (g.r - 0.5) * g.cs, 0, -g.cs}; ds->SetGeoTransform(gt); GDALClose(ds);
}
static inline bool tif_read(const string& f, G& g, GDALDataType* t = nullptr) {
    struct stat st; if (stat(f.c_str(), &st)) return false; GDALDataset* ds = (GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly); if (!ds) return false;
    GDALRasterBand* b = ds->GetRasterBand(1); g = G(b->GetYSize(), b->GetXSize(), 1, 0); if (t) *t = b->GetRasterDataType(); int ok = 0;
    if (b->GetRasterDataType() == GDT_Int64) g.nd = (double)b->GetNoDataValueAsInt64(&ok); else if (b->GetRasterDataType() == GDT_UInt64) g.nd = (double)b->GetNoDataValueAsUInt64(&ok); else g.nd = b->GetNoDataValue(&ok);
    if (!ok) g.nd = NAN; bool r = b->RasterIO(GF_Read, 0, 0, g.c, g.r, g.v.data(), g.c, g.r, GDT_Float64, 0, 0) == CE_None;
    double gt[6]; ds->GetGeoTransform(gt); g.cs = gt[1]; g.x = gt[0] + g.cs / 2; g.y = gt[3] - (g.r - 0.5) * g.cs; if (gt[5] != -gt[1]) r = false; GDALClose(ds); return r;
}
// Files are written once per worker and named by their contents
static inline string input_file(const G& g, int k, int fmt /* 0 asc, 1 float64 tif, 2 int32 tif, 3 float32 tif */, const char* tag = "in") {
    static map<string, string> have; string key = asc_text(g, k); std::hash<string> h; char b[100];
    snprintf(b, sizeof b, "%s%zx.%s", tag, (size_t)h(key), fmt ? "tif" : "asc"); if (fmt) { snprintf(b, sizeof b, "%s%zx_t%d.tif", tag, (size_t)h(key), fmt); }
    string n = b; auto it = have.find(n); if (it != have.end()) return it->second;
    mkdir("inputs", 0777); char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort(); string p = string(cwd) + "/inputs/" + n;
    if (fmt == 0) put(p, key); else tif_write(p, g, k, fmt == 1 ? GDT_Float64 : fmt == 2 ? GDT_Int32 : GDT_Float32);
    have[n] = p; return p;
}
static inline vector<string> list_dir(const string& d) { vector<string> r; DIR* h = opendir(d.c_str()); if (!h) return r; while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name); closedir(h); std::sort(r.begin(), r.end()); return r; }
static inline void warm() { GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); volatile int s = 0;
#pragma omp parallel
    s = 1;
}
// ---- building raster objects without files
template <typename T> static T* data1d(const G& g, int k = 0) { T* d = nullptr; Initialize1DArray(g.r * g.c, d, (T)0); for (int i = 0; i < g.r * g.c; i++) d[i] = (T)g.v[i * g.l + k]; return d; }
template <typename T> static T** data2d(const G& g) { T** d = nullptr; Initialize2DArray(g.r * g.c, g.l, d, (T)0); for (int i = 0; i < g.r * g.c; i++) for (int k = 0; k < g.l; k++) d[i][k] = (T)g.v[i * g.l + k]; return d; }
template <typename T, typename M = T> static clsRasterData<T, M>* from_data(const G& g, const STRING_MAP& o = STRING_MAP()) {
    if (g.l == 1) return new clsRasterData<T, M>(data1d<T>(g), g.c, g.r, (T)g.nd, g.cs, g.x, g.y, o);
    return new clsRasterData<T, M>(data2d<T>(g), g.c, g.r, g.l, (T)g.nd, g.cs, g.x, g.y, o); }
// ---- a raster object must be the reference grid, through every way of access that does not change it
// list: expected valid cells when positions are calculated (null: those with data in the first layer)
template <typename T, typename M> static bool same(mc::X& x, const string& k, clsRasterData<T, M>* rs, const G& g, const vector<int>* list = nullptr, int pos = -1 /* expected PositionsCalculated, -1 any */) {
    uint64_t before = x.nviol; x.step(10 + g.v.size() * 4);
    auto bad = [&](const char* what) { x.fail(k, "%s", what); return false; };
    if (!rs) return bad("no raster object");
    if (rs->GetRows() != g.r || rs->GetCols() != g.c) { x.fail(k + "-dims", "raster is %dx%d, expected %dx%d", rs->GetRows(), rs->GetCols(), g.r, g.c); return false; }
    if (rs->GetLayers() != g.l) { x.fail(k + "-layers", "%d layers, expected %d", rs->GetLayers(), g.l); return false; }
    if (rs->Is2DRaster() != (g.l > 1)) { x.fail(k + "-layers", "Is2DRaster is %d with %d layers", (int)rs->Is2DRaster(), g.l); return false; }
    double tol = 1e-9 * (std::fabs(g.x) + std::fabs(g.y) + g.cs * (g.r + g.c));
    if (std::fabs(rs->GetXllCenter() - g.x) > tol || std::fabs(rs->GetYllCenter() - g.y) > tol || std::fabs(rs->GetCellWidth() - g.cs) > 1e-9 * g.cs) {
        x.fail(k + "-georef", "georeference (%.12g,%.12g)/%.12g, expected (%.12g,%.12g)/%.12g", rs->GetXllCenter(), rs->GetYllCenter(), rs->GetCellWidth(), g.x, g.y, g.cs); return false; }
    if ((double)rs->GetNoDataValue() != g.nd) { x.fail(k + "-nodata", "no-data value %.12g, expected %.12g", (double)rs->GetNoDataValue(), g.nd); return false; }
    bool P = rs->PositionsCalculated(); if (pos >= 0 && P != (pos == 1)) { x.fail(k + "-pos", "positions calculated: %d, expected %d", (int)P, pos); return false; }
    vector<int> valid = list ? *list : g.valid(); int n = rs->GetCellNumber(), full = g.r * g.c;
    if (P && n != (int)valid.size() && !(valid.empty() && n <= 0)) { x.fail(k + "-count", "%d valid cells, expected %zu", n, valid.size()); return false; }
    if (!P && n != full) { x.fail(k + "-count", "%d cells, expected %d", n, full); return false; }
    { const STRDBL_MAP& h = rs->GetRasterHeader(); auto hv = [&](const char* f) { auto it = h.find(f); return it == h.end() ? -7. : it->second; };
      if (hv(HEADER_RS_NROWS) != g.r || hv(HEADER_RS_NCOLS) != g.c || (double)(T)hv(HEADER_RS_NODATA) != g.nd || hv(HEADER_RS_LAYERS) != g.l || hv(HEADER_RS_CELLSNUM) != n) { x.fail(k + "-header", "header: %g rows, %g columns, no-data %.12g, %g layers, %g cells, expected %d, %d, %.12g, %d, %d", hv(HEADER_RS_NROWS), hv(HEADER_RS_NCOLS), hv(HEADER_RS_NODATA), hv(HEADER_RS_LAYERS), hv(HEADER_RS_CELLSNUM), g.r, g.c, g.nd, g.l, n); return false; } }
    vector<int> index(full, P ? -1 : 0); if (P) for (size_t i = 0; i < valid.size(); i++) index[valid[i]] = (int)i; else for (int i = 0; i < full; i++) index[i] = i;
    if (P && !valid.empty()) {
        int len = -5, len2 = -5; int** pd = nullptr; int* pi = nullptr; rs->GetRasterPositionData(&len, &pd); rs->GetRasterPositionData(&len2, &pi);
        if (len != n || len2 != n || !pd || !pi) { x.fail(k + "-positions", "position data of %d/%d cells, expected %d", len, len2, n); return false; }
        for (int i = 0; i < n; i++) if (pi[i] != valid[i] || pd[i][0] != valid[i] / g.c || pd[i][1] != valid[i] % g.c) { x.fail(k + "-positions", "valid cell %d is at index %d, row %d, column %d, expected index %d", i, pi[i], pd[i][0], pd[i][1], valid[i]); return false; }
    }
    bool empty = P && valid.empty();
    for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) {
        int id = index[i * g.c + j]; double cx = g.cx(j), cy = g.cy(i);
        if (!empty) {
            int p = rs->GetPosition(i, j); if (p != id) { x.fail(k + "-position", "position of cell (%d,%d) is %d, expected %d", i, j, p, id); return false; }
            int p2 = rs->GetPosition(cx, cy), p3 = rs->GetPosition((float)cx, (float)cy); if (p2 != id || p3 != id) { x.fail(k + "-position-xy", "position at the centre of cell (%d,%d) is %d / %d, expected %d", i, j, p2, p3, id); return false; }
        }
        T* all = nullptr; rs->GetValue(i, j, all); if (!all && !empty) { x.fail(k + "-value", "no values of cell (%d,%d)", i, j); return false; }
        T* ix = nullptr; if (id >= 0 && !empty) { rs->GetValueByIndex(id, ix); if (!ix) { x.fail(k + "-value", "no values at index %d", id); return false; } }
        for (int q = 0; q < g.l; q++) {
            double w = id < 0 ? g.nd : g.at(i, j, q), v = (double)rs->GetValue(i, j, q + 1);
            if (v != w) { x.fail(k + "-value", "cell (%d,%d) layer %d is %.12g, expected %.12g", i, j, q + 1, v, w); delete[] all; delete[] ix; return false; }
            if (rs->IsNoData(i, j, q + 1) != (w == g.nd)) { x.fail(k + "-isnodata", "cell (%d,%d) layer %d no-data: %d, value %.12g", i, j, q + 1, (int)rs->IsNoData(i, j, q + 1), w); delete[] all; delete[] ix; return false; }
            if (all && (double)all[q] != w) { x.fail(k + "-value", "cell (%d,%d) layer %d is %.12g among all layers, expected %.12g", i, j, q + 1, (double)all[q], w); delete[] all; delete[] ix; return false; }
            if (ix && ((double)ix[q] != w || (double)rs->GetValueByIndex(id, q + 1) != w)) { x.fail(k + "-value", "index %d layer %d is %.12g / %.12g, expected %.12g", id, q + 1, (double)ix[q], (double)rs->GetValueByIndex(id, q + 1), w); delete[] all; delete[] ix; return false; }
        }
        delete[] all; delete[] ix;
    }
    if (!empty) {
        int m = -7, ml = -7; T* d1 = nullptr; T** d2 = nullptr; bool b1 = rs->GetRasterData(&m, &d1); if (b1 != (g.l == 1) || (b1 && m != n)) return bad("GetRasterData does not describe the raster");
        int m2 = -7; bool b2 = rs->Get2DRasterData(&m2, &ml, &d2); if (b2 != (g.l > 1) || (b2 && (m2 != n || ml != g.l))) return bad("Get2DRasterData does not describe the raster");
        for (int i = 0; i < n; i++) for (int q = 0; q < g.l; q++) { int cell = P ? valid[i] : i; double v = g.l == 1 ? (double)d1[i] : (double)d2[i][q]; if (v != g.v[(size_t)cell * g.l + q]) { x.fail(k + "-data", "data of index %d layer %d is %.12g, expected %.12g", i, q + 1, v, g.v[(size_t)cell * g.l + q]); return false; } }
    }
    // outside
    if ((double)rs->GetValue(-1, 0) != g.nd || (double)rs->GetValue(g.r, 0) != g.nd || (double)rs->GetValue(0, g.c) != g.nd || (double)rs->GetValue(0, 0, g.l + 1) != g.nd || (double)rs->GetValue(0, 0, 0) != g.nd || (double)rs->GetValueByIndex(n) != g.nd || (double)rs->GetValueByIndex(-1) != g.nd) return bad("a value is reported outside the raster");
    if (rs->GetPosition(-1, 0) >= 0 || rs->GetPosition(g.r, 0) >= 0 || rs->GetPosition(0, g.c) >= 0 || rs->GetPosition(g.cx(-1), g.cy(0)) >= 0 || rs->GetPosition(g.cx(0), g.cy(-1)) >= 0 || rs->GetPosition(g.cx(g.c), g.cy(0)) >= 0 || rs->GetPosition(g.cx(0), g.cy(g.r)) >= 0) return bad("a position is reported outside the raster");
    T* o = nullptr; rs->GetValue(g.r, 0, o); if (o) { delete[] o; return bad("values are reported outside the raster"); }
    return x.nviol == before;
}
#endif
