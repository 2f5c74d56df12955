// R14: GeoTIFFs of every data type are read as they are, and unreadable ones are refused without a trace
#include "raster.hpp"
#include <ogr_spatialref.h>
static void wkt(OGRSpatialReference& s, string& w) { char* t = nullptr; if (s.exportToWkt(&t) != OGRERR_NONE) abort(); w = t; CPLFree(t); }
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const string& reference(int i) {
    static string W[3]; if (W[1].empty()) { OGRSpatialReference a, b; a.SetGeogCS("geo", "datum", "ellipsoid", 6378137, 298.257223563); wkt(a, W[1]); b.SetProjCS("proj"); b.SetGeogCS("geo", "datum", "ellipsoid", 6378140, 298.257); b.SetTM(0, 117, 1, 500000, 0); wkt(b, W[2]); } return W[i]; }
typedef long double L;
static const GDALDataType GT[] = {GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_UInt64, GDT_Int64, GDT_Float32, GDT_Float64, GDT_CInt16, GDT_CFloat64};
static const RasterDataType TY[] = {RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_UInt64, RDT_Int64, RDT_Float, RDT_Double};
static const L LO[] = {0, -128, 0, -32768, 0, -2147483648.0L, 0, -9223372036854775808.0L, -3.4028234663852885981e38L, -1.7976931348623157e308L};
static const L HI[] = {255, 127, 65535, 32767, 4294967295.0L, 2147483647, 18446744073709551615.0L, 9223372036854775807.0L, 3.4028234663852885981e38L, 1.7976931348623157e308L};
static const char* NAME[] = {"UInt8", "Int8", "UInt16", "Int16", "UInt32", "Int32", "UInt64", "Int64", "Float", "Double", "complex Int16", "complex Float64"};
static const double GEO[][3] = {{10.5, -7.25, 2.5}, {512345.678901, 4287654.321098, 30}, {-179.99583333333334, -59.99583333333333, 0.008333333333333333}, {0, 0, 1}};
// the value of type s that the number is, and whether it is one
static bool holds(int s, L v) { return v >= LO[s] && v <= HI[s] && (s >= 8 || v == floorl(v)) && (s == 8 ? (L)(float)v == v : s == 9 ? (L)(double)v == v : true); }
template <typename T> static int self() { RasterDataType t = TypeToRasterDataType(typeid(T)); for (int i = 0; i < 10; i++) if (TY[i] == t) return i; return -1; }
static vector<L> numbers(int s) {
    static const L B[] = {0, 1, -1, 7, 100, 127, 128, 129, -127, -128, -129, 200, 254, 255, 256, 32767, 32768, -32768, -32769, 65535, 65534, 65536, 16777217.0L, 2147483647.0L, 2147483648.0L, -2147483648.0L, -2147483649.0L, 4294967295.0L, 4294967296.0L, 9007199254740993.0L, 9223372036854775807.0L, -9223372036854775808.0L, 18446744073709551615.0L, 0.5L, -1.25L, 3.4028234663852885981e38L, -1e-30L, 1.7976931348623157e308L};
    vector<L> r; for (L b : B) { L v = s == 8 ? (L)(float)b : s == 9 ? (L)(double)b : b; if (holds(s, v)) r.push_back(v); } return r; }
// A file written by GDAL itself. vals in their own type; nd null: none declared
static bool make(const string& f, int s, int r, int c, const vector<L>& v, const L* nd, const double* geo, int srs, int layout) {
    char** o = nullptr; if (layout == 1) { o = CSLSetNameValue(o, "TILED", "YES"); o = CSLSetNameValue(o, "BLOCKXSIZE", "16"); o = CSLSetNameValue(o, "BLOCKYSIZE", "16"); } if (layout == 2 || layout == 7) o = CSLSetNameValue(o, "COMPRESS", "LZW"); if (layout == 3) o = CSLSetNameValue(o, "BIGTIFF", "YES");
    GDALDriver* d = GetGDALDriverManager()->GetDriverByName(layout == 4 ? "HFA" : layout > 5 ? "MEM" : "GTiff"); GDALDataset* ds = d->Create(f.c_str(), c, r, layout == 5 ? 3 : 1, GT[s], layout > 5 ? nullptr : o); char** copy = nullptr; if (layout > 5) copy = o; else CSLDestroy(o); if (!ds) return false; GDALRasterBand* b = ds->GetRasterBand(1); size_t n = v.size();
    if (nd) { if (s == 6) b->SetNoDataValueAsUInt64((uint64_t)*nd); else if (s == 7) b->SetNoDataValueAsInt64((int64_t)*nd); else b->SetNoDataValue((double)*nd); }
    bool ok; if (s == 6) { vector<uint64_t> w(n); for (size_t i = 0; i < n; i++) w[i] = (uint64_t)v[i]; ok = b->RasterIO(GF_Write, 0, 0, c, r, w.data(), c, r, GDT_UInt64, 0, 0) == CE_None; }
    else if (s == 7) { vector<int64_t> w(n); for (size_t i = 0; i < n; i++) w[i] = (int64_t)v[i]; ok = b->RasterIO(GF_Write, 0, 0, c, r, w.data(), c, r, GDT_Int64, 0, 0) == CE_None; }
    else { vector<double> w(n); for (size_t i = 0; i < n; i++) w[i] = (double)v[i]; ok = b->RasterIO(GF_Write, 0, 0, c, r, w.data(), c, r, GDT_Float64, 0, 0) == CE_None; }
    if (geo) { double gt[6] = {geo[0] - geo[2] / 2, geo[2], 0, geo[1] + (r - 0.5) * geo[2], 0, -geo[2]}; ds->SetGeoTransform(gt); } if (srs) ds->SetProjection(reference(srs).c_str());
    if (layout == 5) for (int k = 2; k <= 3; k++) { vector<double> w(n, 3); ds->GetRasterBand(k)->RasterIO(GF_Write, 0, 0, c, r, w.data(), c, r, GDT_Float64, 0, 0); }
    if (layout > 5) { GDALDataset* to = GetGDALDriverManager()->GetDriverByName("GTiff")->CreateCopy(f.c_str(), ds, 0, copy, nullptr, nullptr); CSLDestroy(copy); if (!to) return false; GDALClose(to); }      // the directory before the data
    GDALClose(ds); return ok; }
static string srs_of(const string& f) { GDALDataset* ds = (GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly); if (!ds) return "(no file)"; string s = ds->GetProjectionRef(); GDALClose(ds); return s; }
static int open_files() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
// whatever a file's reading finds on the stack
static __attribute__((noinline)) void litter(double v) { volatile double a[6000]; for (int i = 0; i < 6000; i++) a[i] = v; }
struct What { int s, r, c; vector<L> v; L nd; bool has; string srs; const double* geo; };
static bool expect(const What& w, int type, L& nd) {    // the no-data value a reader has to take; false: the file declares none, and the type's own stands for it
    if (w.has) { nd = w.nd; return true; } nd = type == 8 || type == 9 ? (L)MISSINGFLOAT : (type & 1) ? LO[type] : HI[type]; return false; }
static double hd(const STRDBL_MAP& h, const char* k) { auto i = h.find(k); return i == h.end() ? NAN : i->second; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(b) + 1); }
// the type a file's values are taken to have: GDT_Byte may be either of the 8-bit types if its values fit both
static bool type_ok(const What& w, RasterDataType t) { if (w.s != 0) return t == TY[w.s]; if (t == RDT_UInt8) return true; if (t != RDT_Int8) return false; for (L v : w.v) if (v > 127 && !(w.has && v == w.nd)) return false; return true; }
static int index_of(RasterDataType t) { for (int i = 0; i < 10; i++) if (TY[i] == t) return i; return -1; }
template <typename T> static void function(mc::X& x, const string& f, const What& w, int dirt) {
    int me = self<T>(); STRDBL_MAP h = InitialHeader(); T* d = nullptr; RasterDataType t = RDT_Unknown; string srs; litter(dirt == 0 ? 0. : dirt == 1 ? -1. : dirt == 2 ? 1e300 : 64.); x.step();
    if (!ReadRasterFileByGdal(f, h, d, t, srs)) { x.fail("refused", "a readable file was refused"); return; }
    if (!type_ok(w, t)) x.fail("type", "source type %s, the file holds %s", RasterDataTypeToString(t).c_str(), NAME[w.s]);
    else if (hd(h, HEADER_RS_NROWS) != w.r || hd(h, HEADER_RS_NCOLS) != w.c) x.fail("dims", "header of %gx%g", hd(h, HEADER_RS_NROWS), hd(h, HEADER_RS_NCOLS));
    else if (hd(h, HEADER_RS_LAYERS) != 1 || hd(h, HEADER_RS_CELLSNUM) != w.r * w.c) x.fail("dims", "header of %g layers and %g cells", hd(h, HEADER_RS_LAYERS), hd(h, HEADER_RS_CELLSNUM));
    else if (w.geo && (!near(hd(h, HEADER_RS_XLL), w.geo[0]) || !near(hd(h, HEADER_RS_YLL), w.geo[1]) || !near(hd(h, HEADER_RS_CELLSIZE), w.geo[2]))) x.fail("georef", "header at (%.12g,%.12g)/%.12g", hd(h, HEADER_RS_XLL), hd(h, HEADER_RS_YLL), hd(h, HEADER_RS_CELLSIZE));
    else if (srs != w.srs) x.fail("srs", "reference system \"%s\", expected \"%s\"", srs.c_str(), w.srs.c_str());
    else { L nd; expect(w, index_of(t), nd); if ((L)hd(h, HEADER_RS_NODATA) != (L)(double)nd) x.fail("nodata", "header with no-data %.20g, expected %.20Lg", hd(h, HEADER_RS_NODATA), nd);
        for (int i = 0; i < w.r * w.c; i++) if (holds(me, w.v[i]) && (L)d[i] != w.v[i]) { x.fail("value", "cell %d is %.20Lg, expected %.20Lg", i, (L)d[i], w.v[i]); break; } }
    Release1DArray(d);
}
static const char* HOW[] = {"Init", "Init with positions", "ReadFromFile into an object", "Init through a mask", "Init of two files", "Init of two files, with positions", "ReadFromFile over another raster"};
template <typename T> static void object(mc::X& x, const string& f, const What& w, int how) {
    int me = self<T>(); clsRasterData<T>* r = nullptr; clsRasterData<T>* mask = nullptr; x.step();
    if (how < 2) r = clsRasterData<T>::Init(f, how == 1); else if (how == 2) { r = new clsRasterData<T>(); if (!r->ReadFromFile(f)) { delete r; r = nullptr; } }
    else if (how == 3) { vector<T> a((size_t)w.r * w.c, (T)1); T* d = nullptr; Initialize1DArray(w.r * w.c, d, a.data()); mask = new clsRasterData<T>(d, w.c, w.r, (T)0, w.geo[2], w.geo[0], w.geo[1], string("msk")); r = clsRasterData<T>::Init(f, false, mask); }
    else if (how < 6) { vector<string> ff = {f, f}; r = clsRasterData<T>::Init(ff, how == 5); }
    else { G g(2, 2, 1, -5); g.v = {1, 2, -5, 3}; for (double& q : g.v) if (me < 8 && q < 0 && LO[me] == 0) { q = 9; g.nd = 9; } r = from_data<T>(g, STRING_MAP()); r->SetCalcPositions(); r->CalculateStatistics(); if (!r->ReadFromFile(f)) { delete r; r = nullptr; } }
    if (!r) { x.fail("refused", "%s: a readable file was refused", HOW[how]); delete mask; return; }
    RasterDataType t = r->GetDataType(); L nd; bool declared = expect(w, index_of(t), nd); (void)declared; int layers = how == 4 || how == 5 ? 2 : 1;
    do {
        if (!type_ok(w, t)) { x.fail("type", "%s: source type %s, the file holds %s", HOW[how], RasterDataTypeToString(t).c_str(), NAME[w.s]); break; }
        if (r->GetOutDataType() != t) { x.fail("out-type", "%s: output type %s, expected that of the source", HOW[how], RasterDataTypeToString(r->GetOutDataType()).c_str()); break; }
        if (r->GetRows() != w.r || r->GetCols() != w.c || r->GetLayers() != layers) { x.fail("dims", "%s: raster is %dx%dx%d", HOW[how], r->GetRows(), r->GetCols(), r->GetLayers()); break; }
        if (w.geo && (!near(r->GetXllCenter(), w.geo[0]) || !near(r->GetYllCenter(), w.geo[1]) || !near(r->GetCellWidth(), w.geo[2]))) { x.fail("georef", "%s: raster at (%.12g,%.12g)/%.12g", HOW[how], r->GetXllCenter(), r->GetYllCenter(), r->GetCellWidth()); break; }
        string srs = r->GetSrsString(), wsrs = how == 3 ? "msk" : w.srs; if (srs != wsrs || r->GetOption(HEADER_RS_SRS) != wsrs) { x.fail("srs", "%s: reference system \"%s\", expected \"%s\"", HOW[how], srs.c_str(), wsrs.c_str()); break; }
        if (how != 3 && (L)r->GetNoDataValue() != (L)(T)nd) { x.fail("nodata", "%s: no-data %.20Lg, expected %.20Lg", HOW[how], (L)r->GetNoDataValue(), nd); break; }
        for (int i = 0; i < w.r * w.c; i++) { bool bad = false; for (int k = 1; k <= layers; k++) { bool none = w.v[i] == nd; L g = (L)r->GetValue(i / w.c, i % w.c, k);
            if (r->IsNoData(i / w.c, i % w.c, k) != none) { x.fail("nodata-cell", "%s: cell %d layer %d holding %.20Lg is no-data: %d (no-data value %.20Lg)", HOW[how], i, k, w.v[i], (int)!none, nd); bad = true; break; }
            if (!none && g != w.v[i]) { x.fail("value", "%s: cell %d layer %d is %.20Lg, expected %.20Lg", HOW[how], i, k, g, w.v[i]); bad = true; break; } } if (bad) break; }
    } while (0);
    if (x.nviol == 0 && how < 3 && w.geo) {      // and written out again it is the same file
        string o = x.scratch + "/back.tif"; if (!r->OutputToFile(o)) x.fail("rewrite", "%s: the raster read cannot be written", HOW[how]); else { string s = srs_of(o); if (s != w.srs) x.fail("srs-written", "%s: the file written again has the reference system \"%s\", expected \"%s\"", HOW[how], s.c_str(), w.srs.c_str());
            GDALDataset* ds = (GDALDataset*)GDALOpen(o.c_str(), GA_ReadOnly); if (ds && index_of(t) >= 0 && ds->GetRasterBand(1)->GetRasterDataType() != GT[index_of(t)]) x.fail("type-written", "%s: the file written again has another type", HOW[how]); if (ds) GDALClose(ds); } ::unlink(o.c_str()); }
    delete r; delete mask;
}
// no-data declarations: none, usual, a limit, outside the type (8 bits), one of the values
static bool nodata(int s, int k, L& nd, bool& has) {
    has = k > 0; switch (k) { case 0: nd = 0; return true; case 1: nd = s >= 8 || s == 3 || s == 5 || s == 7 ? -9999 : s == 1 ? -99 : s == 0 ? 99 : 9999; return true;
        case 2: nd = s == 8 ? LO[8] : s == 9 ? -1e300L : s == 7 ? -9007199254740992.0L : (s & 1) ? LO[s] : s == 6 ? 9007199254740992.0L : HI[s]; return true; case 3: if (s != 0) return false; nd = -9999; return true; case 4: nd = 1; return true; case 5: nd = 0; return true; } return false; }
template <typename T> static void read(mc::X& x) {
    int s = x.choose(10), k = x.choose(6); L nd; bool has; if (!nodata(s, k, nd, has)) x.prune(); vector<L> V = numbers(s); int me = self<T>(); { vector<L> U; for (L v : V) if (holds(me, v)) U.push_back(v); V = U; }
    if (!x.mine()) return; int a = x.choose((int)V.size()), pair = x.choose(x.thorough ? 8 : 2); static const int STEP[] = {0, 3, 1, 7, 5, 9, 11, 13}; L v = V[a], u = V[(a + STEP[pair]) % V.size()];
    int form = x.thorough ? x.choose(4) : (a + pair + k) % 4; int r = form == 1 ? 1 : form == 2 ? 3 : 2, c = form == 1 ? 3 : form == 2 ? 1 : 2; vector<L> cell((size_t)r * c, v); cell[1] = u; if (has && holds(s, nd) && form != 2) cell[2] = nd; if (form == 3) { for (L& q : cell) q = has && holds(s, nd) ? nd : v; }
    int how = x.choose(8) - 1;
    int layout = (a + pair * 2 + k) % 6, geo = (a * 3 + pair) % 4, srs = pair ? 0 : (a + k) % 8 == 3 ? 1 : (a + k) % 8 == 6 ? 2 : 0; const double* ge = GEO[geo]; if (layout == 4 && (s == 6 || s == 7)) layout = 0; if (layout == 4 && srs) srs = 0;
    // values may not be taken for no-data by chance, nor no-data be beyond the element type
    bool high = false; for (L q : cell) high = high || q > 127; L nd2 = nd; if (!has) nd2 = s >= 8 ? (L)MISSINGFLOAT : s == 0 ? (high ? 255 : -128) : (s & 1) ? LO[s] : HI[s];
    bool ndok = holds(me, nd2) || (s == 0 && k == 3 && me != 0 && me >= 3); if (s >= 6 && s <= 7 && (nd2 > 9007199254740992.0L || nd2 < -9223372036854775808.0L)) ndok = false;
    if (!ndok && how >= 0) { if (how > 1) x.prune(); }
    bool any = false; for (L q : cell) any = any || q != nd2; if (!any && (how == 1 || how == 3 || how == 5 || how == 6)) x.prune();       // no valid cells: nothing to compact
    for (L q : cell) if (q != nd2 && (double)q == (double)nd2) x.prune();      // no-data values are kept as doubles
    char b[200]; string t; for (L q : cell) { snprintf(b, sizeof b, " %.20Lg", q); t += b; }
    x.note("%s file %dx%d [%s ] no-data %s%.20Lg, layout %d, reference %d, read as %s, %s", NAME[s], r, c, t.c_str(), has ? "" : "undeclared, default ", nd2, layout, srs, NAME[me], how < 0 ? "ReadRasterFileByGdal" : HOW[how]);
    string f = x.scratch + (layout == 4 ? "/in.img" : "/in.tif"); static string have, haveref; string id; { for (L q : cell) id.append((char*)&q, 10); char bb[99]; snprintf(bb, sizeof bb, "|%d %d %d %d %d %d %d %.20Lg", s, r, c, layout, geo, srs, (int)has, nd); id += bb; }
    if (id != have) { have.clear(); ::unlink((x.scratch + "/in.img").c_str()); ::unlink((x.scratch + "/in.tif").c_str()); if (!make(f, s, r, c, cell, has ? &nd : nullptr, ge, srs, layout)) { x.fail("harness", "cannot write the input"); return; } haveref = srs ? srs_of(f) : string(); have = id; }
    What w = {s, r, c, cell, nd, has, haveref, ge}; if (srs && w.srs.empty()) { x.fail("harness", "the input has no reference system"); return; } int files = open_files();
    if (how < 0) { int dirt = x.choose(x.thorough ? 4 : 2) * 2 + (a + pair) % 2; if (dirt > 3) dirt = 3; size_t live = mc::live_blocks(); function<T>(x, f, w, dirt); if (mc::live_blocks() > live && x.nviol == 0) { live = mc::live_blocks(); function<T>(x, f, w, dirt); size_t now = mc::live_blocks(); if (now > live) x.fail("memory", "%zu blocks of memory are kept after reading", now - live); } }
    else if (ndok) object<T>(x, f, w, how); else { clsRasterData<T>* q = clsRasterData<T>::Init(f, false); x.step(); if (!q) x.fail("refused", "a readable file was refused"); delete q; }
    if (x.nviol == 0 && open_files() > files) x.fail("open-files", "%d files are left open", open_files() - files);
    x.outcome((uint64_t)(s * 100 + me * 10 + how + 1));
}
#if PART == 0
MC_BODY(as_int, 40) { read<int>(x); }
MC_BODY(as_uint8, 20) { read<unsigned char>(x); }
#elif PART == 1
MC_BODY(as_float, 40) { read<float>(x); }
MC_BODY(as_int8, 20) { read<signed char>(x); }
#elif PART == 2
MC_BODY(as_double, 40) { read<double>(x); }
MC_BODY(as_uint16, 20) { read<vuint16_t>(x); }
#elif PART == 3
MC_BODY(as_int64, 40) { read<vint64_t>(x); }
MC_BODY(as_int16, 20) { read<vint16_t>(x); }
#elif PART == 4
MC_BODY(as_uint64, 40) { read<vuint64_t>(x); }
MC_BODY(as_uint32, 20) { read<vuint32_t>(x); }
#else
// files of many blocks: one of them holds another value
MC_BODY(blocks, 10) {
    int s = x.choose(10), layout = x.choose(3); if (!x.mine()) return; int nb = layout == 1 ? 144 : 200, at = x.choose(nb); if (!x.thorough && s && at % 16) x.prune(); bool has = s != 0 && (at & 16); int r = layout == 1 ? 190 : 200, c = layout == 1 ? 189 : 120; int odd = s == 1 ? -128 + 1 : s == 3 || s == 5 ? -5 : 200;
    vector<L> v((size_t)r * c, 5); int i0 = layout == 1 ? at / 12 * 16 : at, j0 = layout == 1 ? at % 12 * 16 : 0; v[(size_t)i0 * c + j0] = odd; v[(size_t)(i0 + 1 < r ? i0 + 1 : i0) * c + c - 1] = 6; L nd = 77; string f = x.scratch + "/blk.tif"; ::unlink(f.c_str());
    x.note("%s file %dx%d, layout %d, of 5 with %d in block %d, read as Float and Int32", NAME[s], r, c, layout, odd, at); if (!make(f, s, r, c, v, has ? &nd : nullptr, GEO[0], 0, layout)) { x.fail("harness", "cannot write the input"); return; }
    What w = {s, r, c, v, nd, has, string(), GEO[0]}; if (at % 2) function<float>(x, f, w, 0); else object<int>(x, f, w, at % 4 / 2); x.outcome((uint64_t)(s * 1000 + at)); ::unlink(f.c_str());
}
// files that cannot be read: every kind of damage, each data type
MC_BODY(unreadable, 12) {
    int s = x.choose(12), kind = x.choose(8); if (!x.mine()) return; int how = x.choose(4); string f = x.scratch + "/bad.tif"; ::unlink(f.c_str()); rmdir(f.c_str()); ::unlink((f + ".aux.xml").c_str());
    static const char* KIND[] = {"whole (complex types)", "missing", "empty", "a text", "a directory", "cut within its data", "with damaged data", "cut within its header"}; int n = 64; double v = 7;
    if (kind == 0 && s < 10) x.prune(); if ((kind == 1 || kind == 2 || kind == 3 || kind == 4) && s) x.prune();
    vector<L> cell((size_t)n * n, v); for (int i = 0; i < n * n; i++) cell[i] = i % 97; if (kind == 0 || kind > 4) { if (!make(f, s, n, n, cell, nullptr, GEO[0], 0, kind == 5 ? 6 : 7)) { x.fail("harness", "cannot write the input"); return; } }
    if (kind == 2) put(f, ""); if (kind == 3) put(f, "NCOLS 2\nNROWS 1\n"); if (kind == 4) mkdir(f.c_str(), 0777);
    if (kind > 4) { string t; get(f, t); size_t data = (size_t)n * n * (GDALGetDataTypeSizeBytes(GT[s])); if (kind == 5) t.resize(t.size() - data / 2); else if (kind == 6) for (size_t i = t.size() / 2; i < t.size(); i++) t[i] = (char)(i * 37 + 11); else t.resize(4); put(f, t);
        GDALDataset* ds = (GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly); if (ds) { vector<double> b((size_t)n * n); bool ok = ds->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, n, n, b.data(), n, n, GDT_Float64, 0, 0) == CE_None; GDALClose(ds); if (ok) x.prune(); } else if (kind < 7) { x.fail("harness", "the damaged file does not even open"); return; } }
    x.note("%s file of type %s, %s", KIND[kind], NAME[s], how == 0 ? "ReadRasterFileByGdal" : how == 1 ? "Init" : how == 2 ? "ReadFromFile" : "Init of several files");
    size_t kept = 0; int files = open_files(); bool ok = false; float* d = nullptr;
    for (int round = 0; round < 3; round++) { size_t live = mc::live_blocks(); x.step();
        if (how == 0) { STRDBL_MAP h = InitialHeader(); RasterDataType t = RDT_Unknown; string srs; ok = ReadRasterFileByGdal(f, h, d, t, srs); if (!ok && d) { x.fail("values", "a refused file yields values"); return; } if (ok) Release1DArray(d); }
        else if (how == 1) { FR* r = FR::Init(f, true); ok = r != nullptr; delete r; } else if (how == 2) { FR r; ok = r.ReadFromFile(f); if (!ok && r.GetCellNumber() > 0 && r.Initialized()) { } } else { vector<string> ff = {f, f}; FR* r = FR::Init(ff, false); ok = r != nullptr; delete r; }
        size_t now = mc::live_blocks(); kept = now > live ? now - live : 0; if (ok) { x.fail("accepted", "an unreadable file was read"); return; } }
    if (kept) x.fail("memory", "%zu blocks of memory are kept after each refusal", kept);
    if (open_files() > files) x.fail("open-files", "%d files are left open", open_files() - files);
    x.outcome((uint64_t)(kind * 16 + s));
}
#endif
