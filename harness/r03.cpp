// R03: exporting a raster as GeoTIFF in a data type keeps every value or refuses
#include "raster.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
typedef long double L;
static const RasterDataType TY[] = {RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_UInt64, RDT_Int64, RDT_Float, RDT_Double};
static const GDALDataType GT[] = {GDT_Byte, GDT_Int8, GDT_UInt16, GDT_Int16, GDT_UInt32, GDT_Int32, GDT_UInt64, GDT_Int64, GDT_Float32, GDT_Float64};
static const L LO[] = {0, -128, 0, -32768, 0, -2147483648.0L, 0, -9223372036854775808.0L, -3.4028234663852885981e38L, -1.7976931348623157e308L};
static const L HI[] = {255, 127, 65535, 32767, 4294967295.0L, 2147483647, 18446744073709551615.0L, 9223372036854775807.0L, 3.4028234663852885981e38L, 1.7976931348623157e308L};
static const char* NAME[] = {"UInt8", "Int8", "UInt16", "Int16", "UInt32", "Int32", "UInt64", "Int64", "Float", "Double"};
template <typename T> static int self() { RasterDataType t = TypeToRasterDataType(typeid(T)); for (int i = 0; i < 10; i++) if (TY[i] == t) return i; return -1; }
static bool nativeread(const string& f, int& r, int& c, int& type, vector<L>& v, L& nd, bool& hasnd, double* gt) {
    struct stat st; if (stat(f.c_str(), &st)) return false; GDALDataset* ds = (GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly); if (!ds) return false; GDALRasterBand* b = ds->GetRasterBand(1); r = b->GetYSize(); c = b->GetXSize(); type = -1;
    for (int i = 0; i < 10; i++) if (GT[i] == b->GetRasterDataType()) type = i; int ok = 0; v.assign((size_t)r * c, 0); bool good = true; size_t n = v.size();
    if (b->GetRasterDataType() == GDT_Int64) { nd = (L)b->GetNoDataValueAsInt64(&ok); vector<int64_t> d(n); good = b->RasterIO(GF_Read, 0, 0, c, r, d.data(), c, r, GDT_Int64, 0, 0) == CE_None; for (size_t i = 0; i < n; i++) v[i] = (L)d[i]; }
    else if (b->GetRasterDataType() == GDT_UInt64) { nd = (L)b->GetNoDataValueAsUInt64(&ok); vector<uint64_t> d(n); good = b->RasterIO(GF_Read, 0, 0, c, r, d.data(), c, r, GDT_UInt64, 0, 0) == CE_None; for (size_t i = 0; i < n; i++) v[i] = (L)d[i]; }
    else { nd = (L)b->GetNoDataValue(&ok); vector<double> d(n); good = b->RasterIO(GF_Read, 0, 0, c, r, d.data(), c, r, GDT_Float64, 0, 0) == CE_None; for (size_t i = 0; i < n; i++) v[i] = (L)d[i]; }
    hasnd = ok; ds->GetGeoTransform(gt); GDALClose(ds); return good; }
template <typename T> static vector<T> values() {
    static const L B[] = {0, 1, -1, 127, 128, -128, -129, 255, 256, 254, -32768, -32769, 32767, 32768, 65535, 65536, 2147483647.0L, 2147483648.0L, -2147483648.0L, -2147483649.0L, 4294967295.0L, 4294967296.0L, 9007199254740992.0L, 9223372036854774784.0L, 9223372036854775807.0L, 9223372036854775808.0L, -9223372036854775808.0L, 18446744073709549568.0L, 18446744073709551614.0L, 18446744073709551616.0L, 1.5L, -1.5L, 0.1L, 1e20L, 1e-5L, 3.4028234663852885981e38L, 3.4028235e38L, -3.4028234663852885981e38L, 1e39L, -1e300L, -9999, 123456789.25L};
    int me = self<T>(); vector<T> r; for (L b : B) { if (b < LO[me] || b > HI[me]) continue; if (me < 8 && b != floorl(b)) continue; T t = (T)b; bool have = false; for (T o : r) have = have || o == t; if (!have) r.push_back(t); } return r; }
template <typename T> static vector<T> nodatas() { int me = self<T>(); vector<T> r; L c[] = {-9999, (me < 8 ? LO[me] : -32768), HI[me], 0, 1e-3L, 1e37L}; if (me == 9) { c[2] = -1.7976931348623157e308L; c[5] = 1e39L; }
    for (L n : c) if (n >= LO[me] && n <= HI[me] && (me >= 8 || n == floorl(n))) r.push_back((T)n); return r; }
static bool fits(L v, int o) { if (o < 8 && v != floorl(v)) v = truncl(v); return v >= LO[o] && v <= HI[o]; }
static const char* HOW[] = {"OutputToFile", "OutputToFile, compact", "OutputFileByGdal", "WriteRasterToFile", "several layers"};
template <typename T> static void go(mc::X& x) {
    int o = x.choose(11) - 1, me = self<T>(), how = x.choose(5); vector<T> V = values<T>(), N = nodatas<T>(); T nd = N[x.choose((int)N.size())]; if (!x.mine()) return;
    int out = o < 0 ? me : o; T v = V[x.choose((int)V.size())], w; int m = x.choose(x.thorough ? (int)V.size() + 1 : 5) - 1; static const int PICK[] = {1, 0, 3, 5}; w = m < 0 ? v : x.thorough ? V[m] : V[PICK[m] % V.size()]; if (!x.thorough && how && m > 0) x.prune();       // m < 0: one value everywhere
    int r = 2, c = 2; vector<T> cell = {v, m < 0 ? v : nd, w, v}; if (m == 1) cell[3] = nd;
    if (me == 7 && (L)nd == HI[7] && out == 6) x.prune();     // 2^63-1 as no-data is kept as a double
    // what the file has to be
    bool mustfit = true, clash = false; L cv = 0; for (T t : cell) if (t != nd && !fits((L)t, out)) mustfit = false;
    for (T t : cell) { if (t == nd) continue; L a = (L)t, b = (L)nd; if (me >= 8) { if (a != floorl(a) && out < 8) { if (truncl(a) == LO[out] || truncl(a) == HI[out] || std::fabs((double)a) < 1) x.prune(); if (truncl(a) == truncl(b)) x.prune(); }  } if (out == 8 && (float)t == (float)nd) x.prune(); if (out == 9 && (double)t == (double)nd) x.prune(); if ((double)t == (double)nd) x.prune(); }
    if (o < 0 || out == me) { } x.note("%s: %s grid [%.20Lg %.20Lg %.20Lg %.20Lg] no-data %.20Lg exported as %s", HOW[how], NAME[me], (L)cell[0], (L)cell[1], (L)cell[2], (L)cell[3], (L)nd, o < 0 ? "(no type given)" : NAME[o]);
    string f = x.scratch + "/out/e.tif"; mc::clean_dir(x.scratch + "/out"); mkdir("out", 0777); int layers = how == 4 ? 2 : 1; bool ok; double X = 10.5, Y = -7.25, S = 2.5; clsRasterData<T>* rs = nullptr; x.step();
    if (how == 3) { STRDBL_MAP h = InitialHeader(); UpdateHeader(h, HEADER_RS_NCOLS, c); UpdateHeader(h, HEADER_RS_NROWS, r); UpdateHeader(h, HEADER_RS_XLL, X); UpdateHeader(h, HEADER_RS_YLL, Y); UpdateHeader(h, HEADER_RS_CELLSIZE, S); UpdateHeader(h, HEADER_RS_NODATA, nd); UpdateHeader(h, HEADER_RS_LAYERS, 1); STRING_MAP op; if (o >= 0) op[HEADER_RSOUT_DATATYPE] = RasterDataTypeToString(TY[o]); ok = WriteRasterToFile(f, h, op, cell.data()); }
    else {
        if (layers == 1) { T* d = nullptr; Initialize1DArray(4, d, cell.data()); rs = new clsRasterData<T>(d, c, r, nd, S, X, Y); } else { T** d = nullptr; Initialize2DArray(4, 2, d, nd); for (int i = 0; i < 4; i++) { d[i][0] = cell[i]; d[i][1] = cell[(i * 3 + 2) % 4]; } rs = new clsRasterData<T>(d, c, r, 2, nd, S, X, Y); }
        if (o >= 0) { if (x.thorough || how != 2) rs->SetOutDataType(TY[o]); else rs->SetOutDataType(RasterDataTypeToString(TY[o])); }
        if (how == 1) { bool some = false; for (T t : cell) some = some || t != nd; if (!some) { delete rs; x.prune(); } rs->SetCalcPositions(); }
        ok = how == 2 ? rs->OutputFileByGdal(f) : rs->OutputToFile(f); delete rs; }
    x.outcome((uint64_t)out * 4 + ok * 2 + mustfit + me * 100);
    if (ok && !mustfit) { x.fail("success-without-fit", "exporting reported success although a value does not fit"); return; }
    if (!ok && mustfit) { x.fail("refused-fitting", "exporting was refused although every value fits"); return; }
    if (!ok) return;
    for (int k = 0; k < layers; k++) {
        string g = layers == 1 ? f : x.scratch + "/out/e_" + std::to_string(k + 1) + ".tif"; struct stat st; if (layers > 1 && stat(g.c_str(), &st)) g = x.scratch + "/out/e_" + std::to_string(k) + ".tif";
        int fr, fc, ft; vector<L> fv; L fnd = 0; bool has; double gt[6]; if (!nativeread(g, fr, fc, ft, fv, fnd, has, gt)) { x.fail("file", "success was reported but there is no readable file"); return; } x.step(4);
        if (fr != r || fc != c) { x.fail("dims", "file is %dx%d", fr, fc); return; } if (ft != out) { x.fail("type", "file has type %s", ft < 0 ? "(other)" : NAME[ft]); return; }
        if (std::fabs(gt[0] - (X - S / 2)) > 1e-9 || std::fabs(gt[3] - (Y + (r - 0.5) * S)) > 1e-9 || gt[1] != S || gt[5] != -S || gt[2] != 0 || gt[4] != 0) { x.fail("georef", "file has geotransform %g %g %g %g %g %g", gt[0], gt[1], gt[2], gt[3], gt[4], gt[5]); return; }
        bool anynd = false; for (int i = 0; i < 4; i++) { T t = k == 0 ? cell[i] : cell[(i * 3 + 2) % 4]; anynd = anynd || t == nd; } if (!has && anynd) { x.fail("no-nodata", "the file declares no no-data value"); return; }
        for (int i = 0; i < 4; i++) { T t = k == 0 ? cell[i] : cell[(i * 3 + 2) % 4]; L got = fv[i];
            if (t == nd) { if (got != fnd) { x.fail("nodata-cell", "no-data cell %d is %.20Lg, the file declares %.20Lg", i, got, fnd); return; } }
            else { L want = (L)t; bool same = out < 8 ? (want == floorl(want) ? got == want : fabsl(got - want) < 1) : out == 8 ? got == (L)(float)t : got == (L)(double)t;
                if (!same) { x.fail("value", "cell %d is %.20Lg, expected %.20Lg", i, got, want); return; }
                if (has && got == fnd) { clash = true; cv = got; } } }
    }
    if (clash) x.fail((fits((L)nd, out) && (L)nd == floorl((L)nd) ? "valid-equals-nodata-" : "valid-equals-new-nodata-") + string(NAME[out]) + "-" + std::to_string((long long)(cv > 9e18L ? -1 : cv)), "a valid cell equals the no-data value the file declares");
}
// larger than a block of the file: stretches of zeros, of no-data, of one value and of different values
template <typename T> static void strips(mc::X& x) {
    int o = x.choose(11) - 1, me = self<T>(); static const int S[][2] = {{60, 90}, {1, 3000}, {3000, 1}, {260, 33}}; int s = x.choose(x.thorough ? 4 : 2), how = x.choose(2); if (!x.mine()) return; int out = o < 0 ? me : o; T nd = sizeof(T) == 1 ? (T)100 : (T)99; int r = S[s][0], c = S[s][1], n = r * c, part[3], kind[3] = {x.choose(4), x.choose(4), x.choose(4)};
    for (int i = 0; i < 3; i++) part[i] = n * (i + 1) / 3; vector<T> v(n); for (int i = 0; i < n; i++) { int k = kind[i < part[0] ? 0 : i < part[1] ? 1 : 2]; v[i] = k == 0 ? (T)0 : k == 1 ? nd : k == 2 ? (T)1 : (T)(i % 97); } if (how && kind[0] == 1 && kind[1] == 1 && kind[2] == 1) return;
    static const char* KIND[] = {"zeros", "no-data", "ones", "values"}; x.note("%s grid %dx%d of %s, %s, %s exported as %s%s", NAME[me], r, c, KIND[kind[0]], KIND[kind[1]], KIND[kind[2]], o < 0 ? "(no type given)" : NAME[o], how ? ", compact" : "");
    string f = x.scratch + "/out/e.tif"; mc::clean_dir(x.scratch + "/out"); mkdir("out", 0777); T* d = nullptr; Initialize1DArray(n, d, v.data()); clsRasterData<T> rs(d, c, r, nd, 2.5, 10.5, -7.25); if (o >= 0) rs.SetOutDataType(TY[o]); if (how) rs.SetCalcPositions(); x.step(n); bool ok = rs.OutputToFile(f); if (!ok) { x.fail("refused-fitting", "exporting was refused although every value fits"); return; }
    int fr, fc, ft; vector<L> fv; L fnd = 0; bool has; double gt[6]; if (!nativeread(f, fr, fc, ft, fv, fnd, has, gt) || fr != r || fc != c || ft != out) { x.fail("file", "there is no file of the right size and type"); return; } x.outcome((uint64_t)(kind[0] * 16 + kind[1] * 4 + kind[2]));
    for (int i = 0; i < n; i++) if (v[i] == nd ? (!has || fv[i] != fnd) : (fv[i] != (L)v[i] || (has && fv[i] == fnd))) { x.fail("value", "cell %d is %.20Lg (no-data %.20Lg), expected %.20Lg", i, fv[i], fnd, (L)v[i]); return; }
}
// memory: exporting keeps none, whatever the outcome (the first rounds may fill caches of the libraries: what every round keeps is lost)
template <typename T> static void memory(mc::X& x) {
    int o = x.choose(11) - 1, me = self<T>(), fit = x.choose(2), where = x.choose(4); if (!x.mine()) return; int out = o < 0 ? me : o; vector<T> V = values<T>(); T v = (T)1; if (!fit) { bool any = false; for (T t : V) if (!any && !fits((L)t, out)) { v = t; any = true; } if (!any) return; } T nd = nodatas<T>()[0];
    static const char* W[] = {"out/e.tif", "out/new/e.tif", "file/e.tif", "out/e.asc"}; x.note("memory kept by exporting %s as %s, %s, to %s", NAME[me], o < 0 ? "(no type given)" : NAME[o], fit ? "values fit" : "values do not fit", W[where]);
    mc::clean_dir(x.scratch); mkdir("out", 0777); { FILE* f = fopen("file", "w"); fclose(f); } string f = x.scratch + "/" + W[where]; size_t live[6]; int more = 0; bool ok = false;
    for (int k = 0; k < 6 && more == k - (k > 0); k++) { T d[4] = {v, nd, 1, v}; STRDBL_MAP h = InitialHeader(); UpdateHeader(h, HEADER_RS_NCOLS, 2); UpdateHeader(h, HEADER_RS_NROWS, 2); UpdateHeader(h, HEADER_RS_XLL, 1); UpdateHeader(h, HEADER_RS_YLL, 1); UpdateHeader(h, HEADER_RS_CELLSIZE, 1); UpdateHeader(h, HEADER_RS_NODATA, nd); UpdateHeader(h, HEADER_RS_LAYERS, 1);
        { STRING_MAP op; if (o >= 0) UpdateStringMap(op, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(TY[o])); ok = WriteRasterToFile(f, h, op, d); } x.step(); live[k] = 0; { STRDBL_MAP e; std::swap(e, h); } live[k] = mc::live_blocks(); if (k && live[k] > live[k - 1]) more++; }
    if (more == 5) x.fail(string("memory-") + (ok ? "written" : "refused"), "each export keeps %zu blocks of memory", live[5] - live[4]);
    x.outcome((uint64_t)(ok * 2 + fit));
}
#define MEMORY(n, t) MC_BODY(n, 11) { memory<t>(x); }
#define STRIPS(n, t) MC_BODY(n, 22) { strips<t>(x); }
#define EXPORT(n, t, p) MC_BODY(n, 40) { go<t>(x); }
#if PART == 0
EXPORT(from_uint8, unsigned char, 0)
MEMORY(memory_uint8, unsigned char)
EXPORT(from_int8, signed char, 0)
MEMORY(memory_int8, signed char)
STRIPS(large_uint8, unsigned char)
#elif PART == 1
EXPORT(from_uint16, vuint16_t, 1)
MEMORY(memory_uint16, vuint16_t)
EXPORT(from_int16, vint16_t, 1)
MEMORY(memory_int16, vint16_t)
STRIPS(large_int16, vint16_t)
#elif PART == 2
EXPORT(from_uint32, vuint32_t, 2)
MEMORY(memory_uint32, vuint32_t)
EXPORT(from_int32, vint32_t, 2)
MEMORY(memory_int32, vint32_t)
STRIPS(large_int32, vint32_t)
#elif PART == 3
EXPORT(from_uint64, vuint64_t, 3)
MEMORY(memory_uint64, vuint64_t)
EXPORT(from_int64, vint64_t, 3)
MEMORY(memory_int64, vint64_t)
#elif PART == 4
EXPORT(from_float, float, 4)
MEMORY(memory_float, float)
STRIPS(large_float, float)
#elif PART == 5
EXPORT(from_double, double, 4)
MEMORY(memory_double, double)
STRIPS(large_double, double)
#endif
