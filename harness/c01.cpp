// C01: parallel loops give the sequential result under every schedule
#include "raster.hpp"
#include "mongo_stub.hpp"
#include "../mc/sched.hpp"
#include "utils_math.h"
using namespace ccgl::utils_math; using namespace ccgl::utils_array;
static void init(mc::X&) { GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); std::cout.setstate(std::ios::failbit); }
static struct Init { Init() { mc::worker_init = init; } } init_;
struct Out { string s; void d(double v) { char b[40]; snprintf(b, sizeof b, "%.12g ", v); s += b; } void i(long v) { d((double)v); } void t(const string& v) { s += v; s += '|'; } };
typedef std::function<string()> Fn;
// every schedule of every parallel region of fn with n threads must give what one thread gives
static void check(mc::X& x, const string& key, int n, const Fn& fn) {
    static int found = 0; if (found >= 2) return;       // enough counterexamples from this process
    int regions = 0; string want = sched::sequential(fn, &regions), again = sched::sequential(fn, nullptr); if (again != want) { x.fail("not-repeatable", "%s is not repeatable with one thread", key.c_str()); return; }
    uint64_t cap = x.thorough ? 20000 : 300; sched::Result r = sched::explore(n, &want, fn, cap); x.step(r.events); bool one = false;
    if (r.capped) { one = true; for (int k = 1; k <= regions && r.bad.empty(); k++) { sched::Result q = sched::explore(n, &want, fn, 20 * cap, k); x.step(q.events); r.bad = q.bad; r.bad_schedule = q.bad_schedule; r.schedules += q.schedules; if (q.capped) for (int p = 1; p < 3 && r.bad.empty(); p++) { q = sched::explore(n, &want, fn, 20 * cap, k, nullptr, p); x.step(q.events); r.bad = q.bad; r.bad_schedule = q.bad_schedule; r.schedules += q.schedules; x.also(" region %d: at most %d preemptions%s;", k, p, q.capped ? ", incomplete" : ""); } } }
    if (!r.bad.empty()) found++;
    if (!r.bad.empty()) x.fail(key, "with %d threads in the order %s the result is %s, with one thread %s", n, r.bad_schedule.c_str(), r.bad.substr(0, 600).c_str(), want.substr(0, 600).c_str());
    x.also(" (%llu schedules, %d regions%s)", (unsigned long long)r.schedules, regions, one ? ", one by one" : ""); x.outcome(want);
}
// ---- the explorer itself: known programs with known sets of outcomes
static int shared_; static double sumd_;
MC_BODY(explorer, 1) {
    int what = x.choose(6), n = 2 + x.choose(2); std::set<string> got; Fn fn;
    if (what == 0) fn = [] { shared_ = 0;
#pragma omp parallel
        { int t = shared_; t++; shared_ = t; } return std::to_string(shared_); };
    if (what == 1) fn = [] { shared_ = 0;
#pragma omp parallel
        {
#pragma omp atomic
        shared_ += 1; } return std::to_string(shared_); };
    if (what == 2) fn = [] { shared_ = 0;
#pragma omp parallel
        {
#pragma omp critical
        { int t = shared_; t++; shared_ = t; } } return std::to_string(shared_); };
    if (what == 3) fn = [] { int last = 0;
#pragma omp parallel for lastprivate(last)
        for (int i = 0; i < 5; i++) last = i; return std::to_string(last); };
    if (what == 4) fn = [] { int turn[4] = {0, 0, 0, 0}, order = 0;
#pragma omp parallel for schedule(dynamic)
        for (int i = 0; i < 4; i++) turn[i] = omp_get_thread_num(); for (int i = 0; i < 4; i++) order = order * 4 + turn[i]; return std::to_string(order); };
    if (what == 5) fn = [] { int a = 0, b = 0, c = 0; 
#pragma omp parallel
        {
#pragma omp atomic
        a += 1;
#pragma omp barrier
        if (a == omp_get_num_threads()) {
#pragma omp atomic
        b += 1; }
#pragma omp single
        c++; } return std::to_string(a * 100 + b * 10 + c); };
    sched::Result r = sched::explore(n, nullptr, fn, 1000000, -1, [&](const string& s) { got.insert(s); }); x.step(r.events); std::set<string> want; if (what == 0) for (int i = 1; i <= n; i++) want.insert(std::to_string(i)); else if (what < 3) want.insert(std::to_string(n)); else if (what == 3) want.insert("4"); else if (what == 5) want.insert(std::to_string(n * 110 + 1));
    if (what < 3) { std::set<string> few; sched::explore(n, nullptr, fn, 1000000, -1, [&](const string& s) { few.insert(s); }, n - 1); if (few != want) { fprintf(stderr, "THE BOUNDED EXPLORER IS WRONG: program %d\n", what); _exit(77); } }
    x.note("explorer: program %d with %d threads, %llu schedules", what, n, (unsigned long long)r.schedules); if (what == 4) { size_t all = 1; for (int i = 0; i < 4; i++) all *= n; if (got.size() != all) { fprintf(stderr, "THE EXPLORER MISSES SCHEDULES: %zu of %zu assignments\n", got.size(), all); _exit(77); } return; }
    if (got != want) { string s; for (auto& g : got) s += g + " "; fprintf(stderr, "THE EXPLORER IS WRONG: program %d gives %s\n", what, s.c_str()); _exit(77); } for (auto& g : got) x.outcome(g);
}
// ---- arrays
template <typename T> static void arr(Out& o, T* d, int n) { if (!d) { o.t("null"); return; } for (int i = 0; i < n; i++) o.d((double)d[i]); }
template <typename T> static void arrays(mc::X& x) {
    int op = x.choose(9), threads = 2 + x.choose(x.thorough ? 3 : 2), n = x.choose(x.thorough ? 8 : 6) + 1, lyr = op == 3 || op == 4 || op == 8 ? 1 + x.choose(x.thorough || threads == 2 ? 3 : 2) : 1; if (!x.mine()) return; T nd = (T)-99; vector<T> v(n * lyr); bool stat = op >= 7; for (int i = 0; i < n * lyr; i++) v[i] = stat ? (T)0 : (T)(3 + 5 * i);
    if (stat) { for (int i = 0; i < n * lyr; i++) v[i] = i % n < 4 && i / n < (x.thorough ? 2 : 1) ? (x.choose(2) == 0 ? nd : (T)(2 + i % 3)) : (T)(i % 4); vector<T> w(n * lyr); for (int i = 0; i < n; i++) for (int k = 0; k < lyr; k++) w[i * lyr + k] = v[k * n + i]; v = w; }
    static const char* OP[] = {"Initialize1DArray(value)", "Initialize1DArray(array)", "Initialize1DArray(array of another type)", "Initialize2DArray(value)", "Initialize2DArray(array)", "Sum", "Sum by index", "BasicStatistics", "BasicStatistics of layers"};
    x.note("%s of %d x %d elements of %s with %d threads", OP[op], n, lyr, typeid(T).name(), threads);
    check(x, OP[op], threads, [&]() { Out o; T* d = nullptr; T** d2 = nullptr; double* dd = nullptr;
        switch (op) {
        case 0: Initialize1DArray(n, d, (T)7); arr(o, d, n); Release1DArray(d); break;
        case 1: Initialize1DArray(n, d, v.data()); arr(o, d, n); Release1DArray(d); break;
        case 2: Initialize1DArray(n, dd, v.data()); arr(o, dd, n); Release1DArray(dd); break;
        case 3: Initialize2DArray(n, lyr, d2, (T)7); for (int i = 0; i < n; i++) arr(o, d2[i], lyr); Release2DArray(d2); break;
        case 4: { T** e = nullptr; Initialize2DArray(n, lyr, e, (T)1); for (int i = 0; i < n; i++) for (int k = 0; k < lyr; k++) e[i][k] = v[i * lyr + k]; Initialize2DArray(n, lyr, d2, e); for (int i = 0; i < n; i++) arr(o, d2[i], lyr); Release2DArray(d2); Release2DArray(e); break; }
        case 5: o.d((double)Sum(n, v.data())); break;
        case 6: { int* ix = new int[n]; for (int i = 0; i < n; i++) ix[i] = (i * 2 + 1) % n; o.d((double)Sum(n, ix, v.data())); delete[] ix; break; }
        case 7: { double* s = nullptr; BasicStatistics(v.data(), n, &s, nd); arr(o, s, 6); delete[] s; break; }
        case 8: { T** e = nullptr; Initialize2DArray(n, lyr, e, (T)1); for (int i = 0; i < n; i++) for (int k = 0; k < lyr; k++) e[i][k] = v[i * lyr + k]; double** s = nullptr; BasicStatistics(e, n, lyr, &s, nd); for (int q = 0; q < 6; q++) { arr(o, s[q], lyr); delete[] s[q]; } delete[] s; Release2DArray(e); break; }
        } return o.s; });
}
// ---- rasters
template <typename R> static void ras(Out& o, R* r) {
    if (!r) { o.t("none"); return; } o.i(r->GetRows()); o.i(r->GetCols()); o.i(r->GetLayers()); o.i(r->GetCellNumber()); o.d((double)r->GetNoDataValue()); for (int i = 0; i < r->GetRows(); i++) for (int j = 0; j < r->GetCols(); j++) for (int k = 1; k <= r->GetLayers(); k++) o.d((double)r->GetValue(i, j, k));
    if (r->PositionsCalculated()) { int n = 0; int** p = nullptr; r->GetRasterPositionData(&n, &p); for (int i = 0; p && i < n; i++) { o.i(p[i][0]); o.i(p[i][1]); } int* q = nullptr; r->GetRasterPositionData(&n, &q); arr(o, q, q ? n : 0); }
    for (auto& kv : r->GetSubset()) { o.i(kv.first); o.i(kv.second->n_cells); arr(o, kv.second->global_, kv.second->n_cells); arr(o, kv.second->local_posidx_, kv.second->n_cells); }
}
static void files(Out& o, const string& d) { for (auto& f : list_dir(d)) { string t; get(d + "/" + f, t); o.t(f); o.t(t); } }
static const char* ROP[] = {"read files", "read files, compact", "read files through a mask", "read files through a mask, compact", "SetCalcPositions", "ReplaceNoData", "Reclassify", "statistics", "copy", "BuildSubSet", "write ASCII grid", "write GeoTIFF", "write subsets", "combine subsets", "clsRasterData(mask, values)", "read into a mask without extent"};
static const int SHAPES[][2] = {{2,2},{2,3},{3,1},{3,3}};
template <typename T> static void rasters(mc::X& x, int nshape, int lyrs) {
    int op = x.choose(16), s = x.choose(nshape), threads = 2 + x.choose(x.thorough ? 3 : 2); G g(SHAPES[s][0], SHAPES[s][1], lyrs, sizeof(T) == 1 ? 255 : -9999), m(SHAPES[s][0], SHAPES[s][1], 1, -9999); int n = g.r * g.c;
    for (int i = 0; i < n; i++) for (int k = 0; k < lyrs; k++) { bool h = k == 0 ? (i < 4 ? x.flag() : i % 3 != 1) : (i + k) % 4 != 0; if (h) g.v[i * lyrs + k] = 1 + (i + 2 * k) % 4; } for (int i = 0; i < n; i++) if (i != 1) m.v[i] = 1 + i % 2;
    if (!x.mine()) return; if (!g.count()) return; int type = op == 11 ? x.choose(11) : 0; if (op == 11 && sizeof(T) > 1 && x.flag()) { int k = 0; for (auto& v : g.v) if (v != g.nd && k++ % 2 == 0) v = k == 1 ? 70000 : -200; } /* beyond some types */ static const RasterDataType TY[] = {RDT_Unknown, RDT_UInt8, RDT_Int8, RDT_UInt16, RDT_Int16, RDT_UInt32, RDT_Int32, RDT_UInt64, RDT_Int64, RDT_Float, RDT_Double}; int conf = op >= 4 && op != 14 ? x.choose(2) : 0;
    x.note("%s: %s%s with %d threads", ROP[op], g.show().c_str(), conf ? ", compact" : "", threads); vector<string> in; for (int k = 0; k < lyrs; k++) in.push_back(input_file(g, k, 0)); string mf = input_file(m, 0, 0, "mask"), dir = x.scratch + "/out"; typedef clsRasterData<T> R; typedef clsRasterData<T, int> RM;
    check(x, ROP[op], threads, [&]() { Out o; mc::clean_dir(dir); mkdir(dir.c_str(), 0777);
        if (op <= 1) { R* r = R::Init(in, op == 1); ras(o, r); delete r; return o.s; }
        if (op == 2 || op == 3 || op == 15) { IR* k = IR::Init(mf, op == 3); RM* r = RM::Init(in, op == 3, k, op != 15); ras(o, r); delete r; delete k; return o.s; }
        if (op == 14) { IR* k = IR::Init(mf, true); int c = k->GetCellNumber(); if (lyrs == 1) { vector<T> v(c, (T)3); RM r(k, v.data(), c); ras(o, &r); } else { T** v = nullptr; Initialize2DArray(c, lyrs, v, (T)3); RM r(k, v, c, lyrs); ras(o, &r); Release2DArray(v); } delete k; return o.s; }
        R* r = from_data<T>(g); if (conf) r->SetCalcPositions();
        switch (op) {
        case 4: r->SetCalcPositions(); ras(o, r); break;
        case 5: r->ReplaceNoData((T)9); ras(o, r); break;
        case 6: { map<int, T> q; q[1] = (T)5; q[2] = (T)6; r->Reclassify(q); ras(o, r); break; }
        case 7: for (int k = 1; k <= lyrs; k++) { o.d(r->GetAverage(k)); o.d(r->GetMaximum(k)); o.d(r->GetMinimum(k)); o.d(r->GetStd(k)); o.d(r->GetRange(k)); o.d(r->GetValidNumber(k)); } break;
        case 8: { R c(r); ras(o, &c); R e; e.Copy(r); ras(o, &e); break; }
        case 9: r->BuildSubSet(); ras(o, r); break;
        case 10: o.i(r->OutputToFile(dir + "/o.asc")); files(o, dir); break;
        case 11: if (type) r->SetOutDataType(TY[type]); o.i(r->OutputToFile(dir + "/o.tif")); files(o, dir); break;
        case 12: r->BuildSubSet(); o.i(r->OutputSubsetToFile(true, false, dir + "/o.asc")); files(o, dir); break;
        case 13: { r->BuildSubSet(); map<vint, vector<double>> q; q[1] = vector<double>(lyrs, 7.); o.i(r->OutputSubsetToFile(false, true, dir + "/o.asc", q)); files(o, dir); break; }
        } ras(o, r); delete r; return o.s; });
}
MC_BODY(arrays_int, 24) { arrays<int>(x); }
MC_BODY(arrays_double, 24) { arrays<double>(x); }
MC_BODY(arrays_float, 24) { arrays<float>(x); }
MC_BODY(arrays_int8, 24) { arrays<signed char>(x); }
MC_BODY(rasters_int, 32) { rasters<int>(x, x.thorough ? 4 : 2, 1); }
MC_BODY(rasters_layers, 32) { rasters<float>(x, x.thorough ? 4 : 2, 2); }
MC_BODY(rasters_three, 32) { rasters<double>(x, x.thorough ? 3 : 1, 3); }
// ---- rasters in the document store: converting while storing, unfolding layers while reading
static const char* DT[] = {"", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
template <typename T> static void stored(mc::X& x, int nshape, int lyrs) {
    using namespace ccgl::db_mongoc; typedef clsRasterData<T> R; int type = x.choose(11), s = x.choose(nshape), inc = x.choose(2), calc = x.choose(2), threads = 2 + x.choose(x.thorough ? 3 : 2), odd = x.choose(3); G g(SHAPES[s][0], SHAPES[s][1], lyrs, sizeof(T) == 1 ? 255 : odd == 1 ? 0.5 : -9999); if (odd == 1 && (sizeof(T) == 1 || std::numeric_limits<T>::is_integer)) return; int n = g.r * g.c;
    for (int i = 0; i < n; i++) for (int k = 0; k < lyrs; k++) { bool h = k == 0 ? (i < 4 ? x.flag() : i % 3 != 1) : (i + k) % 4 != 0; if (h) g.v[i * lyrs + k] = 1 + (i + 2 * k) % 4; } if (!x.mine()) return; if (!g.count()) return; if (odd == 2 && sizeof(T) > 1) { int k = 0; for (auto& v : g.v) if (v != g.nd && k++ % 2 == 0) v = k == 1 ? (type == 9 && sizeof(T) == 8 ? 1e39 : 70000) : -200; }
    G m(g.r, g.c, 1, -9999, g.x, g.y, g.cs); for (int c : g.valid()) m.v[c] = 5;
    x.note("store %s as %s %s no-data cells and read it%s with %d threads", g.show().c_str(), type ? DT[type] : "it is", inc ? "with" : "without", calc ? " compact" : "", threads);
    check(x, "document store", threads, [&]() { Out o; mg::reset(); MongoClient* c = MongoClient::Init("127.0.0.1", 27017); MongoGridFs* f = c->GridFs("db", "fs"); STRING_MAP opt; if (type) opt[HEADER_RSOUT_DATATYPE] = DT[type];
        R* r = from_data<T>(g); if (calc) r->SetCalcPositions(); o.i(r->OutputToMongoDB(f, "r", opt, inc)); ras(o, r); delete r; for (mg::File& e : mg::store["db"].gfs["fs"]) { o.t(e.name); o.t(e.data); }
        STRING_MAP q; q[HEADER_INC_NODATA] = inc ? "TRUE" : "FALSE"; R* k = inc ? nullptr : from_data<T>(m); R* b = R::Init(f, "r", calc, k, true, NODATA_VALUE, q); ras(o, b); delete b; delete k; delete f; c->Destroy(); delete c; mg::reset(); return o.s; });
}
MC_BODY(stored_int, 32) { stored<int>(x, x.thorough ? 4 : 2, 1); }
MC_BODY(stored_float, 32) { stored<float>(x, x.thorough ? 4 : 1, 2); }
MC_BODY(stored_double, 32) { stored<double>(x, x.thorough ? 3 : 1, 3); }
