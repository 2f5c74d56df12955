// M03: rasters and subsets stored in the document store and read back: whole, compact, through masks, by subsets,
// in every data type; odd documents; failing calls.
#include "raster.hpp"
#include "mongo_stub.hpp"
#include "rmask.hpp"
#include <cfloat>
using namespace ccgl::db_mongoc;
static void init(mc::X&) { warm(); std::cout.setstate(std::ios::failbit); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const char* TYPES[] = {"", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE", "Unknown", "NONE_SUCH"};
static const int WIDTH[] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static int type_index(const string& s) { for (int i = 1; i <= 10; i++) if (s == TYPES[i]) return i; return 0; }
template <typename T> static int own_type() { return type_index(RasterDataTypeToString(TypeToRasterDataType(typeid(T)))); }
static bool fits(double v, int t) {
    if (t >= 9) return t == 10 || !(std::fabs(v) > FLT_MAX && std::fabs(v) <= DBL_MAX);
    double b = WIDTH[t] * 8, lo = t % 2 ? 0 : -std::ldexp(1., (int)b - 1), hi = std::ldexp(1., (int)b - (t % 2 ? 0 : 1)); return v >= lo && v < hi;
}
static double as(double v, int t) { return t == 10 ? v : t == 9 ? (double)(float)v : std::trunc(v); }
struct Db {            // a client of an empty store
    MongoClient* c; MongoGridFs* g;
    Db() { mg::reset(); c = MongoClient::Init("127.0.0.1", 27017); if (!c) abort(); g = c->GridFs("db", "fs"); if (!g) abort(); }
    void end(mc::X& x) { mg::fault = nullptr; delete g; c->Destroy(); delete c; g = nullptr; for (const string& m : mg::misuse) x.fail("misuse", "%s", m.c_str()); if (!mg::live.empty()) x.fail("handles", "not released: %s", mg::handles().c_str()); mg::reset(); }
    ~Db() { if (g) { mg::fault = nullptr; delete g; c->Destroy(); delete c; mg::reset(); } }
};
static vector<mg::File>& files() { return mg::store["db"].gfs["fs"]; }
static string field(const mg::File& f, const char* k) { bson_t m; bson_iter_t it; if (!f.has_meta || !bson_init_static(&m, (const uint8_t*)f.meta.data(), f.meta.size()) || !bson_iter_init_find(&it, &m, k)) return "(none)"; if (BSON_ITER_HOLDS_UTF8(&it)) return bson_iter_utf8(&it, NULL); char b[40]; snprintf(b, sizeof b, "%.17g", bson_iter_as_double(&it)); return b; }
// the stored file holds `cells` cells of `lyrs` layers of this type
static bool layout(mc::X& x, const string& k, const mg::File& f, int cells, int lyrs, int t) {
    string d = field(f, HEADER_RSOUT_DATATYPE); if (type_index(d) != t) { x.fail(k + "-type", "%s is stored as %s, expected %s", f.name.c_str(), d.c_str(), TYPES[t]); return false; }
    if (f.data.size() != (size_t)cells * lyrs * WIDTH[t]) { x.fail(k + "-length", "%s is stored in %zu bytes, expected %d cells x %d layers of %s", f.name.c_str(), f.data.size(), cells, lyrs, TYPES[t]); return false; }
    return true;
}
static STRING_MAP with(const char* inc) { STRING_MAP o; o[HEADER_INC_NODATA] = inc; return o; }
template <typename T> static clsRasterData<T>* fetch(Db& d, const string& n, const STRING_MAP& o, bool calc, clsRasterData<T>* mask = nullptr, bool ext = true, double dflt = NODATA_VALUE, int how = 0) {
    typedef clsRasterData<T> R; if (how == 0) return R::Init(d.g, n.c_str(), calc, mask, ext, dflt, o);
    R* r = how == 1 ? new R() : new R(d.g, n.c_str(), calc, mask, ext, dflt, o); if (how == 1 ? r->ReadFromMongoDB(d.g, n, calc, mask, ext, dflt, o) : r->Initialized() && (r->GetRasterDataPointer() || r->Get2DRasterDataPointer())) return r; delete r; return nullptr; }
static const int SHAPES[][2] = {{1,1},{1,3},{2,2},{3,1},{2,3},{3,2}};
static const char* CONF[] = {"raster", "compact raster", "copy", "raster of a mask"};
// cells the raster holds: those with data in the first layer
template <typename T> static clsRasterData<T>* make(G& g, int conf, vector<clsRasterData<T>*>& own) {
    typedef clsRasterData<T> R; R* r; if (conf < 3) { r = from_data<T>(g); if (conf == 1) r->SetCalcPositions(); if (conf == 2) { r->SetCalcPositions(); R* c = new R(r); delete r; r = c; } if (conf) for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] == g.nd) for (int k = 1; k < g.l; k++) g.v[i * g.l + k] = g.nd; return r; }
    for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] == g.nd) for (int k = 1; k < g.l; k++) g.v[i * g.l + k] = g.nd;
    vector<int> p = g.valid(); G m(g.r, g.c, 1, g.nd, g.x, g.y, g.cs); for (int c : p) m.v[c] = 1; R* mask = from_data<T>(m); own.push_back(mask); T** v = nullptr; Initialize2DArray((int)p.size(), g.l, v, (T)0); vector<T> v1; for (size_t i = 0; i < p.size(); i++) { for (int k = 0; k < g.l; k++) v[i][k] = (T)g.v[p[i] * g.l + k]; v1.push_back(v[i][0]); }
    r = g.l == 1 ? new R(mask, v1.data(), (int)p.size()) : new R(mask, v, (int)p.size(), g.l); Release2DArray(v); return r; }
template <typename T> static void whole(mc::X& x, int shapes, const vector<double>& nds) {
    typedef clsRasterData<T> R; int s = x.choose(shapes), l = 1 + x.choose(3), conf = x.choose(4), inc = x.choose(2), nq = x.choose((int)nds.size()); if (!x.mine()) return; double nd = nds[nq]; G g(SHAPES[s][0], SHAPES[s][1], l, nd, nq ? 4294967296. : 2, nq ? -8192 : -7.25, nq ? 2048 : 2); int n = g.r * g.c;
    unsigned p = x.choose(1 << n); for (int i = 0; i < n; i++) { if (p >> i & 1) g.v[i * l] = 1 + i; for (int k = 1; k < l; k++) g.v[i * l + k] = (i + k) % 3 == 0 ? nd : 10 * k + i; }
    if (conf == 3 && !p) return; x.note("%s %s stored %s no-data cells", CONF[conf], g.show().c_str(), inc ? "with" : "without"); Db d; vector<R*> own; R* r = make<T>(g, conf, own); G was = g; STRING_MAP o; int note = (p + s + l) % 3; if (note) { o["NOTE"] = "x y"; o["N"] = "7"; } if (note == 2) o["SRS"] = "EPSG:4326"; bool empty = !p;
    if (!inc && !conf) for (int i = 0; i < n; i++) if (g.v[i * l] == nd) for (int k = 1; k < l; k++) g.v[i * l + k] = nd;
    if (p % 2) { G h = g; for (double& v : h.v) if (v != nd) v += 40; vector<R*> q; R* e = make<T>(h, p ? conf : 0, q); e->OutputToMongoDB(d.g, "r", o, inc); delete e; for (R* m : q) delete m; }       // an older version
    x.step(); bool ok = r->OutputToMongoDB(d.g, "r", o, inc); bool good = (inc && (conf == 0 || conf == 3)) || !empty;        // a compact raster without cells holds no data
    if (ok != good) { x.fail("store", "storing %s", ok ? "succeeded although there is nothing to store" : "failed"); } if (!ok && !files().empty() && p % 2 == 0) x.fail("store", "a file was stored by a failed operation");
    vector<int> valid = g.valid(); int cells = inc ? n : (int)valid.size();
    if (ok && good) { if (files().size() != 1) x.fail("overwrite", "%zu files of the same name and options", files().size()); else { const mg::File& f = files()[0]; layout(x, "stored", f, cells, l, own_type<T>()); if (f.name != "r" || field(f, HEADER_INC_NODATA) != (inc ? "TRUE" : "FALSE")) x.fail("stored", "stored as %s, %s", f.name.c_str(), field(f, HEADER_INC_NODATA).c_str());
        if (note && (field(f, "NOTE") != "x y" || field(f, "N") != "7")) x.fail("options", "options are stored as %s, %s", field(f, "NOTE").c_str(), field(f, "N").c_str()); } }
    // the raster itself stays as it was
    if (!empty) { if (conf == 0 && inc) same(x, "source", r, was, nullptr, 0); else same(x, "source", r, inc || conf ? was : g, nullptr, 1); }
    if (ok && good) for (int how = 0; how < 3; how++) for (int calc = 0; calc < 2; calc++) {
        STRING_MAP f = inc && how == 0 ? STRING_MAP() : with(inc ? "TRUE" : "FALSE"); if (note && how == 2) f["N"] = "7";
        G m(g.r, g.c, 1, nd, g.x, g.y, g.cs); for (int c : valid) m.v[c] = 5; R* mask = nullptr; if (!inc && (cells < n || how == 2)) { mask = from_data<T>(m); if ((p + how) % 2) mask->SetCalcPositions(); if (how == 1) mask->BuildSubSet(); }
        x.step(); R* b = fetch<T>(d, "r", f, calc, mask, true, NODATA_VALUE, how); G want = g; bool compact = mask || calc; if (compact) for (int i = 0; i < n; i++) if (g.v[i * l] == nd) for (int k = 1; k < l; k++) want.v[i * l + k] = nd;
        if (!b) { if (!(empty && calc)) x.fail("read", "reading failed (%s, %s)", calc ? "compact" : "as stored", mask ? "mask" : "no mask"); }
        else if (!(empty && calc)) { same(x, calc ? "read-compact" : "read", b, want, nullptr, compact ? 1 : 0); x.outcome(g.show()); if (note && (b->GetOption("NOTE") != "x y" || b->GetOption("N") != "7")) x.fail("options", "options read: %s, %s", b->GetOption("NOTE").c_str(), b->GetOption("N").c_str()); if (note == 2 && b->GetSrsString() != "EPSG:4326" && !(mask && b->GetSrsString().empty())) x.fail("srs", "spatial reference read: %s", b->GetSrsString().c_str()); if (mask && how == 1 && b->GetSubset().size() != mask->GetSubset().size()) x.fail("subsets", "%zu subsets of the mask's %zu", b->GetSubset().size(), mask->GetSubset().size());
            if (b->GetCoreName() != "r") x.fail("name", "the raster is called %s", b->GetCoreName().c_str()); }
        delete b; delete mask; }
    if (ok && good) {        // what must not be found
        STRING_MAP f = with(inc ? "FALSE" : "TRUE"); R* b = fetch<T>(d, "r", f, false); if (b) x.fail("filter", "a file with other options was read"); delete b; f = with(inc ? "TRUE" : "FALSE"); f["NOTE"] = "zz"; b = fetch<T>(d, "r", f, false); if (b) x.fail("filter", "a file with other options was read"); delete b; b = fetch<T>(d, "R2", with(inc ? "TRUE" : "FALSE"), false); if (b) x.fail("filter", "a file that does not exist was read"); delete b;
        if (!inc && cells < n) { b = fetch<T>(d, "r", with("FALSE"), true); if (b) x.fail("placeless", "values without positions were read without a mask"); delete b; G m(g.r, g.c, 1, nd, g.x, g.y, g.cs); for (int i = 0; i <= cells && i < n; i++) m.v[i] = 5; R* mask = from_data<T>(m); b = fetch<T>(d, "r", with("FALSE"), true, mask); if (b) x.fail("wrong-mask", "%d values were read through a mask of %d cells", cells, cells + 1); delete b; delete mask;
            G m2(g.c * g.r + 1, 1, 1, nd, g.x, g.y, g.cs); for (int i = 0; i < cells; i++) m2.v[i] = 5; mask = from_data<T>(m2); b = fetch<T>(d, "r", with("FALSE"), true, mask); if (b) x.fail("wrong-mask", "values were read through a mask of another shape"); delete b; delete mask; } }
    delete r; for (R* m : own) delete m; d.end(x);
}
// requested types: every type, values and no-data values in and out of its range
template <typename T> static void convert(mc::X& x, const vector<double>& vals, const vector<double>& nds) {
    typedef clsRasterData<T> R; int t = x.choose(13), lv = x.choose(2), inc = x.choose(2), how = x.choose(2); double nd = x.pick(nds); if (!x.mine()) return; double a = x.pick(vals), b = x.pick(vals); if (a == nd || b == nd) return; int l = 1 + lv; G g(1, 3, l, nd); g.v[0] = a; g.v[2 * l] = b; if (l == 2) { g.v[1] = b; g.v[2 * l + 1] = nd; }
    x.note("%s stored as %s, %s no-data cells%s", g.show().c_str(), t ? TYPES[t] : "it is", inc ? "with" : "without", how ? ", over an older file" : ""); Db d; STRING_MAP o; if (t) o[HEADER_RSOUT_DATATYPE] = TYPES[t]; int tt = t == 0 || t > 10 ? own_type<T>() : t; bool all = fits(a, tt) && fits(b, tt); double e[2] = {as(a, tt), as(b, tt)};
    if (how) { G h(1, 3, l, 100); h.v[0] = 1; h.v[2 * l] = 2; R* q = from_data<T>(h); q->OutputToMongoDB(d.g, "r", o, inc); delete q; if (files().size() != 1) { x.fail("store", "storing small values failed"); d.end(x); return; } }
    vector<mg::File> old = files(); R* r = from_data<T>(g); x.step(); bool ok = r->OutputToMongoDB(d.g, "r", o, inc);
    if (!all && ok) x.fail("unrepresentable", "a value that the type cannot hold was stored"); if (!ok && (files().size() != old.size() || (how && files()[0].data != old[0].data))) x.fail("partial", "a refused raster changed the store");
    if (ok && all) { if (files().size() != 1) { x.fail("overwrite", "%zu files", files().size()); } else if (layout(x, "stored", files()[0], inc ? 3 : 2, l, tt)) {
        G m(1, 3, 1, -9999, g.x, g.y, g.cs); m.v[0] = m.v[2] = 1; STRING_MAP f = with(inc ? "TRUE" : "FALSE");
        clsRasterData<double>* mask = inc ? nullptr : from_data<double>(m); clsRasterData<double>* q = fetch<double>(d, "r", f, false, mask); if (!q) x.fail("read", "reading failed"); else { double nn = (double)q->GetNoDataValue(); if (fits(nd, tt) && as(nd, tt) == nd && nn != nd) x.fail("nodata", "no-data value %.17g became %.17g", nd, nn); G w(1, 3, l, nn, g.x, g.y, g.cs); w.v[0] = e[0]; w.v[2 * l] = e[1]; if (l == 2) w.v[1] = e[1]; if (e[0] == nn || e[1] == nn) x.fail("lost", "a value became no-data (%.17g)", nn); else same(x, "read", q, w); x.outcome(g.show() + TYPES[tt]); } delete q; delete mask;
        if (tt == own_type<T>()) { clsRasterData<T> mt(data1d<T>(m), 3, 1, (T)-9999, m.cs, m.x, m.y, string()); R* z = fetch<T>(d, "r", f, false, inc ? nullptr : (sizeof(T) > 1 ? &mt : nullptr)); if (z) same(x, "read-own", z, g); else if (inc || sizeof(T) > 1) x.fail("read", "reading the own type failed"); delete z; } } }
    if (!ok && all) {        // only when a value would become no-data, or no-data cannot be told from values
        bool sub = !fits(nd, tt) || as(nd, tt) != nd; double nn = tt == 9 ? as(nd, tt) : nd; bool clash = e[0] == nn || e[1] == nn; if (sub) for (double q : e) { double top = std::ldexp(1., WIDTH[tt] * 8 - (tt % 2 ? 0 : 1)); clash = clash || q == -9999 || q >= top - 1 || q == -top || q < -1e38 || (WIDTH[tt] == 8 && q >= top - 2048); } if (!clash) x.fail("refused", "storing failed"); }
    delete r; d.end(x);
}
// a stored source read through masks
template <typename T> static void masked(mc::X& x, int mr, int mc_, int sr, int sc) {
    static const double OFF[][2] = {{0,0},{1,0},{0,1},{-1,-1},{1,-1},{0.3,-0.2},{2,0},{0,-2}}; int of = x.choose(8); bool ext = x.flag(), calc = x.flag(); int df = x.choose(2); unsigned mp = 1 + x.choose((1 << (mr * mc_)) - 1); if (!x.mine()) return; G m(mr, mc_, 1, -9999, 10, 20, 2); for (int i = 0; i < mr * mc_; i++) if (mp >> i & 1) m.v[i] = 1 + i % 2; G s(sr, sc, 1, -9999, 10 + 2 * OFF[of][0], 20 + 2 * OFF[of][1], 2); unsigned sp = x.choose(1 << (sr * sc)); for (int i = 0; i < sr * sc; i++) if (sp >> i & 1) s.v[i] = 50 + i; double dflt = df ? 7 : -9999; Masked o = mask_ref(s, m, ext, calc, dflt); int l = 1 + (mp + sp) % 2;
    x.note("stored %s through mask %s, %s extent, %s, default %g%s", s.show().c_str(), m.show().c_str(), ext ? "mask's" : "smallest", calc ? "compact" : "as it comes", dflt, l == 2 ? ", two layers" : ""); Db d; typedef clsRasterData<T> R; G src = s; if (l == 2) { src = G(sr, sc, 2, s.nd, s.x, s.y, s.cs); for (int i = 0; i < sr * sc; i++) { src.v[2 * i] = s.v[i]; src.v[2 * i + 1] = s.v[i] == s.nd ? s.nd : s.v[i] + 100; } }
    R* r = from_data<T>(src); x.step(2); if (!r->OutputToMongoDB(d.g, "s")) x.fail("store", "storing failed"); delete r; R* mask = from_data<T>(m); if (sp % 2) mask->SetCalcPositions(); bool sub = mp % 3 == 1; if (sub) mask->BuildSubSet();
    R* b = fetch<T>(d, "s", STRING_MAP(), calc, mask, ext, dflt, (int)(sp / 2 % 3));
    bool got = b != nullptr; if (sp / 2 % 3 == 2 && o.fail) got = false; if (o.fail && got) x.fail("kept-nothing", "a raster was made although the mask selects nothing of the source"); if (!o.fail && !got) x.fail("refused", "reading through the mask failed");
    if (got && !o.fail) { G w = o.g; if (l == 2) { w = G(o.g.r, o.g.c, 2, s.nd, o.g.x, o.g.y, o.g.cs); for (size_t i = 0; i < o.g.v.size(); i++) { double v = o.g.v[i]; w.v[2 * i] = v; w.v[2 * i + 1] = v == s.nd ? s.nd : v == dflt ? dflt : v + 100; } } same(x, "masked", b, w, list_of(b, o)); x.outcome(o.g.show()); }
    same(x, "mask", mask, m); delete b; same(x, "mask", mask, m); delete mask; d.end(x);
}
// subsets: stored one by one or combined, read as rasters and as data of subsets
template <typename T> static void subsets(mc::X& x, int shapes) {
    typedef clsRasterData<T> R; static const int S[][2] = {{2,2},{1,3},{2,3},{3,2}}; int s = x.choose(shapes), l = 1 + x.choose(2), mode = x.choose(4), comb = x.choose(2), inc = x.choose(2); if (!x.mine()) return; G g(S[s][0], S[s][1], l, -9999); int n = g.r * g.c; for (int i = 0; i < n; i++) { int c = x.choose(n > 4 ? 3 : 4); if (c) { g.v[i * l] = c; for (int k = 1; k < l; k++) g.v[i * l + k] = 1 + (i + k) % 3; } } if (!g.count()) return;
    static const char* MODE[] = {"original data", "data of subsets", "reclassified by zone", "nothing to write"}; int off = x.choose(3); R* r = from_data<T>(g); r->BuildSubSet(); map<int, vector<int>> z; for (int i = 0; i < n; i++) if (g.v[i * l] != g.nd) z[(int)g.v[i * l]].push_back(i); vector<int> valid = g.valid();
    int unusable = off == 1 && z.size() > 1 ? z.begin()->first : 0, bare = off == 2 && mode == 1 ? z.rbegin()->first : 0; if ((off == 1 && !unusable) || (off == 2 && !bare)) { delete r; return; } if (unusable) r->GetSubset().at(unusable)->usable = false;
    x.note("%s: %s, %s, %s no-data cells%s%s", g.show().c_str(), MODE[mode], comb ? "combined" : "one by one", inc ? "with" : "without", unusable ? ", one unusable" : "", bare ? ", one without data" : ""); Db d; int dl = mode == 0 ? l : mode == 1 ? 1 + (n + (int)z.size()) % 2 : 2; map<ccgl::vint, vector<double>> rc; if (mode == 2) for (int k = 1; k < 4; k += 2) rc[k] = {40. + k, 70. + k}; int own = -1;
    auto value = [&](int zone, size_t i, int cell, int k) -> double { if (mode == 0) return g.v[(size_t)cell * l + k]; if (mode == 1) return 100. + 10 * zone + i + 50 * k; return rc.count(zone) ? rc[zone][k] : 8; };
    if (mode == 1) for (auto& kv : z) { if (kv.first == bare) continue; SubsetPositions* p = r->GetSubset().at(kv.first); bool u = p->usable; int c = (int)kv.second.size(); double** v = nullptr; Initialize2DArray(c, dl, v, 0.); vector<double> v1; for (int i = 0; i < c; i++) { for (int k = 0; k < dl; k++) v[i][k] = value(kv.first, i, kv.second[i], k); v1.push_back(v[i][0]); } if (dl == 1) p->SetData(c, v1.data()); else p->Set2DData(c, dl, v); Release2DArray(v); p->usable = u; }
    r->SetDefaultValue(8); if (mode == 2) { for (auto& kv : r->GetSubset()) if (kv.second->n_lyrs > 0) own = kv.second->n_lyrs; if (own > 0 && own != 2) dl = own; }
    bool good = mode != 3 && !bare; STRING_MAP o; o["WHO"] = "me"; x.step(); bool ok = mode == 1 && comb && off == 0 ? r->OutputToMongoDB(d.g, "res", o, inc, false) : r->OutputSubsetToMongoDB(d.g, "res", o, inc, mode == 0, comb, rc);
    string key = comb ? "combined" : "single"; if (ok != good) x.fail(key + "-status", "storing %s", ok ? "succeeded" : "failed"); x.outcome(g.show() + MODE[mode]);
    std::set<string> have, want; for (mg::File& f : files()) have.insert(f.name); if (comb) { if (good) want.insert("0_res"); } else if (mode != 3) for (auto& kv : z) if (kv.first != unusable && kv.first != bare) want.insert(std::to_string(kv.first) + "_res"); if (have != want || files().size() != want.size()) x.fail(key + "-files", "%zu files are stored, expected %zu", files().size(), want.size());
    else if (ok && good) for (auto& kv : z) {
        int zone = kv.first; if (comb ? zone != z.begin()->first : zone == unusable) continue; string name = (comb ? string("0") : std::to_string(zone)) + "_res"; G w; vector<int> cells = comb ? valid : kv.second; int r0 = 0, c0 = 0;
        if (comb) w = G(g.r, g.c, dl, g.nd, g.x, g.y, g.cs); else { int r1 = -1, c1 = -1; r0 = g.r; c0 = g.c; for (int c : cells) { r0 = std::min(r0, c / g.c); r1 = std::max(r1, c / g.c); c0 = std::min(c0, c % g.c); c1 = std::max(c1, c % g.c); } w = G(r1 - r0 + 1, c1 - c0 + 1, dl, g.nd, g.x + c0 * g.cs, g.y + (g.r - 1 - r1) * g.cs, g.cs); }
        G m(w.r, w.c, 1, w.nd, w.x, w.y, w.cs); for (auto& q : z) if (comb || q.first == zone) for (size_t i = 0; i < q.second.size(); i++) { int c = q.second[i]; m.at(c / g.c - r0, c % g.c - c0) = q.first; for (int k = 0; k < dl; k++) w.at(c / g.c - r0, c % g.c - c0, k) = q.first == unusable ? 8 : value(q.first, i, c, k); }
        bool full = inc; R* mask = full ? nullptr : from_data<T>(m); x.step(); R* b = fetch<T>(d, name, with(inc ? "TRUE" : "FALSE"), false, mask, true, NODATA_VALUE, zone % 3); if (!b) x.fail(key + "-read", "%s cannot be read", name.c_str()); else { vector<int> list; for (int i = 0; i < m.r * m.c; i++) if (m.v[i] != m.nd) list.push_back(i); same(x, key + "-read", b, w, &list, full ? 0 : 1); if (b->GetOption("WHO") != "me") x.fail("options", "options read: %s", b->GetOption("WHO").c_str()); } delete b; delete mask;
        if (!comb) for (int before = 0; before < 3; before++) {        // as data of a subset that had none, or one or three layers
            R* h = from_data<T>(g); h->BuildSubSet(); SubsetPositions* p = h->GetSubset().at(zone); if (before == 1) { vector<double> v(p->n_cells, 3); p->SetData(p->n_cells, v.data()); } else if (before == 2) { double** v = nullptr; Initialize2DArray(p->n_cells, 3, v, 4.); p->Set2DData(p->n_cells, 3, v); Release2DArray(v); } x.step();
            if (!p->ReadFromMongoDB(d.g, name, with(inc ? "TRUE" : "FALSE"))) x.fail("subset-read", "data of subset %d were not read", zone); else { if (p->n_lyrs != dl || !p->usable || (dl == 1 ? !p->data_ : !p->data2d_)) x.fail("subset-read", "subset %d has %d layers after reading %d", zone, p->n_lyrs, dl); else for (int i = 0; i < p->n_cells; i++) for (int k = 0; k < dl; k++) { double v = dl == 1 ? p->data_[i] : p->data2d_[i][k]; if (v != value(zone, i, kv.second[i], k)) { x.fail("subset-read", "cell %d layer %d of subset %d is %g, expected %g", i, k + 1, zone, v, value(zone, i, kv.second[i], k)); i = p->n_cells; break; } } }
            // files of other subsets do not fit, unless they have as many cells
            for (auto& q : z) if (q.first != zone && q.first != unusable && inc == 0 && before == 0 && q.second.size() != kv.second.size() && q.second.size() != (size_t)w.r * w.c) if (p->ReadFromMongoDB(d.g, std::to_string(q.first) + "_res", with("FALSE"))) x.fail("subset-foreign", "%zu values were taken for a subset of %zu cells", q.second.size(), kv.second.size());
            if (p->ReadFromMongoDB(d.g, "9_res", with(inc ? "TRUE" : "FALSE"))) x.fail("subset-absent", "a file that does not exist was read"); delete h; }
    }
    delete r; d.end(x);
}
// documents that do not describe a raster
MC_BODY(odd, 8) {
    static const char* KEYS[] = {"", HEADER_RS_NROWS, HEADER_RS_NCOLS, HEADER_RS_LAYERS, HEADER_RS_CELLSNUM, HEADER_RSOUT_DATATYPE, "length", "metadata"}; int inc = x.choose(2), l = 1 + x.choose(2), k = x.choose(8), v = k ? x.choose(12) : 0, k2 = k ? x.choose(8) : 0, v2 = k2 > k ? x.choose(12) : 0; if (k2 && k2 <= k) return; if (!x.mine()) return; int calc = x.choose(2), use = x.choose(3);
    static const double N[] = {0, -1, 1, 3, 4, 65536, 2147483647., 2147483648., 1e300, -9999, 2.5, NAN}; const int r = 2, c = 2; int cells = inc ? 4 : 3; string data; for (int i = 0; i < cells * l; i++) { float f = 1 + i; data.append((char*)&f, 4); } bson_t b = BSON_INITIALIZER; bool text = false, bad = false, nometa = k == 7 || k2 == 7; double R = r, C = c, L = l, Q = cells; string type = "FLOAT";
    auto put_ = [&](int i, int w) { if (i == 1) R = N[w]; else if (i == 2) C = N[w]; else if (i == 3) L = N[w]; else if (i == 4) Q = N[w]; else if (i == 5) { static const char* T[] = {"", "NONE", "INT32", "DOUBLE", "UINT8", "INT64", "float", "INT16", "UINT32", "FLOAT ", "0", "GDT_Float32"}; type = T[w]; } else if (i == 6) { if (w < 6) data.resize(w < (int)data.size() ? w : 0); else data.resize(data.size() + w - 5); } else if (i == 7) text = w % 2; };
    if (k) put_(k, v); if (k2) put_(k2, v2);
    auto app = [&](const char* key, double d) { if (text) { char t[40]; snprintf(t, sizeof t, "%.17g", d); BSON_APPEND_UTF8(&b, key, t); } else if (d == (int)d && std::fabs(d) < 2e9) BSON_APPEND_INT32(&b, key, (int)d); else BSON_APPEND_DOUBLE(&b, key, d); };
    int miss = k == 7 && k2 == 0 ? v : -1; if (!(nometa && miss < 0)) { if (miss != 0) app(HEADER_RS_NROWS, R); if (miss != 1) app(HEADER_RS_NCOLS, C); if (miss != 2) app(HEADER_RS_LAYERS, L); if (miss != 3) app(HEADER_RS_CELLSNUM, Q); app(HEADER_RS_NODATA, -9999); app(HEADER_RS_XLL, 1); app(HEADER_RS_YLL, 2); app(HEADER_RS_CELLSIZE, 3); if (miss != 4) BSON_APPEND_UTF8(&b, HEADER_RSOUT_DATATYPE, type.c_str()); BSON_APPEND_UTF8(&b, HEADER_INC_NODATA, inc ? "TRUE" : "FALSE"); }
    if (nometa && miss < 0) bson_reinit(&b); x.note("document %.17g x %.17g x %.17g, %.17g cells of %s in %zu bytes, %s%s%s", R, C, L, Q, type.c_str(), data.size(), inc ? "with no-data" : "without no-data", text ? ", texts" : "", nometa ? ", incomplete" : "");
    Db d; files().push_back(mg::make("f", data, &b)); bson_destroy(&b); int size = type == "DOUBLE" || type == "INT64" ? 8 : type == "UINT8" ? 1 : type == "INT16" ? 2 : type == "FLOAT" || type == "float" || type == "INT32" || type == "UINT32" || type == "GDT_Float32" ? 4 : 0;
    bad = (nometa && (miss < 0 || miss < 5)) || size == 0 || !(R >= 1 && C >= 1 && L >= 1 && Q >= 1) || Q * L * size != (double)data.size() || Q > R * C || (inc && Q != R * C) || R != std::floor(R) || C != std::floor(C) || L != std::floor(L) || Q != std::floor(Q);
    G m(2, 2, 1, -9999, 1, 2, 3); m.v[0] = m.v[2] = m.v[3] = 1; FR* mask = use ? from_data<float>(m) : nullptr; if (!inc && !bad && (R != 2 || C != 2 || Q != 3)) { if (!use && Q == R * C) bad = false; else bad = true; } if (!inc && !use && Q < R * C) bad = true; if (!inc && Q == R * C && use) { delete mask; mask = nullptr; bad = bad && (R * C != Q); if (Q * L * size != (double)data.size()) bad = true; }
    x.step(2);
    if (use < 2) { FR* f = fetch<float>(d, "f", with(inc ? "TRUE" : "FALSE"), calc, mask); bool fine = f && f->GetRows() > 0; if (bad && f) x.fail("nonsense", "a raster was read from a document that describes none"); if (!bad && !f) x.fail("refused", "reading failed"); if (f && !bad && fine && !nometa) { x.outcome("raster"); if (f->GetLayers() != L) x.fail("layers", "%d layers", f->GetLayers()); for (int i = 0; i < f->GetRows() && i < 9; i++) for (int j = 0; j < f->GetCols() && j < 9; j++) f->GetValue(i, j, 1); } else x.outcome("none"); delete f; }
    else { SubsetPositions p(0, 1, 0, 1); int cs[] = {0, 2, 3}, *global = nullptr, *li = nullptr, **lp = nullptr; Initialize1DArray(3, global, 0); Initialize1DArray(3, li, 0); Initialize2DArray(3, 2, lp, 0); for (int i = 0; i < 3; i++) { global[i] = cs[i]; li[i] = cs[i]; lp[i][0] = cs[i] / 2; lp[i][1] = cs[i] % 2; } p.n_cells = 3; p.global_ = global; p.local_pos_ = lp; p.local_posidx_ = li; p.alloc_ = true;
        bool ok = p.ReadFromMongoDB(d.g, "f", with(inc ? "TRUE" : "FALSE")); if (ok) { if (bad && !(Q * L * size == (double)data.size() && (Q == 4 || Q == 3) && size && R >= 1 && C >= 1 && L >= 1)) x.fail("nonsense", "data of a subset were read from a document that describes none"); if (p.n_lyrs == 1 ? !p.data_ : !p.data2d_) x.fail("subset", "no data after reading"); } else if (!bad && R == 2 && C == 2 && (Q == 4 || Q == 3)) x.fail("refused", "reading the data of a subset failed"); }
    delete mask; d.end(x);
}
// failing calls: what is reported as stored can be read, what is reported as read is right, nothing is kept
struct Faults {
    mc::X& x; int budget; bool sticky; int sticky_way;
    Faults(mc::X& x_, int b): x(x_), budget(b), sticky(false), sticky_way(0) { mg::faults_hit = 0; mg::fault = [this](const char* call, int ways) { if (sticky) return std::min(sticky_way, ways); if (!budget) return 0; int c = x.choose(1 + 2 * ways); if (!c) return 0; budget--; int w = (c - 1) % ways + 1; if (c > ways) { sticky = true; sticky_way = w; } x.also(" %s fails%s%s;", call, w == 2 ? " halfway" : "", sticky ? " from then on" : ""); return w; }; }
    ~Faults() { mg::fault = nullptr; }
};
MC_BODY(faults, 12) {
    int op = x.choose(6), l = 1 + x.choose(2), inc = x.choose(2), old = x.choose(2); if (!x.mine()) return; static const char* OP[] = {"OutputToMongoDB", "OutputToMongoDB as DOUBLE", "ReadFromMongoDB", "OutputSubsetToMongoDB", "OutputSubsetToMongoDB combined", "ReadFromMongoDB of a subset"}; G g(2, 2, l, -9999), h = g; for (int i = 0; i < 3; i++) for (int k = 0; k < l; k++) { g.v[i * l + k] = 1 + i % 2 + 5 * k; h.v[i * l + k] = 31 + i + 5 * k; } G m(2, 2, 1, -9999); m.v[0] = m.v[1] = m.v[2] = 1; if (old && (op == 2 || op == 5)) return;
    x.note("%s, %d layers, %s no-data cells%s:", OP[op], l, inc ? "with" : "without", old ? ", over an older file" : ""); Db d; STRING_MAP o; if (op == 1) o[HEADER_RSOUT_DATATYPE] = "DOUBLE"; FR* r = from_data<float>(g); r->BuildSubSet(); FR* e = from_data<float>(h); FR* mask = from_data<float>(m); mask->SetCalcPositions(); string nm = op == 3 ? "1_r" : op == 4 ? "0_r" : "r"; STRING_MAP f = with(inc ? "TRUE" : "FALSE"); if (op == 1) f[HEADER_RSOUT_DATATYPE] = "DOUBLE";
    bool ok; int hits; if (old || op == 2) { FR* q = op == 2 ? r : e; if (op == 3) { q->BuildSubSet(); SubsetPositions* p = q->GetSubset().begin()->second; (void)p; } if (!q->OutputToMongoDB(d.g, op == 3 ? "1_r" : nm, o, inc)) x.fail("store", "storing without failures failed"); } if (op == 5 && !r->OutputSubsetToMongoDB(d.g, "r", o, inc, true, false)) x.fail("store", "storing without failures failed");
    size_t kept = files().size();
    if (op < 2 || op == 3 || op == 4) { { Faults q(x, x.thorough ? 3 : 2); x.step(); ok = op < 2 ? r->OutputToMongoDB(d.g, nm, o, inc) : r->OutputSubsetToMongoDB(d.g, "r", o, inc, true, op == 4); hits = mg::faults_hit; } x.outcome(OP[op] + std::to_string(ok)); if (!ok && !hits) x.fail("refused", "the operation failed although no call failed"); if (ok && op < 2 && files().size() != 1) x.fail("versions", "%zu files are stored", files().size());
        if (op != 3) { if (!files().empty()) { FR* b = fetch<float>(d, nm, f, false, inc ? nullptr : mask); if (!b) x.fail("read", "what is stored cannot be read"); else if (ok) same(x, "reported-stored", b, g); else if (b->GetValue(0, 0) != 1) same(x, "refused-stored", b, h); else same(x, "refused-stored", b, g); delete b; } else if (ok) x.fail("nothing", "nothing was stored"); }
        else if (ok) for (auto& kv : r->GetSubset()) { SubsetPositions* p = kv.second; string n = std::to_string(kv.first) + "_r"; if (old && kv.first == 1) { size_t c = 0; for (mg::File& q : files()) c += q.name == n; if (c < 1) x.fail("nothing", "%s is not stored", n.c_str()); if (c > 1) continue; } if (!p->ReadFromMongoDB(d.g, n, f)) { x.fail("nothing", "%s was not stored", n.c_str()); continue; } for (int i = 0; i < p->n_cells; i++) if ((l == 1 ? p->data_[i] : p->data2d_[i][0]) != kv.first) x.fail("reported-stored", "%s holds other values", n.c_str()); } }
    else if (op == 2) { FR* b; { Faults q(x, x.thorough ? 4 : 3); x.step(); b = fetch<float>(d, nm, f, false, inc ? nullptr : mask, true, NODATA_VALUE, 1); hits = mg::faults_hit; } x.outcome(OP[op] + std::to_string(b != nullptr)); if (!b && !hits) x.fail("refused", "reading failed although no call failed"); if (b) same(x, "fabricated", b, g); delete b; }
    else { SubsetPositions* p = r->GetSubset().at(1); { Faults q(x, x.thorough ? 4 : 3); x.step(); ok = p->ReadFromMongoDB(d.g, "1_r", f); hits = mg::faults_hit; } x.outcome(OP[op] + std::to_string(ok)); if (!ok && !hits) x.fail("refused", "reading failed although no call failed"); if (ok) for (int i = 0; i < p->n_cells; i++) if ((l == 1 ? p->data_[i] : p->data2d_[i][0]) != 1) x.fail("fabricated", "other data than stored"); }
    (void)kept; delete r; delete e; delete mask; d.end(x);
}
// unusable objects, repeated reading into one object, balance of memory
MC_BODY(misc, 8) {
    int op = x.choose(8), v = x.choose(6), w = x.choose(4); if (!x.mine()) return; x.note("case %d, %d, %d", op, v, w); x.outcome(std::to_string(op * 100 + v * 10 + w)); G a(2, 2, 1 + v % 2, -9999), b(v < 4 ? 2 : 1, 2, 1 + v / 2 % 2, -9999); for (size_t i = 0; i < a.v.size(); i++) if (i / a.l != 1) a.v[i] = 3 + i; for (size_t i = 0; i < b.v.size(); i++) b.v[i] = 20 + i; x.step();
    if (op == 0) { Db d; FR r; if (r.OutputToMongoDB(d.g, "x", STRING_MAP(), w & 1, !(w & 2)) || r.OutputSubsetToMongoDB(d.g, "x", STRING_MAP(), w & 1)) x.fail("uninitialised", "a raster without data was stored"); FR* q = from_data<float>(a); if (q->OutputToMongoDB(nullptr, "x")) x.fail("null", "stored nowhere"); q->BuildSubSet(); if (q->OutputSubsetToMongoDB(nullptr, "x") || q->OutputToMongoDB(nullptr, "x", STRING_MAP(), true, false)) x.fail("null", "stored nowhere"); delete q; q = from_data<float>(a); if (q->OutputSubsetToMongoDB(d.g, "x")) x.fail("no-subsets", "no subsets were stored"); if (!files().empty()) x.fail("stored", "files were stored"); delete q; d.end(x); return; }
    Db d; FR* ra = from_data<float>(a); FR* rb = from_data<float>(b); if (!ra->OutputToMongoDB(d.g, "a") || !rb->OutputToMongoDB(d.g, "b")) x.fail("store", "storing failed");
    G m(2, 2, 1, -9999); m.v[0] = m.v[1] = m.v[2] = 1; FR* mask = from_data<float>(m);
    if (op == 1) { FR* r = new FR(); bool c1 = w & 1, c2 = w & 2; if (!r->ReadFromMongoDB(d.g, "a", c1)) x.fail("read", "first reading failed"); bool k = r->ReadFromMongoDB(d.g, "b", c2); if (k) same(x, "second", r, b); if (!k && a.r == b.r && a.l == b.l && !c1) x.fail("read", "second reading of the same header failed"); delete r; }
    else if (op == 2) { FR* r = new FR(); if (!r->ReadFromMongoDB(d.g, "a", w & 1, mask, w & 2)) x.fail("read", "reading through the mask failed"); bool k = r->ReadFromMongoDB(d.g, "b", w & 1); if (k) same(x, "second", r, b); k = r->ReadFromMongoDB(d.g, "nothing"); if (k) x.fail("absent", "a file that does not exist was read"); delete r; }
    else if (op == 3) { string f = input_file(a.layer(0), 0, 0); FR* r = FR::Init(f, w & 1); if (!r) abort(); bool k = r->ReadFromMongoDB(d.g, "b", w & 2); if (k) same(x, "second", r, b); delete r; r = FR::Init(d.g, "b", w & 1); if (!r) x.fail("read", "reading failed"); else { if (!r->ReadFromFile(f)) x.fail("read", "reading a file after the store failed"); else same(x, "file", r, a.layer(0)); delete r; } }
    else if (op == 4) { FR* r = new FR(); STRDBL_MAP h; CopyHeader(ra->GetRasterHeader(), h); r->SetHeader(h); bool k = r->ReadFromMongoDB(d.g, w & 1 ? "b" : "a", w & 2); bool fit = !(w & 1) || (a.r == b.r && a.c == b.c && a.l == b.l); if (k != fit) x.fail("header", "reading into a preassigned header %s", k ? "succeeded" : "failed"); if (k) same(x, "preassigned", r, w & 1 ? b : a); delete r; }
    else if (op == 5) { for (int t = 0; t < 3; t++) { string n = "u" + std::to_string(t); STRING_MAP o; o["T"] = std::to_string(t); if (!ra->OutputToMongoDB(d.g, "u", o)) x.fail("store", "storing failed"); if (!rb->OutputToMongoDB(d.g, n)) x.fail("store", "storing failed"); } for (int t = 0; t < 3; t++) { STRING_MAP o; o["T"] = std::to_string(t); FR* r = fetch<float>(d, "u", o, false); if (!r) x.fail("version", "version %d is not found", t); else { same(x, "version", r, a); if (r->GetOption("T") != std::to_string(t)) x.fail("version", "version %s instead of %d", r->GetOption("T").c_str(), t); } delete r; r = fetch<float>(d, "u" + std::to_string(t), STRING_MAP(), w & 1); if (!r) x.fail("read", "reading failed"); else same(x, "other", r, b, nullptr); delete r; } if (files().size() != 8) x.fail("versions", "%zu files, expected 8", files().size()); }
    else if (op == 6) { DR* q = DR::Init(d.g, "a", w & 1); if (!q) x.fail("read", "reading as another type failed"); else { G e = a; if (w & 1) for (int i = 0; i < 4; i++) if (e.v[i * e.l] == e.nd) for (int k = 1; k < e.l; k++) e.v[i * e.l + k] = e.nd; same(x, "as-double", q, e); if (!q->OutputToMongoDB(d.g, "a2", STRING_MAP(), !(w & 2))) x.fail("store", "storing again failed"); } delete q; }
    else for (int round = 0; round < 3; round++) { size_t m0 = mc::live_blocks(); { FR* r = new FR(); r->ReadFromMongoDB(d.g, v < 3 ? "a" : v == 3 ? "none" : "b", w & 1, v == 1 || v == 5 ? mask : nullptr, w & 2); delete r; if (v == 2) { FR* q = from_data<float>(a); q->BuildSubSet(); vector<mg::File> keep = files(); q->OutputSubsetToMongoDB(d.g, "z", STRING_MAP(), w & 1, true, w & 2); for (mg::File& f : files()) if (f.name.find("_z") != string::npos && f.name[0] != '0') { q->GetSubset().begin()->second->ReadFromMongoDB(d.g, f.name); } delete q; files() = keep; } } size_t m1 = mc::live_blocks(); if (round == 2 && m1 > m0 + 2) x.fail("memory", "%zu memory blocks are kept", m1 - m0); }
    delete ra; delete rb; delete mask; d.end(x);
}
MC_BODY(whole_float, 24) { whole<float>(x, x.thorough ? 6 : 4, {-9999, 0, -FLT_MAX}); }
MC_BODY(whole_int, 16) { whole<int>(x, x.thorough ? 5 : 3, {-9999, INT32_MIN}); }
MC_BODY(whole_byte, 8) { whole<unsigned char>(x, x.thorough ? 5 : 3, {255, 0}); }
MC_BODY(whole_double, 8) { whole<double>(x, x.thorough ? 5 : 3, {-9999, -1.5e300}); }
MC_BODY(conv_float, 16) { convert<float>(x, {1, 200, -5, 255, 70000, 2.5, -3e9f, 5e9f, 1e30f, 65535, -128}, {-9999, 0, 255, -FLT_MAX, 0.5}); }
MC_BODY(conv_int, 16) { convert<int>(x, {1, 127, 128, 255, 256, -1, -128, -129, 65535, 65536, -32768, -32769, INT32_MAX, INT32_MIN, 100}, {-9999, 0, -1, 255, INT32_MIN}); }
MC_BODY(conv_double, 16) { convert<double>(x, {1, -5, 0.1, 3e9, 4294967295., 4294967296., 1e19, 2e19, -1e19, 1e300, 9007199254740993., FLT_MAX}, {-9999, -1e300, 0.1, 3e9}); }
MC_BODY(conv_byte, 4) { convert<unsigned char>(x, {1, 127, 128, 200, 254, 0}, {255, 0, 128}); }
MC_BODY(conv_short, 4) { convert<short>(x, {1, 127, 128, 255, -1, -32768, 32767}, {-9999, -1, 0}); }
MC_BODY(mask22, 24) { masked<float>(x, 2, 2, 2, 2); }
MC_BODY(mask23, 24) { masked<int>(x, 2, 3, 2, x.thorough ? 3 : 2); }
MC_BODY(mask13, 24) { masked<double>(x, 3, 1, 1, 3); }
MC_BODY(sub_int, 24) { subsets<int>(x, x.thorough ? 4 : 2); }
MC_BODY(sub_float, 24) { subsets<float>(x, x.thorough ? 3 : 1); }
// rasters beyond the size of a chunk or of any narrow counter
template <typename T> static void sizes(mc::X& x) {
    typedef clsRasterData<T> R; int z = x.choose(NSIZES), kind = x.choose(NKINDS); if (!x.mine()) return; int l = few_or_many(x), inc = x.choose(2), calc = x.choose(2), older = x.choose(2); if (l > 2 && z > (x.thorough ? 3 : 2)) return; if (!x.thorough && z >= 4 && (kind + l + inc + calc + older) % 2) return;
    G g = sized<T>(z, kind, l, sizeof(T) == 1 ? 255 : -9999); int n = g.r * g.c; vector<int> valid = g.valid(); bool compact = calc || !inc;
    x.note("%s, %d layers, stored %s no-data cells, %s%s", g.show().c_str(), l, inc ? "with" : "without", calc ? "compact" : "as it is", older ? ", over another" : ""); Db d; STRING_MAP o;
    if (older) { G h = g; for (double& v : h.v) if (v != g.nd) v = 5; R* q = from_data<T>(h); q->OutputToMongoDB(d.g, "r", o, inc); delete q; }
    R* r = from_data<T>(g); if (calc) r->SetCalcPositions(); x.step(3); if (!r->OutputToMongoDB(d.g, "r", o, inc)) x.fail("store", "storing failed"); delete r;
    int cells = inc ? n : (int)valid.size(); if (files().size() != 1) x.fail("overwrite", "%zu files of the same name", files().size()); else layout(x, "stored", files()[0], cells, l, own_type<T>());
    R* mask = nullptr; if (!inc) { G m(g.r, g.c, 1, g.nd, g.x, g.y, g.cs); for (int c : valid) m.v[c] = 5; mask = from_data<T>(m); }
    R* b = fetch<T>(d, "r", with(inc ? "TRUE" : "FALSE"), calc, mask, true, NODATA_VALUE, (z + kind) % 3); if (!b) x.fail("read", "reading failed"); else { same(x, "read-large", b, g, nullptr, compact ? 1 : 0); x.outcome(g.show()); }
    delete b; delete mask; d.end(x);
}
MC_BODY(sizes_float, 24) { sizes<float>(x); }
MC_BODY(sizes_byte, 24) { sizes<unsigned char>(x); }
MC_BODY(sizes_double, 24) { sizes<double>(x); }
