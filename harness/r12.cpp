// R12: subsets written one by one or combined, original, assigned or reclassified, hold exactly their cells' values
#include "rmask.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
typedef map<int, vector<int>> Zones; typedef map<ccgl::vint, vector<double>> Recls;
static const char* CONF[] = {"from data", "compact file", "copied", "subsets of the mask", "subsets of the mask, compact", "subsets of the mask, smallest extent", "subsets of the mask, smallest extent, compact", "values over the mask"};
static const char* MODE[] = {"original data", "data of subsets", "reclassified by zone", "reclassified by value", "reclassified by zone with data", "nothing to write"};
static Recls recls(int kind, int lyrs) { Recls m; int K[] = {1, 2, 3, 5, 7}; for (int i = 0; i < 5; i++) { if (kind == 1 && i % 2) continue; vector<double> v; for (int k = 0; k < lyrs; k++) v.push_back(40 + 10 * i + k); m[K[i]] = v; } return m; }
static bool read_one(const string& f, G& r) { struct stat st; if (stat(f.c_str(), &st)) return false; return f.substr(f.size() - 3) == "asc" ? asc_read(f, r) : tif_read(f, r); }
static bool file_is(mc::X& x, const string& key, const string& f, const G& w, int k) {
    G r; x.step(1 + w.r * w.c); if (!read_one(f, r)) { x.fail(key + "-file", "%s is missing or cannot be read", f.substr(f.rfind('/') + 1).c_str()); return false; }
    if (r.r != w.r || r.c != w.c || std::fabs(r.x - w.x) > 1e-6 || std::fabs(r.y - w.y) > 1e-6 || r.cs != w.cs) { x.fail(key + "-geometry", "%s is %dx%d@(%.9g,%.9g)/%g, expected %s", f.substr(f.rfind('/') + 1).c_str(), r.r, r.c, r.x, r.y, r.cs, w.show().c_str()); return false; }
    for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) { bool h = r.at(i, j) != r.nd, e = w.has(i, j, k); if (h != e || (h && r.at(i, j) != w.at(i, j, k))) { x.fail(key + "-value", "cell (%d,%d) layer %d of %s is %.9g (no-data %.9g), expected %.9g (no-data %.9g)", i, j, k + 1, f.substr(f.rfind('/') + 1).c_str(), r.at(i, j), r.nd, w.at(i, j, k), w.nd); return false; } }
    return true; }
static void expect(mc::X& x, const string& key, const string& dir, const string& ext, const map<int, G>& want) {      // exactly these files, named by subset and layer
    vector<string> names; for (auto& kv : want) for (int k = 0; k < kv.second.l; k++) names.push_back(std::to_string(kv.first) + "_res" + (kv.second.l > 1 ? "_" + std::to_string(k + 1) : string()) + ext);
    std::sort(names.begin(), names.end()); vector<string> have; for (auto& s : list_dir(dir)) if (s.find(ext) == s.size() - ext.size()) have.push_back(s);
    if (have != names) { string a, b; for (auto& s : have) a += s + " "; for (auto& s : names) b += s + " "; x.fail(key + "-files", "files %s- expected %s", a.c_str(), b.c_str()); return; }
    for (auto& kv : want) for (int k = 0; k < kv.second.l; k++) if (!file_is(x, key, dir + "/" + std::to_string(kv.first) + "_res" + (kv.second.l > 1 ? "_" + std::to_string(k + 1) : string()) + ext, kv.second, k)) return;
}
template <typename T> struct W { clsRasterData<T>* r; G g; Zones z; vector<clsRasterData<T>*> others; W(): r(0) {} ~W() { delete r; for (auto* o : others) delete o; } };
template <typename T> static bool make(mc::X& x, W<T>& w, int conf) {
    typedef clsRasterData<T> R; G& g = w.g; auto drop = [&]() { for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] == g.nd) for (int k = 1; k < g.l; k++) g.v[i * g.l + k] = g.nd; };
    if (!g.count()) return false;
    if (conf <= 2) { if (conf == 1) { vector<string> f; for (int k = 0; k < g.l; k++) f.push_back(input_file(g, k, 0)); w.r = g.l == 1 ? R::Init(f[0], true) : R::Init(f, true); } else w.r = from_data<T>(g); if (!w.r) { x.fail("create", "no raster was created"); return false; }
        drop(); if (!w.r->BuildSubSet()) { x.fail("create", "BuildSubSet failed"); return false; } if (conf == 2) { R* c = new R(w.r); delete w.r; w.r = c; } for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] != g.nd) w.z[(int)g.v[i * g.l]].push_back(i); return true; }
    // the zones are those of a mask: 1 2 1 / 2 2 1 ..., without the last cell when there are several
    G m(g.r, g.c, 1, g.nd, g.x, g.y, g.cs); int n = g.r * g.c; for (int i = 0; i < n; i++) if (n == 1 || i != n - 1) m.v[i] = 1 + (i % 3 == 1 || i % 5 == 3); R* mask = from_data<T>(m); w.others.push_back(mask); mask->BuildSubSet(); bool ext = conf < 5 || conf == 7, calc = conf == 4 || conf == 6;
    if (conf == 7) { vector<int> p = m.valid(); T** v = nullptr; Initialize2DArray((int)p.size(), g.l, v, (T)0); vector<T> v1; for (size_t i = 0; i < p.size(); i++) { for (int k = 0; k < g.l; k++) v[i][k] = (T)g.v[p[i] * g.l + k]; v1.push_back(v[i][0]); } w.r = g.l == 1 ? new R(mask, v1.data(), (int)p.size()) : new R(mask, v, (int)p.size(), g.l); Release2DArray(v); for (int i = 0; i < n; i++) if (!m.has(i / g.c, i % g.c)) for (int k = 0; k < g.l; k++) g.v[i * g.l + k] = g.nd;
        if (w.r->GetSubset().empty()) { w.r->BuildSubSet(); for (int i = 0; i < n; i++) if (g.v[i * g.l] != g.nd) w.z[(int)g.v[i * g.l]].push_back(i); return !w.z.empty(); } for (int i = 0; i < n; i++) if (m.v[i] != m.nd) w.z[(int)m.v[i]].push_back(i); return true; }
    if (g.l > 1) return false; Masked o = mask_ref(g, m, ext, calc, -9999); if (o.fail || !o.g.count()) return false; w.r = R::Init(input_file(g, 0, 0), calc, mask, ext); if (!w.r) { x.fail("create", "reading through the mask failed"); return false; }
    for (int c : o.kept) { int i = (c / o.g.c + o.r0) * g.c + c % o.g.c + o.c0; w.z[(int)m.v[i]].push_back(c); } g = o.g; return true;
}
static G boxed(const G& g, const vector<int>& cells, int lyrs, int& r0, int& c0) { int r1 = -1, c1 = -1; r0 = g.r; c0 = g.c; for (int c : cells) { r0 = std::min(r0, c / g.c); r1 = std::max(r1, c / g.c); c0 = std::min(c0, c % g.c); c1 = std::max(c1, c % g.c); } return G(r1 - r0 + 1, c1 - c0 + 1, lyrs, g.nd, g.x + c0 * g.cs, g.y + (g.r - 1 - r1) * g.cs, g.cs); }
static const int SHAPES[][2] = {{2,2},{1,3},{3,1},{1,1},{2,3},{3,2}};
template <typename T> static void out(mc::X& x, int nshape, int l, double nd) {
    int s = x.choose(nshape), conf = x.choose(8), mode = x.choose(6); bool comb = x.flag(); if (!x.mine()) return; int fmt = x.choose(x.thorough || s == 0 ? 2 : 1); G g(SHAPES[s][0], SHAPES[s][1], l, nd); int n = g.r * g.c;
    for (int i = 0; i < n; i++) { int c = n > (x.thorough ? 4 : 3) ? x.choose(3) : x.choose(4); if (c) g.v[i * l] = c; for (int k = 1; k < l; k++) g.v[i * l + k] = (i + k) % 3 == 0 ? nd : 1 + (i + k) % 3; }
    if (conf > 2 && conf < 7 && nd != -9999) return; W<T> w; w.g = g; string in = g.show(); x.note("%s: %s", in.c_str(), CONF[conf]); if (!make(x, w, conf)) return; g = w.g;
    int nz = (int)w.z.size(), off = x.choose(1 << nz); int dk = mode == 0 ? x.choose(2) : 1 + x.choose(2); double rd = nd; double param = NODATA_VALUE; if (dk == 1) { w.r->SetDefaultValue(8); rd = 8; } else if (dk == 2) { w.r->SetDefaultValue(nd); param = 9; rd = 9; } else { w.r->SetDefaultValue(nd); }
    vector<int> id; for (auto& kv : w.z) id.push_back(kv.first); std::set<int> unusable; for (int i = 0; i < nz; i++) if (off >> i & 1) { unusable.insert(id[i]); auto it = w.r->GetSubset().find(id[i]); if (it == w.r->GetSubset().end()) { x.fail("subset", "no subset %d", id[i]); return; } it->second->usable = false; }
    int rl = mode == 2 || mode == 4 ? 1 + (off & 1) : mode == 3 ? l : 0, rk = mode == 2 ? off % 2 : 0; Recls rc; if (rl) rc = recls(rk, rl);
    bool origin = mode == 0 || mode == 3; int dl = 0; std::set<int> nodata;       // subsets without data of their own
    if (mode == 1 || mode == 4) { dl = (conf + s + off) % 2 ? 1 : 2; int skip = mode == 4 ? -1 : x.choose(nz + 1) - 1; int c = 0; for (auto& kv : w.z) { SubsetPositions* p = w.r->GetSubset().at(kv.first); if (c++ == skip || p->n_cells != (int)kv.second.size()) { nodata.insert(kv.first); continue; } bool u = p->usable; if (dl == 1) { vector<double> d; for (size_t i = 0; i < kv.second.size(); i++) d.push_back(100 + 10 * kv.first + i); p->SetData((int)d.size(), d.data()); } else { double** d = nullptr; Initialize2DArray((int)kv.second.size(), 2, d, 0.); for (size_t i = 0; i < kv.second.size(); i++) for (int k = 0; k < 2; k++) d[i][k] = 100 + 10 * kv.first + i + 50 * k; p->Set2DData((int)kv.second.size(), 2, d); Release2DArray(d); } p->usable = u; } }
    if (mode == 4 && !nodata.empty()) return; if (comb && conf >= 3 && conf < 7) for (auto& kv : w.z) if (w.r->GetSubset().at(kv.first)->n_cells != (int)kv.second.size()) return;       // an inherited subset may keep its cells without data
    string ext = fmt ? ".tif" : ".asc", dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777);
    x.also("; %s, %s, %s, %zu of %d subsets unusable, default %g%s", MODE[mode], comb ? "combined" : "one by one", ext.c_str(), unusable.size(), nz, rd, dk == 2 ? " (given)" : ""); if (!nodata.empty()) x.also(", subset %d without data", *nodata.begin());
    x.step(); bool ok = comb && mode == 1 && !fmt && dk == 1 && off == 0 ? w.r->OutputToFile(dir + "/res" + ext, false) : w.r->OutputSubsetToFile(origin, comb, dir + "/res" + ext, rc, param); string key = comb ? "combined" : "single"; x.outcome(string(CONF[conf]) + MODE[mode] + g.show());
    // expected value of a cell of a subset
    auto value = [&](int zone, size_t i, int cell, int k) { if (mode == 0) return g.v[(size_t)cell * g.l + k]; if (mode == 1) return 100. + 10 * zone + i + 50 * k; int q = zone; if (mode == 3) q = (int)g.v[(size_t)cell * g.l + k]; auto it = rc.find(q); return it == rc.end() || k >= (int)it->second.size() ? rd : it->second[k]; };
    auto layers = [&](int zone) { if (origin) return g.l; if (mode == 1) return nodata.count(zone) ? -1 : dl; if (mode == 5) return -1; int own = w.r->GetSubset().at(zone)->n_lyrs; return own > 0 ? own : rl; };
    map<int, G> want; bool good = true;
    if (comb) { int lyrs = -1; for (int z : id) if (!unusable.count(z)) { int q = layers(z); if (q < 0 || (lyrs > 0 && q != lyrs)) good = false; lyrs = q; } if (origin) lyrs = g.l; else if (unusable.size() == id.size()) { lyrs = rl ? rl : -1; good = rl > 0; }
        if (good) { G h(g.r, g.c, lyrs, g.nd, g.x, g.y, g.cs); for (auto& kv : w.z) for (size_t i = 0; i < kv.second.size(); i++) for (int k = 0; k < lyrs; k++) h.v[(size_t)kv.second[i] * lyrs + k] = unusable.count(kv.first) ? rd : value(kv.first, i, kv.second[i], k); want[0] = h; } }
    else for (auto& kv : w.z) { if (unusable.count(kv.first)) continue; int lyrs = layers(kv.first); if (lyrs < 0) { good = false; continue; } int r0, c0; G h = boxed(g, kv.second, lyrs, r0, c0); for (size_t i = 0; i < kv.second.size(); i++) for (int k = 0; k < lyrs; k++) h.at(kv.second[i] / g.c - r0, kv.second[i] % g.c - c0, k) = value(kv.first, i, kv.second[i], k); want[kv.first] = h; }
    if (ok != good) { x.fail(key + "-status", "writing %s, expected %s", ok ? "succeeded" : "failed", good ? "success" : "failure"); return; }
    if (conf >= 3 && conf < 7 && !comb && good) for (auto& kv : want) { SubsetPositions* p = w.r->GetSubset().at(kv.first); if (p->n_cells != (int)w.z[kv.first].size()) { want.clear(); break; } }       // an inherited subset may keep its cells without data
    if (!good || (want.empty() && conf >= 3 && conf < 7)) return;
    expect(x, key, dir, ext, want);
}
// decomposed, written, read, assigned and combined again: the original
template <typename T> static void tripped(mc::X& x, const G& g, int fmt, int conf) { int l = g.l;
    x.note("round trip of %s as %s", g.show().c_str(), fmt ? "GeoTIFF" : "ASCII grid"); string ext = fmt ? ".tif" : ".asc", dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777);
    clsRasterData<T>* a = from_data<T>(g); if (conf) a->SetCalcPositions(); a->BuildSubSet(); x.step(); if (!a->OutputSubsetToFile(true, false, dir + "/res" + ext)) { x.fail("round-trip", "writing the subsets failed"); delete a; return; }
    clsRasterData<T>* b = from_data<T>(g); b->BuildSubSet(); bool ok = true;
    for (auto& kv : b->GetSubset()) { SubsetPositions* p = kv.second; vector<string> f; for (int k = 0; k < l; k++) f.push_back(dir + "/" + std::to_string(kv.first) + "_res" + (l > 1 ? "_" + std::to_string(k + 1) : string()) + ext); clsRasterData<T>* q = l == 1 ? clsRasterData<T>::Init(f[0]) : clsRasterData<T>::Init(f); if (!q) { x.fail("round-trip", "subset %d cannot be read", kv.first); ok = false; break; } x.step();
        double** d = nullptr; Initialize2DArray(p->n_cells, l, d, 0.); vector<double> d1; for (int i = 0; i < p->n_cells; i++) { for (int k = 0; k < l; k++) d[i][k] = (double)q->GetValue(p->local_pos_[i][0], p->local_pos_[i][1], k + 1); d1.push_back(d[i][0]); } if (!(l == 1 ? p->SetData(p->n_cells, d1.data()) : p->Set2DData(p->n_cells, l, d))) { x.fail("round-trip", "data of subset %d were refused", kv.first); ok = false; } Release2DArray(d); delete q; }
    mc::clean_dir(dir); x.step(); if (ok && !b->OutputSubsetToFile(false, true, dir + "/res" + ext)) { x.fail("round-trip", "combining failed"); ok = false; }
    if (ok) { map<int, G> w; w[0] = g; expect(x, "round-trip", dir, ext, w); x.outcome(g.show()); }
    delete a; delete b;
}
template <typename T> static void round_trip(mc::X& x, int nshape, int l) {
    static const int S[][2] = {{2,2},{2,3},{3,2},{3,3},{1,4}}; int s = x.choose(nshape), fmt = x.choose(2), conf = x.choose(2); if (!x.mine()) return; G g(S[s][0], S[s][1], l, -9999); int n = g.r * g.c; for (int i = 0; i < n; i++) { int c = x.choose(n > 6 ? 2 + (i % 3 == 0) : 3); if (c || n > 6) g.v[i * l] = c + (n > 6); for (int k = 1; k < l; k++) if (g.v[i * l] != g.nd) g.v[i * l + k] = (i + k) % 4 ? 5 + i * k : g.nd; } if (!g.count()) return;
    tripped<T>(x, g, fmt, conf);
}
// zones of any size and sign
template <typename T> static void trip_zones(mc::X& x) {
    static const double ID[] = {-70000, -257, -1, 0, 3, 127, 254, 256, 32768, 65536, 123456, 16777216}; typedef std::numeric_limits<T> L; int a = x.choose(12), b = x.choose(12), fmt = x.choose(2); if (!x.mine()) return; if (a >= b || ID[a] < (double)L::lowest() || ID[b] > (double)L::max() || (!L::is_integer && !fmt && (ID[b] > 999999))) return;
    G g(2, 2, 1 + a % 2, sizeof(T) == 1 ? 255 : -9999); int p = x.choose(81); if (p == 0) return; for (int i = 0; i < 4; i++) { int c = p % 3; p /= 3; if (c) g.v[i * g.l] = c == 1 ? ID[a] : ID[b]; if (c && g.l > 1) g.v[i * 2 + 1] = 30 + i; } tripped<T>(x, g, fmt, b % 2); }
MC_BODY(zones_int, 16) { trip_zones<int>(x); }
MC_BODY(zones_double, 16) { trip_zones<double>(x); }
MC_BODY(zones_byte, 8) { trip_zones<unsigned char>(x); }
MC_BODY(ints, 48) { out<int>(x, x.thorough ? 6 : 4, 1, -9999); }
MC_BODY(floats, 24) { out<float>(x, x.thorough ? 5 : 2, 1, -9999); }
MC_BODY(bytes, 24) { out<unsigned char>(x, x.thorough ? 4 : 2, 1, 255); }
MC_BODY(layers, 24) { out<double>(x, x.thorough ? 5 : 2, 2, -9999); }
MC_BODY(trip_int, 16) { round_trip<int>(x, x.thorough ? 4 : 3, 1); }
MC_BODY(trip_layers, 16) { round_trip<float>(x, x.thorough ? 3 : 1, 2); }
// data assigned to subsets: any history of one- and several-layer data and refused data, also over data inherited from a mask
static G zones6() { G g(2, 3, 1, -9999); g.v = {1, 1, 2, -9999, 2, 2}; return g; }
static const char* AK[] = {"one layer", "two layers", "a two-dimensional raster of one layer", "compact", "through a mask with subsets", "two layers over a mask", "three layers through a mask with subsets"};
struct Own { int l; int tag; bool inherited; Own(): l(0), tag(0), inherited(false) {} };
static double own_value(const Own& o, int zone, size_t i, int k) { return 100 * o.tag + 10 * zone + (int)i + 1000 * k; }
template <typename T> static bool assign(SubsetPositions* p, int zone, Own& o, int tag, int op) {      // op: 0 SetData, 1..3 Set2DData of so many layers
    Own n; n.l = op ? op : 1; n.tag = tag; bool ok; int N = p->n_cells;
    if (op == 0) { vector<T> d; for (int i = 0; i < N; i++) d.push_back((T)own_value(n, zone, i, 0)); ok = p->SetData(N, d.data()); }
    else { T** d = nullptr; Initialize2DArray(N, op, d, (T)0); for (int i = 0; i < N; i++) for (int k = 0; k < op; k++) d[i][k] = (T)own_value(n, zone, i, k); ok = p->Set2DData(N, op, d); Release2DArray(d); }
    if (ok) o = n; return ok; }
MC_BODY(assigned, 32) {
    typedef clsRasterData<float> R; int kind = x.choose(7), inh = kind == 4 || kind == 6 ? x.choose(4) : 0, n = x.range(0, x.thorough ? 4 : 3); if (!x.mine()) return;
    static const char* ON[] = {"one-dimensional", "1 layer", "2 layers", "3 layers", "wrong number", "nothing", "wrong number in 2 layers", "no layers"};
    x.note("subsets of %s%s", AK[kind], inh == 1 ? ", whose subsets have data" : inh > 1 ? ", whose subsets have data in layers" : ""); G g = zones6(), m = g; R *mask = nullptr, *r = nullptr; Zones z; z[1] = {0, 1}; z[2] = {2, 4, 5}; map<int, Own> own;
    if (kind == 1) { g = G(2, 3, 2, -9999); for (int i = 0; i < 6; i++) { g.v[2 * i] = m.v[i]; g.v[2 * i + 1] = i == 3 ? -9999 : 20 + i; } }
    if (kind > 3) { mask = from_data<float>(m); mask->BuildSubSet(); if (inh) for (auto& kv : z) { Own o; assign<double>(mask->GetSubset().at(kv.first), kv.first, o, 9, inh == 1 ? 0 : inh); own[kv.first].inherited = true; } g = G(2, 3, kind == 6 ? 3 : kind == 5 ? 2 : 1, -9999); for (int i = 0; i < 6; i++) for (int k = 0; k < g.l; k++) g.v[i * g.l + k] = i == 3 ? -9999 : kind == 5 && !k ? m.v[i] : 30 + i + 10 * k; }
    if (kind == 2) { float** d = nullptr; Initialize2DArray(6, 1, d, 0.f); for (int i = 0; i < 6; i++) d[i][0] = (float)g.v[i]; r = new R(d, 3, 2, 1, -9999.f, g.cs, g.x, g.y); }       // (the raster takes the array)
    else if (kind == 4) r = R::Init(input_file(g, 0, 0), true, mask, true);
    else if (kind == 6) { vector<string> f; for (int k = 0; k < 3; k++) f.push_back(input_file(g, k, 0)); r = R::Init(f, true, mask, true); }
    else if (kind == 5) { vector<int> p = m.valid(); float** d = nullptr; Initialize2DArray((int)p.size(), 2, d, 0.f); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 2; k++) d[i][k] = (float)g.v[p[i] * 2 + k]; r = new R(mask, d, (int)p.size(), 2); Release2DArray(d); }
    else r = from_data<float>(g);
    if (!r) { x.fail("create", "no raster was created"); delete mask; return; } if (kind == 3) r->SetCalcPositions(); if (kind != 4 && kind != 6 && !r->BuildSubSet()) { x.fail("create", "BuildSubSet failed"); delete r; return; }
    if (r->GetSubset().size() != 2) { x.fail("create", "%zu subsets", r->GetSubset().size()); delete r; delete mask; return; }
    for (int t = 0; t < n; t++) { bool eff = x.thorough ? t > 1 : t > 0; int o = x.choose(eff ? 8 : 16), s = 1 + o % 2, op = o / 2; SubsetPositions* p = r->GetSubset().at(s); Own& w = own[s]; x.also("; data of %d: %s", s, ON[op]); p->usable = false; x.step(); bool ok; int N = p->n_cells;
        if (op < 4) { ok = t % 2 ? assign<float>(p, s, w, t + 1, op) : assign<int>(p, s, w, t + 1, op); if (!ok || !p->usable) { x.fail("assign", "%s", ok ? "the subset is not usable" : "refused"); break; } }
        else { double v[8] = {0}; double* q[8]; for (auto& e : q) e = v; double *none = nullptr, **none2 = nullptr; ok = op == 4 ? p->SetData(t % 2 ? N + 1 : N - 1, v) : op == 5 ? p->SetData(N, none) : op == 6 ? p->Set2DData(t % 2 ? N - 1 : N + 1, 2, q) : p->Set2DData(N, 2, none2); if (ok || p->usable) { x.fail("refuse", "%s", ok ? "accepted" : "the subset became usable"); break; } } }
    for (auto& kv : z) { SubsetPositions* p = r->GetSubset().at(kv.first); Own& o = own[kv.first]; p->usable = true; vector<float*> f; p->Output(-1.f, f); x.step(); int nr = p->g_erow - p->g_srow + 1, nc = p->g_ecol - p->g_scol + 1;
        if (!o.inherited || o.l) { if ((int)f.size() != o.l) x.fail("subset-output", "%zu layers of subset %d, expected %d", f.size(), kv.first, o.l); else for (int k = 0; k < o.l; k++) { vector<double> w(nr * nc, -1); for (size_t i = 0; i < kv.second.size(); i++) w[(kv.second[i] / 3 - p->g_srow) * nc + kv.second[i] % 3 - p->g_scol] = own_value(o, kv.first, i, k); for (int i = 0; i < nr * nc; i++) if (f[k][i] != w[i]) { x.fail("subset-output", "cell %d layer %d of subset %d is %g, expected %g", i, k + 1, kv.first, f[k][i], w[i]); break; } } }
        else if (f.size()) for (size_t k = 0; k < f.size(); k++) for (int i = 0; i < nr * nc; i++) x.step(f[k][i] != f[k][i]);
        for (auto* q : f) delete[] q; }
    bool judge = true; for (auto& kv : own) if (kv.second.inherited && !kv.second.l) judge = false;
    string dir = x.scratch + "/out"; Recls none; int how = x.choose(4); bool comb = how & 1, origin = how & 2; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); x.also("; %s %s", origin ? "original" : "own", comb ? "combined" : "one by one"); x.step();
    bool ok = r->OutputSubsetToFile(origin, comb, dir + "/res.asc", none, NODATA_VALUE), good = true; map<int, G> want; int all = -1;
    if (origin) judge = true; for (auto& kv : z) { int l = origin ? g.l : own[kv.first].l; if (l == 0 || (comb && all >= 0 && all != l)) good = false; all = l; }
    if (good && comb) { G h(2, 3, all, -9999, g.x, g.y, g.cs); for (auto& kv : z) for (size_t i = 0; i < kv.second.size(); i++) for (int k = 0; k < all; k++) h.v[kv.second[i] * all + k] = origin ? g.v[kv.second[i] * g.l + k] : own_value(own[kv.first], kv.first, i, k); want[0] = h; }
    else if (!comb) for (auto& kv : z) { int l = origin ? g.l : own[kv.first].l, r0, c0; if (!l) continue; G h = boxed(g, kv.second, l, r0, c0); for (size_t i = 0; i < kv.second.size(); i++) for (int k = 0; k < l; k++) h.at(kv.second[i] / 3 - r0, kv.second[i] % 3 - c0, k) = origin ? g.v[kv.second[i] * g.l + k] : own_value(own[kv.first], kv.first, i, k); want[kv.first] = h; }
    if (judge) { if (ok != good) x.fail("assigned-status", "writing %s, expected %s", ok ? "succeeded" : "failed", good ? "success" : "failure"); else if (good) expect(x, "assigned", dir, ".asc", want); }
    x.outcome((uint64_t)(kind * 64 + own[1].l * 8 + own[2].l)); delete r; delete mask;
}
// rasters and numbers of zones beyond the sizes of blocks and narrow counters
template <typename T> static void sizes(mc::X& x) { int sz = x.choose(NSIZES), kind = x.choose(NKINDS), l = few_or_many(x), z = x.choose(3), fmt = x.choose(2), conf = x.choose(2); if (!x.mine()) return; if (l > 2 && sz > (x.thorough ? 3 : 2)) return; static const int NZ[] = {1, 3, 50}; if (!x.thorough && (kind + z + fmt + conf) % (sz >= 4 ? 12 : 3)) return; if (z == 2 && sz >= 4) return;
    G g = sized<T>(sz, kind, l, -9999, NZ[z]); tripped<T>(x, g, fmt, conf); }
MC_BODY(sizes_int, 32) { sizes<int>(x); }
MC_BODY(sizes_float, 32) { sizes<float>(x); }
