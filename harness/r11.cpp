// R11: decomposition into subsets by zone
#include "rmask.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const char* CONF[] = {"plain", "positions", "file", "compact file", "values over a mask", "file through a mask", "compact file through a mask", "copied", "positions of the mask"};
typedef map<int, vector<int>> Zones;      // group -> cells in row-major order
static Zones zones(const G& g, const vector<int>& stored, const map<int, int>& groups) { Zones z; for (int c : stored) { double v = g.v[(size_t)c * g.l]; if (v == g.nd) continue; int k = (int)v; auto it = groups.find(k); z[it == groups.end() ? k : it->second].push_back(c); } return z; }
template <typename R> static void judge(mc::X& x, const string& key, R* r, const G& g, const vector<int>* list, const Zones& want) {
    auto& sub = r->GetSubset(); x.step(); if (sub.size() != want.size()) { x.fail(key + "-zones", "%zu subsets, expected %zu", sub.size(), want.size()); return; }
    for (auto& kv : want) { auto it = sub.find(kv.first); if (it == sub.end()) { x.fail(key + "-zones", "no subset for zone %d", kv.first); return; } SubsetPositions* p = it->second; const vector<int>& w = kv.second; x.step(8 + 5 * w.size());
        int r0 = g.r, r1 = -1, c0 = g.c, c1 = -1; for (int c : w) { r0 = std::min(r0, c / g.c); r1 = std::max(r1, c / g.c); c0 = std::min(c0, c % g.c); c1 = std::max(c1, c % g.c); }
        if (p->n_cells != (int)w.size()) { x.fail(key + "-count", "zone %d has %d cells, expected %zu", kv.first, p->n_cells, w.size()); return; }
        if (p->g_srow != r0 || p->g_erow != r1 || p->g_scol != c0 || p->g_ecol != c1) { x.fail(key + "-bounds", "zone %d spans rows %d..%d columns %d..%d, expected %d..%d, %d..%d", kv.first, p->g_srow, p->g_erow, p->g_scol, p->g_ecol, r0, r1, c0, c1); return; }
        if (!p->usable) { x.fail(key + "-usable", "zone %d is not usable", kv.first); return; }
        for (size_t i = 0; i < w.size(); i++) { int q = p->global_[i]; int cell = list ? (q >= 0 && q < (int)list->size() ? (*list)[q] : -1) : q; int lr = w[i] / g.c - r0, lc = w[i] % g.c - c0;
            if (cell != w[i]) { x.fail(key + "-cells", "cell %zu of zone %d is %d, expected %d", i, kv.first, cell, w[i]); return; }
            if (p->local_pos_[i][0] != lr || p->local_pos_[i][1] != lc || p->local_posidx_[i] != lr * (c1 - c0 + 1) + lc) { x.fail(key + "-local", "cell %zu of zone %d is at (%d,%d), index %d in the subset, expected (%d,%d), %d", i, kv.first, p->local_pos_[i][0], p->local_pos_[i][1], p->local_posidx_[i], lr, lc, lr * (c1 - c0 + 1) + lc); return; } }
        STRDBL_MAP h; p->GetHeader(g.x, g.y, g.r, g.cs, g.nd, h); double hx = g.x + c0 * g.cs, hy = g.y + (g.r - 1 - r1) * g.cs;
        if (h.at(HEADER_RS_NROWS) != r1 - r0 + 1 || h.at(HEADER_RS_NCOLS) != c1 - c0 + 1 || h.at(HEADER_RS_XLL) != hx || h.at(HEADER_RS_YLL) != hy || h.at(HEADER_RS_CELLSIZE) != g.cs || h.at(HEADER_RS_NODATA) != g.nd) { x.fail(key + "-header", "header of zone %d: %gx%g at (%g,%g)/%g no-data %g, expected %dx%d at (%g,%g)/%g", kv.first, h.at(HEADER_RS_NROWS), h.at(HEADER_RS_NCOLS), h.at(HEADER_RS_XLL), h.at(HEADER_RS_YLL), h.at(HEADER_RS_CELLSIZE), h.at(HEADER_RS_NODATA), r1 - r0 + 1, c1 - c0 + 1, hx, hy, g.cs); return; } }
}
static const int SHAPES[][2] = {{1,1},{1,2},{2,1},{2,2},{1,4},{4,1},{2,3},{3,2},{3,3},{1,6}};
static map<int, int> groups_of(int i) { map<int, int> m; if (i == 1) { m[1] = 7; m[2] = 7; } else if (i == 2) { m[1] = 2; } else if (i == 3) { m[1] = 3; m[2] = 1; m[3] = 2; } else if (i == 4) { m[9] = 1; m[2] = -5; } return m; }
static const char* GN[] = {"", " in groups 1:7 2:7", " in groups 1:2", " in groups 1:3 2:1 3:2", " in groups 9:1 2:-5"};
template <typename T> struct Obj { clsRasterData<T>* r; G g; vector<int> list; bool P; vector<clsRasterData<T>*> others; Obj(): r(0), P(false) {} ~Obj() { delete r; for (auto* o : others) delete o; }
    void compact() { if (P) return; P = true; list = g.valid(); for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] == g.nd) for (int k = 1; k < g.l; k++) g.v[i * g.l + k] = g.nd; } vector<int> stored() const { if (P) return list; vector<int> a; for (int i = 0; i < g.r * g.c; i++) a.push_back(i); return a; } };
template <typename T> static bool make(mc::X& x, Obj<T>& o, int conf) {
    typedef clsRasterData<T> R; G& g = o.g; vector<string> f; if (conf == 2 || conf == 3 || conf == 5 || conf == 6) for (int k = 0; k < g.l; k++) f.push_back(input_file(g, k, 0));
    auto drop = [&]() { for (int i = 0; i < g.r * g.c; i++) if (g.v[i * g.l] == g.nd) for (int k = 1; k < g.l; k++) g.v[i * g.l + k] = g.nd; };
    if (conf <= 1 || conf == 7) { o.r = from_data<T>(g); if (conf == 1) { o.r->SetCalcPositions(); o.compact(); } if (conf == 7) { R* s = o.r; o.r = new R(s); delete s; } }
    else if (conf <= 3) { o.r = g.l == 1 ? R::Init(f[0], conf == 3) : R::Init(f, conf == 3); drop(); if (conf == 3) o.compact(); }
    else if (conf == 4 || conf == 8) { G m = g.layer(0); for (int i = 0; i < m.r * m.c; i++) m.v[i] = conf == 8 && i % 2 == 0 ? 4 : m.v[i] == m.nd ? m.nd : 5; R* mask = from_data<T>(m); o.others.push_back(mask); vector<int> p = m.valid(); drop(); T** v = nullptr; Initialize2DArray((int)p.size(), g.l, v, (T)0); vector<T> v1; for (size_t i = 0; i < p.size(); i++) { for (int k = 0; k < g.l; k++) v[i][k] = (T)g.v[p[i] * g.l + k]; v1.push_back(v[i][0]); }
        o.r = g.l == 1 ? new R(mask, v1.data(), (int)p.size()) : new R(mask, v, (int)p.size(), g.l); Release2DArray(v); o.P = true; o.list = p; }
    else { G m(g.r, g.c, 1, g.nd, g.x, g.y, g.cs); for (int i = 0; i < g.r * g.c; i++) if (i != 1) m.v[i] = 1; if (g.r * g.c > 1) for (int k = 0; k < g.l; k++) g.v[g.l + k] = g.nd; if (!g.count()) return false; R* mask = from_data<T>(m); o.others.push_back(mask); o.r = g.l == 1 ? R::Init(f[0], conf == 6, mask, true) : R::Init(f, conf == 6, mask, true); if (!o.r) { x.fail("create", "reading through the mask failed"); return false; } o.P = o.r->PositionsCalculated(); bool all = o.r->GetCellNumber() == m.count(); o.list = all ? m.valid() : g.valid(); if (!all || !o.P) drop(); }
    if (!o.r) { x.fail("create", "no raster was created"); return false; }
    return true;
}
template <typename T> static void patterns(mc::X& x, int nshape, int nz, int l, double nd, int confs) {
    int s = x.choose(nshape); G g(SHAPES[s][0], SHAPES[s][1], l, nd); int n = g.r * g.c, conf = x.choose(confs), gr = x.choose(5); if (n > 6 && conf > 1) return; if (!x.mine()) return; int z = n > 6 ? 2 : nz; if (n > 4 && gr > 1 && conf && !x.thorough) return;
    static const double Z[] = {1, 2, 3}; for (int i = 0; i < n; i++) { int c = x.choose(z + 1); if (c < z) g.v[i * l] = (T)(Z[c] + (std::numeric_limits<T>::is_integer ? 0 : 0.25 * (i % 4))); for (int k = 1; k < l; k++) g.v[i * l + k] = 30 + i; }
    bool need = conf == 1 || conf == 3 || conf == 4 || conf >= 5; if (!g.count() && (need || g.r * g.c == 0)) return; if (!g.count() && conf == 2 && l > 1) return;
    Obj<T> o; o.g = g; x.note("%s %s%s", CONF[conf], g.show().c_str(), GN[gr]); if (!make(x, o, conf)) return; x.outcome(g.show());
    bool empty = !o.g.count(); bool ok = o.r->BuildSubSet(groups_of(gr)); if (!ok && !empty) { x.fail("build", "BuildSubSet failed"); return; }
    if (empty) { MC_EQ(x, "build-empty", o.r->GetSubset().size(), (size_t)0); return; }
    o.compact(); judge(x, "build", o.r, o.g, &o.list, zones(o.g, o.list, groups_of(gr))); if (x.nviol == 0) same(x, string("values"), o.r, o.g, &o.list, 1);
    if (x.nviol == 0) { int again = (gr + 1) % 5; MC_TRUE(x, "rebuild", o.r->RebuildSubSet(groups_of(again))); judge(x, "rebuild", o.r, o.g, &o.list, zones(o.g, o.list, groups_of(again))); }
}
// sequences of building, rebuilding and releasing, with changes in between
enum { OPS = 14 };
template <typename T> static void history(mc::X& x, int l, int depth) {
    static const int A[4][6] = {{1, 1, 2, 1, -1, 2}, {-1, 1, 3, 2, 2, 1}, {2, -1, -1, 1, 3, 3}, {1, -1, 1, -1, 1, -1}}; int conf = x.choose(9), w = x.choose(4), len = x.range(1, depth), o0 = x.choose(OPS); if (!x.mine()) return;
    Obj<T> o; o.g = G(2, 3, l, -9999); for (int i = 0; i < 6; i++) for (int k = 0; k < l; k++) { int a = A[(w + k) % 4][(i + k) % 6]; o.g.v[i * l + k] = a < 0 ? -9999 : a; } x.note("%s %s", CONF[conf], o.g.show().c_str()); if (!make(x, o, conf)) return; Zones cur;
    for (int t = 0; t < len && x.nviol == 0; t++) { int op = t ? x.choose(OPS) : o0; x.step();
        if (op <= 4) { if (!o.P && !o.g.count()) return; x.also("; BuildSubSet%s", GN[op]); if (!o.r->BuildSubSet(groups_of(op))) x.fail("build", "BuildSubSet failed"); o.compact(); if (cur.empty()) cur = zones(o.g, o.list, groups_of(op)); }
        else if (op <= 8) { int q = op == 8 ? 4 : op - 5; if (!o.P && !o.g.count()) return; x.also("; RebuildSubSet%s", GN[q]); if (!o.r->RebuildSubSet(groups_of(q))) x.fail("rebuild", "RebuildSubSet failed"); o.compact(); cur = zones(o.g, o.list, groups_of(q)); }
        else if (op == 9) { x.also("; ReleaseSubset"); if (!o.r->ReleaseSubset()) x.fail("release", "ReleaseSubset failed"); cur.clear(); }
        else if (op == 10 || op == 11) { vector<int> st = o.stored(); int c = op == 10 ? st.front() : st.back(), v = op == 10 ? 3 : -9999; x.also("; cell %d := %d", c, v); o.r->SetValue(c / 3, c % 3, (T)v); o.g.v[c * l] = v; if (o.g.l > 1 && !o.P) o.g = o.g; }
        else if (op == 12) { x.also("; copied"); clsRasterData<T>* n = new clsRasterData<T>(o.r); delete o.r; o.r = n; }
        else { if (o.P || !o.g.count()) return; x.also("; positions"); o.r->SetCalcPositions(); o.compact(); }
        vector<int> st = o.stored(); judge(x, "history", o.r, o.g, &st, cur); }
    if (x.nviol == 0) same(x, string("values"), o.r, o.g, o.P ? &o.list : nullptr, o.P);
}
MC_BODY(ints, 32) { patterns<int>(x, x.thorough ? 10 : 9, 3, 1, -9999, 9); }
MC_BODY(floats, 16) { patterns<float>(x, 8, 2, 1, -9999, 8); }
MC_BODY(bytes, 8) { patterns<unsigned char>(x, 7, 2, 1, 255, 4); }
MC_BODY(layers, 16) { patterns<double>(x, 7, 2, 2, -9999, 8); }
MC_BODY(history1, 16) { history<int>(x, 1, x.thorough ? 4 : 3); }
MC_BODY(history2, 16) { history<float>(x, 2, x.thorough ? 4 : 3); }
// zones of any size and sign
template <typename T> static void ids(mc::X& x) {
    static const double ID[] = {-2147483647, -70000, -257, -1, 0, 3, 127, 128, 254, 256, 32768, 65536, 65539, 16777216, 2147483646}; typedef std::numeric_limits<T> L; int a = x.choose(15), b = x.choose(15), conf = x.choose(9), gr = x.choose(3); if (!x.mine()) return; if (a >= b || ID[a] < (double)L::lowest() || ID[b] > (double)L::max() || (T)ID[b] != ID[b] || (T)ID[a] != ID[a]) return;
    if (sizeof(T) == 4 && !L::is_integer && (ID[a] != (double)(float)ID[a] || ID[b] != (double)(float)ID[b])) return; int q = x.choose(3), A = (int)ID[a], B = (int)ID[b]; double nd = q == 0 ? (sizeof(T) == 1 ? 255 : -9999) : q == 1 ? 0 : 2; if (!x.thorough && (a + b + conf + gr + q) % 4) return; if (nd == A || nd == B) return;
    G g(2, 2, 1 + conf % 2, nd); for (int i = 0; i < 4; i++) { int c = x.choose(3); if (c) g.v[i * g.l] = c == 1 ? ID[a] : ID[b]; if (g.l > 1) g.v[i * 2 + 1] = 30 + i; } if (!g.count()) return; map<int, int> m; if (gr == 1) m[A] = B; else if (gr == 2) { m[A] = -3; m[B] = 65536; }
    Obj<T> o; o.g = g; x.note("%s %s in groups %d", CONF[conf], g.show().c_str(), gr); if (!make(x, o, conf)) return; x.outcome(g.show()); if (!o.g.count()) return; if (!o.r->BuildSubSet(m)) { x.fail("build", "BuildSubSet failed"); return; } o.compact(); judge(x, "build", o.r, o.g, &o.list, zones(o.g, o.list, m)); if (x.nviol == 0) same(x, string("values"), o.r, o.g, &o.list, 1); }
MC_BODY(ids_int, 16) { ids<int>(x); }
MC_BODY(ids_double, 16) { ids<double>(x); }
MC_BODY(ids_float, 16) { ids<float>(x); }
MC_BODY(ids_byte, 8) { ids<unsigned char>(x); }
MC_BODY(ids_short, 8) { ids<short>(x); }
// rasters and numbers of zones beyond the sizes of blocks and narrow counters
template <typename T> static void sizes(mc::X& x, double nd) { int sz = x.choose(NSIZES), kind = x.choose(NKINDS), l = few_or_many(x), conf = x.choose(9), z = x.choose(4), gr = x.choose(2) * 3; if (!x.mine()) return; if (l > 2 && sz > (x.thorough ? 3 : 2)) return; static const int NZ[] = {1, 3, 70, 1500}; if (!x.thorough && (kind + conf + z + gr / 3) % (sz >= 4 ? 24 : 6)) return;
    Obj<T> o; o.g = sized<T>(sz, kind, l, nd, NZ[z]); x.note("%s %s%s", CONF[conf], o.g.show().c_str(), GN[gr]); if (!make(x, o, conf)) return; x.outcome(o.g.show()); bool ok = o.r->BuildSubSet(groups_of(gr)); if (!ok) { x.fail("build", "BuildSubSet failed"); return; } o.compact(); judge(x, "build", o.r, o.g, &o.list, zones(o.g, o.list, groups_of(gr))); if (x.nviol == 0) same(x, string("values"), o.r, o.g, &o.list, 1); if (x.nviol == 0) { MC_TRUE(x, "rebuild", o.r->RebuildSubSet(groups_of(3 - gr))); judge(x, "rebuild", o.r, o.g, &o.list, zones(o.g, o.list, groups_of(3 - gr))); } }
MC_BODY(sizes_int, 32) { sizes<int>(x, -9999); }
MC_BODY(sizes_float, 32) { sizes<float>(x, -9999); }
MC_BODY(sizes_byte, 32) { sizes<unsigned char>(x, 255); }
