// R10: rasters, masks, copies and subsets keep their own data whatever the order of changes and releases
#include "rmask.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
enum { MAXS = 3 };
struct Slot { IR* r; G g; vector<int> list; bool P; int mask; /* slot of the mask object, -1 none or its own */ bool borrows; int subsets; /* 0 none, 1 by value, 2 grouped, 3 unknown */ vector<int> zone; bool mrel; /* was read through a mask now gone */
    Slot(): r(nullptr), P(false), mask(-1), borrows(false), subsets(0), mrel(false) {} };
struct World { Slot s[MAXS]; ~World() { for (int j = MAXS; j--;) delete s[j].r; } };
static G g1() { G g(2, 2, 1, -9999); g.v = {1, -9999, 2, 3}; return g; }
static G g2() { G g(2, 2, 2, -9999); g.v = {4, 5, 6, -9999, -9999, 7, 8, 9}; return g; }
static G gf() { G g(2, 3, 1, -9999); g.v = {1, 2, -9999, 1, -9999, 2}; return g; }
static G gm() { G g(3, 3, 1, -9999, 2, 1); g.v = {3, 3, -9999, 3, -9999, 5, 5, 5, 5}; return g; }
static const char* FN[4];
static void compact(Slot& a) { if (a.P) return; a.P = true; a.list = a.g.valid(); std::set<int> k(a.list.begin(), a.list.end()); for (int i = 0; i < a.g.r * a.g.c; i++) if (!k.count(i)) for (int q = 0; q < a.g.l; q++) a.g.v[i * a.g.l + q] = a.g.nd; }
static bool lent(World& w, int j) { for (Slot& a : w.s) if (a.r && a.borrows && a.mask == j) return true; return false; }      // positions of j are in use
static bool clean_mask(Slot& m) { if (!m.P) return m.g.count() > 0; for (int c : m.list) if (m.g.v[c * m.g.l] == m.g.nd) return false; return !m.list.empty(); }
static void judge(mc::X& x, World& w, const char* key) {
    for (int i = 0; i < MAXS; i++) { Slot& a = w.s[i]; if (!a.r) continue; string k = key;
        if (!same(x, k, a.r, a.g, a.P ? &a.list : nullptr, a.P)) { x.also(" [object %d]", i); return; }
        if (a.subsets == 3) { for (auto& kv : a.r->GetSubset()) { SubsetPositions* p = kv.second; x.step(p->n_cells); for (int v = 0; v < p->n_cells; v++) { int q = p->global_[v], n = a.r->GetCellNumber(), cell = q < 0 || q >= n ? -1 : a.P ? a.list[q] : q, lr = cell / a.g.c - p->g_srow, lc = cell % a.g.c - p->g_scol;
            if (cell < 0 || lr < 0 || lc < 0 || cell / a.g.c > p->g_erow || cell % a.g.c > p->g_ecol || p->local_pos_[v][0] != lr || p->local_pos_[v][1] != lc || p->local_posidx_[v] != lr * (p->g_ecol - p->g_scol + 1) + lc) { x.fail(k + "-inherited", "cell %d of subset %d, inherited by object %d, is wrong", v, kv.first, i); return; } } } continue; }
        auto& sub = a.r->GetSubset(); map<int, vector<int>> want; if (a.subsets) for (size_t v = 0; v < a.zone.size(); v++) want[a.zone[v]].push_back((int)v); want.erase(-9999);
        if (sub.size() != want.size()) { x.fail(k + "-subsets", "object %d has %zu subsets, expected %zu", i, sub.size(), want.size()); return; }
        for (auto& kv : want) { auto it = sub.find(kv.first); if (it == sub.end()) { x.fail(k + "-subsets", "object %d has no subset %d", i, kv.first); return; } SubsetPositions* p = it->second; x.step(kv.second.size());
            if (p->n_cells != (int)kv.second.size()) { x.fail(k + "-subsets", "subset %d of object %d has %d cells", kv.first, i, p->n_cells); return; }
            for (size_t v = 0; v < kv.second.size(); v++) { int cell = a.list[kv.second[v]], lr = cell / a.g.c - p->g_srow, lc = cell % a.g.c - p->g_scol; if (p->global_[v] != kv.second[v] || p->local_pos_[v][0] != lr || p->local_pos_[v][1] != lc || p->local_posidx_[v] != lr * (p->g_ecol - p->g_scol + 1) + lc) { x.fail(k + "-subsets", "cell %zu of subset %d of object %d is wrong", v, kv.first, i); return; } } } }
}
static void read_masked(mc::X& x, World& w, int i, int j, bool calc, bool ext, bool into) {
    Slot &a = w.s[i], &m = w.s[j]; G src = gf(), mk = m.g.layer(0); if (m.P) for (int c = 0; c < mk.r * mk.c; c++) if (!std::count(m.list.begin(), m.list.end(), c)) mk.v[c] = mk.nd;
    Masked o = mask_ref(src, mk, ext, calc, -9999); bool ok = true; if (into) ok = a.r->ReadFromFile(FN[2], calc, m.r, ext); else { a.r = IR::Init(FN[2], calc, m.r, ext); ok = a.r != nullptr; } x.step();
    compact(m);       // the mask's positions are calculated by the way
    if (ok != !o.fail) { x.fail("masked", "reading through the mask %s", ok ? "succeeded" : "failed"); }
    if (!ok) { if (into) { delete a.r; a.r = nullptr; } int keep = a.mask; (void)keep; a = Slot(); return; }
    a.g = o.g; a.P = a.r->PositionsCalculated(); a.list = *list_of(a.r, o); a.borrows = a.P && !a.r->PositionsAllocated(); a.mask = a.r->GetMask() == m.r ? j : -1; a.mrel = false; a.subsets = a.r->GetSubset().empty() ? 0 : 3;
}
static void copied(Slot& a, const Slot& b) { IR* r = a.r; a = b; a.r = r; a.borrows = false; a.mrel = b.mask >= 0 || b.mrel; a.mask = -1; }
static void create(mc::X& x, World& w, int i, bool small) {
    Slot& a = w.s[i]; int n = 0; vector<int> live; for (int j = 0; j < MAXS; j++) if (w.s[j].r) live.push_back(j); n = (int)live.size();
    int o = x.choose(5 + n * (small ? 4 : 6)); x.step();
    if (o < 5) { x.also("; %d: %s", i, o == 0 ? "from data" : o == 1 ? "layers from data" : o == 2 ? "file" : o == 3 ? "file, compact" : "3x3 from data"); a = Slot(); if (o == 0) a.r = from_data<int>(a.g = g1()); else if (o == 1) a.r = from_data<int>(a.g = g2()); else if (o == 4) a.r = from_data<int>(a.g = gm()); else { a.r = IR::Init(FN[2], o == 3); a.g = gf(); if (o == 3) compact(a); }
        if (!a.r) x.fail("create", "no raster was created"); return; }
    o -= 5; int j = live[o % n], k = o / n; Slot& b = w.s[j];
    if (k == 0) { x.also("; %d: copy of %d", i, j); a.r = new IR(b.r); copied(a, b); return; }
    if (!clean_mask(b)) return;
    if (k == 1) { x.also("; %d: values over mask %d", i, j); compact(b); int n; int* p; b.r->GetRasterPositionData(&n, &p); vector<int> v; for (int q = 0; q < n; q++) v.push_back(10 + q); a = Slot(); a.r = new IR(b.r, v.data(), n); a.g = G(b.g.r, b.g.c, 1, (double)a.r->GetNoDataValue(), b.g.x, b.g.y, b.g.cs); a.P = true; a.list = b.list; for (int q = 0; q < n; q++) a.g.v[b.list[q]] = v[q]; a.mask = a.r->GetMask() == b.r ? j : -1; a.borrows = !a.r->PositionsAllocated(); a.subsets = a.r->GetSubset().empty() ? 0 : 3; return; }
    bool calc = k == 3 || k == 5, ext = k < 4; x.also("; %d: file through mask %d%s%s", i, j, ext ? "" : ", smallest extent", calc ? ", compact" : ""); read_masked(x, w, i, j, calc, ext, false);
}
static bool change(mc::X& x, World& w, bool small) {
    vector<int> live; for (int j = 0; j < MAXS; j++) if (w.s[j].r) live.push_back(j); if (live.empty()) return false; int i = live[x.choose((int)live.size())]; Slot& a = w.s[i]; int others = (int)live.size() - 1;
    int o = x.choose(small ? 7 + others : 10 + 2 * others); x.step();
    switch (o) {
    case 0: if (lent(w, i)) return false; x.also("; %d released", i); for (Slot& b : w.s) if (b.r && b.mask == i) { b.mask = -1; b.mrel = true; } delete a.r; a = Slot(); return true;
    case 1: { int c = a.P ? (a.list.empty() ? -1 : a.list.back()) : 0; if (c < 0) return false; x.also("; %d: cell %d := 2", i, c); a.r->SetValue(c / a.g.c, c % a.g.c, 2, a.g.l); a.g.v[c * a.g.l + a.g.l - 1] = 2; return true; }
    case 2: { if (a.P || a.mrel || !a.g.count()) return false; x.also("; %d: positions", i); bool masked = a.mask >= 0; if (masked) return false; a.r->SetCalcPositions(); compact(a); return true; }
    case 3: { if (a.subsets == 3 || a.subsets || a.mrel) return false; if (!a.P && (a.mask >= 0 || !a.g.count())) return false; if (a.list.empty() && a.P) return false; x.also("; %d: subsets", i); if (!a.r->BuildSubSet()) { x.fail("subset", "BuildSubSet failed"); return true; } compact(a); a.subsets = 1; a.zone.clear(); for (int c : a.list) a.zone.push_back(a.g.v[c * a.g.l] == a.g.nd ? -9999 : (int)a.g.v[c * a.g.l]); return true; }
    case 4: { if (!a.subsets) return false; x.also("; %d: subsets released", i); a.r->ReleaseSubset(); a.subsets = 0; return true; }
    case 5: { x.also("; %d: no-data := 0", i); a.r->ReplaceNoData(0); for (double& d : a.g.v) if (d == a.g.nd) d = 0; a.g.nd = 0; return true; }
    case 6: { if (lent(w, i)) return false; x.also("; %d: other file read", i); for (Slot& b : w.s) if (b.r && b.mask == i) { b.mask = -1; b.mrel = true; } if (!a.r->ReadFromFile(FN[3])) { x.fail("reread", "reading failed"); return true; } IR* r = a.r; a = Slot(); a.r = r; a.g = g1(); return true; }
    }
    o -= 7; vector<int> oth; for (int j : live) if (j != i) oth.push_back(j);
    if (o < others) { int j = oth[o]; if (lent(w, i)) return false; x.also("; %d: becomes a copy of %d", i, j); Slot& b = w.s[j]; a.r->Copy(b.r); for (Slot& c : w.s) if (c.r && c.mask == i && &c != &a) { c.mask = -1; c.mrel = true; } copied(a, b); return true; }
    o -= others;
    if (o == 0) { if (!a.subsets || a.subsets == 3 || a.mrel) return false; x.also("; %d: subsets rebuilt in groups", i); map<int, int> gr; gr[1] = 7; gr[3] = 7; a.r->RebuildSubSet(gr); a.subsets = 2; a.zone.clear(); for (int c : a.list) { double v = a.g.v[c * a.g.l]; a.zone.push_back(v == a.g.nd ? -9999 : v == 1 || v == 3 ? 7 : (int)v); } return true; }
    if (o == 1) { x.also("; %d: statistics", i); a.r->UpdateStatistics(); return true; }
    if (o == 2) { if (a.mask < 0 || a.r->MaskExtented()) return false; Slot& m = w.s[a.mask]; if (!clean_mask(m)) return false; if (!m.r->GetSubset().empty() || lent(w, i)) return false; if (!a.g.count()) return false; x.also("; %d: extent of the mask", i); bool ok = a.r->SetUseMaskExt(); if (!ok) x.fail("extent", "SetUseMaskExt failed"); if (a.r->GetCellNumber() != (int)a.list.size()) { vector<int> l, z; for (size_t v = 0; v < a.list.size(); v++) if (a.g.v[a.list[v] * a.g.l] != a.g.nd) { l.push_back(a.list[v]); if (a.subsets && a.subsets < 3) z.push_back(a.zone[v]); } a.list = l; a.zone = z; } a.borrows = !a.r->PositionsAllocated(); a.mask = a.r->GetMask() == m.r ? a.mask : -1; return true; }
    o -= 3; { int j = oth[o]; if (lent(w, i) || !clean_mask(w.s[j]) || (w.s[j].mask == i && w.s[j].borrows)) return false; x.also("; %d: file read through mask %d", i, j); for (Slot& b : w.s) if (b.r && b.mask == i) { b.mask = -1; b.mrel = true; } read_masked(x, w, i, j, false, true, true); return true; }
}
static void names() { if (FN[2]) return; static string a = input_file(gf(), 0, 0), b = input_file(g1(), 0, 0); FN[2] = a.c_str(); FN[3] = b.c_str(); IR* r = IR::Init(a); delete r; r = IR::Init(b, true); delete r; }
static void run(mc::X& x, int depth, bool small) {
    names(); int k0 = x.choose(5), o1 = x.choose(2), len = x.range(2, depth); if (len > 4 && !x.thorough && (k0 != 4 || o1)) return; size_t live = mc::live_blocks(); x.note(" ");
    { World w; static const char* K[] = {"from data", "layers from data", "file", "file, compact", "3x3 from data"}; x.also("0: %s", K[k0]); Slot& a = w.s[0]; if (k0 == 0) a.r = from_data<int>(a.g = g1()); else if (k0 == 1) a.r = from_data<int>(a.g = g2()); else if (k0 == 4) a.r = from_data<int>(a.g = gm()); else { a.r = IR::Init(FN[2], k0 == 3); a.g = gf(); if (k0 == 3) compact(a); }
        for (int t = 1; t < len && x.nviol == 0; t++) {
            int slot = -1, alive = 0; for (int j = MAXS - 1; j >= 0; j--) if (!w.s[j].r) slot = j; else alive++;
            bool cr = t == 1 ? o1 == 0 : (slot >= 0 && (alive == 0 || x.flag())); if (cr) create(x, w, slot, small); else if (!change(x, w, small)) return; if (t == 1 && !x.mine()) return; }
        judge(x, w, "objects");
        // all released, newest or oldest first
        bool rev = x.flag(); for (int t = 0; t < MAXS; t++) for (int q = 0; q < MAXS; q++) { int j = rev ? MAXS - 1 - q : q; Slot& a = w.s[j]; if (!a.r || lent(w, j)) continue; delete a.r; a = Slot(); if (x.nviol == 0) judge(x, w, "release"); } }
    size_t now = mc::live_blocks(); if (now != live && x.nviol == 0) x.fail("memory", "%zd blocks of memory are left when all objects are gone", (ssize_t)(now - live));
}
MC_BODY(objects, 40) { run(x, x.thorough ? 5 : 4, false); }
MC_BODY(objects_deeper, 40) { run(x, x.thorough ? 6 : 5, true); }
// subsets: copies keep their own data
MC_BODY(subset_copies, 8) {
    int z = x.choose(3), dat = x.choose(3), n = x.range(1, x.thorough ? 5 : 4); bool deep = x.flag(); if (!x.mine()) return; x.note("subset copies (%s), %s", deep ? "deep" : "sharing positions", dat == 0 ? "without data" : dat == 1 ? "one layer" : "two layers");
    size_t live = mc::live_blocks();
    { IR* r = from_data<int>(gm()); r->BuildSubSet(); int key = z == 0 ? 3 : 5; SubsetPositions* s = r->GetSubset().at(key); int N = s->n_cells; struct C { SubsetPositions* p; double v; int l; }; vector<C> c; auto fill = [&](C& q, double v, int l) { if (l == 1) { vector<double> d(N, v); for (int i = 0; i < N; i++) d[i] += i; if (!q.p->SetData(N, d.data())) x.fail("subset-data", "SetData failed"); } else { double** d = nullptr; Initialize2DArray(N, l, d, 0.); for (int i = 0; i < N; i++) for (int k = 0; k < l; k++) d[i][k] = v + i + 10 * k; if (!q.p->Set2DData(N, l, d)) x.fail("subset-data", "Set2DData failed"); Release2DArray(d); } q.v = v; q.l = l; };
        auto check = [&](const C& q) { if (!q.p || !q.l) return; x.step(); vector<int*> full; q.p->Output(-1, full); if ((int)full.size() != q.l) x.fail("subset-copy", "%zu layers of data, expected %d", full.size(), q.l); else for (int k = 0; k < q.l; k++) for (int i = 0; i < N; i++) if (full[k][q.p->local_posidx_[i]] != q.v + i + 10 * k) { x.fail("subset-copy", "cell %d layer %d is %d, expected %g", i, k + 1, full[k][q.p->local_posidx_[i]], q.v + i + 10 * k); break; } for (int* f : full) delete[] f; };
        c.push_back({s, 0, 0}); if (dat) fill(c[0], 100, dat);
        for (int t = 0; t < n; t++) { vector<int> al; for (size_t i = 0; i < c.size(); i++) if (c[i].p) al.push_back((int)i); int i = al[x.choose((int)al.size())]; int o = x.choose(3);
            if (o == 0) { x.also("; copy of %d", i); C q = c[i]; q.p = new SubsetPositions(c[i].p, deep); c.push_back(q); } else if (o == 1) { int l = z == 2 ? 2 : 1; x.also("; data of %d", i); if (c[i].l && c[i].l != l) l = c[i].l; fill(c[i], 200 + 50 * t, l); } else { if (i == 0 && !deep) break; if (i == 0) { x.also("; original released"); r->ReleaseSubset(); } else { if (!deep) { bool used = false; for (size_t q = 1; q < c.size(); q++) used = used || (c[q].p && (int)q != i); (void)used; } x.also("; %d released", i); delete c[i].p; } c[i].p = nullptr; }
            for (auto& q : c) check(q); bool any = false; for (auto& q : c) any = any || q.p; if (!any) break; }
        for (size_t i = c.size(); i-- > 1;) delete c[i].p; delete r; }
    size_t now = mc::live_blocks(); if (now != live && x.nviol == 0) x.fail("memory", "%zd blocks of memory are left when all objects are gone", (ssize_t)(now - live));
}
// subsets stay right when the stored cells change afterwards: positions calculated, extent of the mask taken
MC_BODY(subsets_follow, 8) {
    names(); int mp = x.range(1, 63), sp = x.range(1, 63); bool inherit = x.flag(), ext = x.flag(), calc = x.flag(); int write = x.choose(3); if (!x.mine()) return; if (!x.thorough && (mp * 7 + sp) % 2 && sp != 63 && mp != 63) return;
    G m(2, 3, 1, -9999), s(2, 3, 1, -9999); for (int i = 0; i < 6; i++) { if (mp >> i & 1) m.v[i] = 1 + i % 2; if (sp >> i & 1) s.v[i] = 3 + i % 3; } Masked o = mask_ref(s, m, ext, calc, -9999); if (o.fail || !o.g.count()) return;
    string f = input_file(s, 0, 0); x.note("%s through mask %s%s%s%s", s.show().c_str(), m.show().c_str(), ext ? "" : ", smallest extent", calc ? ", compact" : "", inherit ? ", subsets of the mask" : ", own subsets");
    IR* mask = from_data<int>(m); if (inherit) mask->BuildSubSet(); IR* r = IR::Init(f, calc, mask, ext); if (!r) { delete mask; x.fail("create", "reading failed"); return; }
    World w; Slot &b = w.s[0], &a = w.s[1]; b.r = mask; b.g = m; compact(b); b.subsets = inherit; for (int c : b.list) b.zone.push_back((int)m.v[c]); a.r = r; a.g = o.g; a.P = r->PositionsCalculated(); a.list = *list_of(r, o); a.mask = r->GetMask() == mask ? 0 : -1; a.borrows = a.P && !r->PositionsAllocated();
    auto build = [&]() { if (!r->BuildSubSet()) { x.fail("subset", "BuildSubSet failed"); return; } compact(a); a.subsets = 1; a.zone.clear(); for (int c : a.list) a.zone.push_back((int)a.g.v[c]); };
    if (inherit) { a.subsets = 3; for (int z = 1; z <= 2; z++) { std::set<int> all, have; for (int i = 0; i < m.r * m.c; i++) if (m.v[i] == z) { int rr = i / m.c - o.r0, cc = i % m.c - o.c0; if (rr < 0 || cc < 0 || rr >= a.g.r || cc >= a.g.c) continue; all.insert(rr * a.g.c + cc); if (a.g.at(rr, cc) != a.g.nd) have.insert(rr * a.g.c + cc); }
            auto it = r->GetSubset().find(z); std::set<int> got; if (it != r->GetSubset().end()) for (int v = 0; v < it->second->n_cells; v++) { int q = it->second->global_[v]; got.insert(a.P ? (q >= 0 && q < (int)a.list.size() ? a.list[q] : -1) : q); }
            if (got != have && !(have.size() && got == all)) x.fail("inherited", "inherited subset %d has %zu cells, expected %zu", z, got.size(), have.size()); } } else build();
    judge(x, w, "follow"); if (x.nviol) return;
    if (write && !a.list.empty()) { int c = a.list[write == 1 ? 0 : a.list.size() - 1]; x.also("; cell %d := no-data", c); r->SetValue(c / a.g.c, c % a.g.c, -9999); a.g.v[c] = a.g.nd; }
    if (a.g.count()) { x.also("; positions"); if (!a.P) { r->SetCalcPositions(); compact(a); } judge(x, w, "follow-positions"); if (x.nviol) return;
        if (a.mask == 0 && !r->MaskExtented()) { x.also("; extent of the mask"); r->SetUseMaskExt(); if (r->GetCellNumber() != (int)a.list.size()) { vector<int> l, z; for (size_t v = 0; v < a.list.size(); v++) if (a.g.v[a.list[v]] != a.g.nd) { l.push_back(a.list[v]); if (a.subsets == 1) z.push_back(a.zone[v]); } a.list = l; a.zone = z; } a.borrows = !r->PositionsAllocated(); judge(x, w, "follow-extent"); } }
    delete a.r; a = Slot();
}
