// R07: layers of a multi-layer raster stay aligned
#include "rmask.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static void fill(G& g, unsigned p, double base) { for (int i = 0; i < g.r * g.c; i++) if (p >> i & 1) g.v[i] = base + i; }
// what the layered raster holds: first as given, the others looked up at the centres of its cells.  Where the first
// layer has no data the other layers hold their own value or no data (the first layer may act as mask).
template <typename R> static G stack(R* r, const G& first, const vector<int>& list, const vector<G>& others) {
    G g(first.r, first.c, 1 + (int)others.size(), first.nd, first.x, first.y, first.cs); bool P = r->PositionsCalculated();
    for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) { g.at(i, j, 0) = first.at(i, j); bool in = !P || std::binary_search(list.begin(), list.end(), i * g.c + j);
        for (size_t k = 0; k < others.size(); k++) { double v = g.nd; int a, b; if (in && others[k].locate(first.cx(j), first.cy(i), a, b) && others[k].has(a, b)) v = others[k].at(a, b);
            if (!first.has(i, j) && (double)r->GetValue(i, j, (int)k + 2) == g.nd) v = g.nd; g.at(i, j, (int)k + 1) = v; } }
    return g;
}
template <typename T, typename M> static void run(mc::X& x, const vector<G>& L, const G* m, bool ext, bool calc, int fmt, bool init, bool post) {
    string n; for (auto& g : L) n += g.show() + "; "; x.note("layers %s%s%s, %s%s", n.c_str(), m ? "through mask " : "", m ? m->show().c_str() : "", m ? (ext ? "mask's extent, " : "smallest extent, ") : "", calc ? "compact" : "as it comes");
    vector<string> f; for (auto& g : L) f.push_back(input_file(g, 0, fmt)); vector<string> f0 = f; clsRasterData<M>* mask = m ? from_data<M>(*m) : nullptr; Masked o; if (m) o = mask_ref(L[0], *m, ext, calc, L[0].nd); else { o.fail = calc && L[0].count() == 0; o.g = L[0]; o.sel = o.kept = L[0].valid(); }
    clsRasterData<T, M>* r; x.step((int)L.size()); if (init) r = clsRasterData<T, M>::Init(f, calc, mask, ext, L[0].nd); else { r = new clsRasterData<T, M>(true); if (!r->ReadFromFiles(f, calc, mask, ext, L[0].nd)) { delete r; r = nullptr; } }
    if (!m && calc && L[0].count() == 0) { delete r; delete mask; return; }
    if (o.fail != !r) x.fail("refused", "reading %s", r ? "succeeded although nothing is selected" : "failed");
    if (r && !o.fail) { vector<G> rest(L.begin() + 1, L.end()); const vector<int>* l = list_of(r, o); G g = stack(r, o.g, *l, rest); bool ok = same(x, "stack", r, g, l); if (calc && ok && !r->PositionsCalculated()) x.fail("positions", "positions were requested but not calculated"); x.outcome(g.show());
        if (ok) for (int k = 0; k < (int)L.size(); k++) { int n = r->GetCellNumber(); for (int i = 0; i < n; i++) { T v = r->GetValueByIndex(i, k + 1); int cell = r->PositionsCalculated() ? (*l)[i] : i; if ((double)v != g.v[(size_t)cell * g.l + k]) { x.fail("by-index", "index %d layer %d is %.9g", i, k + 1, (double)v); break; } } }
        if (post && ok && !r->PositionsCalculated() && g.count()) { r->SetCalcPositions(); G h = g; for (int i = 0; i < g.r * g.c; i++) if (g.v[(size_t)i * g.l] == g.nd) for (int k = 1; k < g.l; k++) h.v[(size_t)i * g.l + k] = h.nd; same(x, string("stack-positions"), r, h); }
        if (m && ok && (post || !init)) { r->SetUseMaskExt(); const vector<int>* l2 = list_of(r, o); G h = stack(r, o.g, *l2, rest); if (!same(x, string("stack-extent"), r, h, l2)) return; int n = r->GetCellNumber(); for (int i = 0; r->PositionsCalculated() && i < n; i++) for (int k = 0; k < h.l; k++) if ((double)r->GetValueByIndex(i, k + 1) != h.v[(size_t)(*l2)[i] * h.l + k]) { x.fail("by-index-extent", "index %d layer %d is %.9g", i, k + 1, (double)r->GetValueByIndex(i, k + 1)); break; } } }
    delete r; if (mask) { same(x, string("mask"), mask, *m); delete mask; }
}
#if PART == 0
// every placement of no-data in 2 layers of the same extent, without mask
MC_BODY(two_layers, 32) { static const int S[][2] = {{1,2},{2,2},{2,3},{3,1}}; int s = x.choose(4); bool calc = x.flag(), post = x.flag(); int r = S[s][0], c = S[s][1]; unsigned p = x.choose(1 << (r * c)); if (!x.mine()) return; unsigned q = x.choose(1 << (r * c)); vector<G> L(2, G(r, c, 1, -9999)); fill(L[0], p, 10); fill(L[1], q, 30); if (x.thorough || (r * c < 5)) { L[1].nd = x.flag() ? -1 : -9999; for (double& v : L[1].v) if (v == -9999) v = L[1].nd; } run<float, float>(x, L, nullptr, true, calc, (p + q) % 4 == 0, post, post); }
MC_BODY(three_layers, 32) { bool calc = x.flag(); unsigned p = x.choose(16), q = x.choose(16); if (!x.mine()) return; unsigned t = x.choose(16); vector<G> L(3, G(2, 2, 1, -9999)); fill(L[0], p, 10); fill(L[1], q, 30); fill(L[2], t, 70); run<float, float>(x, L, nullptr, true, calc, 0, t & 1, q & 1); }
// many layers: each one its own values
MC_BODY(many_layers, 8) { int l = x.range(2, 12); bool calc = x.flag(); if (!x.mine()) return; unsigned p = 1 + x.choose(63); vector<G> L(l, G(2, 3, 1, -9999)); for (int k = 0; k < l; k++) fill(L[k], k ? (p * (k + 3) * 7) % 64 : p, 100 * k); run<float, float>(x, L, nullptr, true, calc, l & 1, calc, p & 1); }
#elif PART == 1
// through a mask
static const double OFF[][2] = {{0,0},{1,0},{-1,-1},{0.3,-0.2}};
MC_BODY(masked, 48) { int of = x.choose(4), o2 = x.choose(2); bool ext = x.flag(), calc = x.flag(); unsigned mp = 1 + x.choose(15); if (!x.mine()) return; unsigned p = x.choose(16), q = x.choose(16); if (!x.thorough && (p + q + mp) % 2) x.prune(); G m(2, 2, 1, -9999, 10, 20, 2); fill(m, mp, 1); vector<G> L(2, G(2, 2, 1, -9999, 10 + 2 * OFF[of][0], 20 + 2 * OFF[of][1], 2)); if (o2) L[1].x -= 2; fill(L[0], p, 10); fill(L[1], q, 30); run<float, float>(x, L, &m, ext, calc, 0, q & 1, p & 1); }
MC_BODY(masked_wide, 48) { bool ext = x.flag(), calc = x.flag(); unsigned mp = 1 + x.choose(63); if (!x.mine()) return; unsigned p = x.choose(64), q = x.choose(x.thorough ? 64 : 8); if (!x.thorough) q = (q * 37 + 11) & 63; G m(2, 3, 1, -9999, 10, 20, 2); fill(m, mp, 1); vector<G> L(3, G(3, 2, 1, -9999, 10, 18, 2)); fill(L[0], p, 10); fill(L[1], q, 30); fill(L[2], 63 ^ q, 50); run<float, float>(x, L, &m, ext, calc, 0, q & 1, p & 1); }
#elif PART == 2
MC_BODY(masked_int, 48) { int of = x.choose(2); bool ext = x.flag(), calc = x.flag(); unsigned mp = 1 + x.choose(15); if (!x.mine()) return; unsigned p = x.choose(16), q = x.choose(16); if (!x.thorough && (p + q + mp) % 3) x.prune(); G m(2, 2, 1, -1, 10, 20, 2); fill(m, mp, 1); vector<G> L(2, G(2, 2, 1, -9999, 10 + 2 * of, 20, 2)); fill(L[0], p, 10); fill(L[1], q, 30); run<int, int>(x, L, &m, ext, calc, 0, q & 1, p & 1); run<double, int>(x, L, &m, ext, calc, 1, p & 1, q & 1); }
// layers of other dimensions and places are looked up by location; what they do not cover is no-data
MC_BODY(other_extent, 16) { static const int S[][2] = {{2,2},{1,1},{3,3},{1,4},{4,1},{2,3}}; int a = x.choose(6), b = x.choose(6), ox = x.range(-2, 2), oy = x.range(-2, 2); if (!x.mine()) return; bool calc = x.flag(); double cs = x.choose(3); cs = cs == 0 ? 2 : cs == 1 ? 3 : 1; vector<G> L; L.push_back(G(S[a][0], S[a][1], 1, -9999, 10, 20, 2)); L.push_back(G(S[b][0], S[b][1], 1, -9999, 10 + ox * 2 + (cs == 2 ? 0 : 0.1), 20 + oy * 2 + (cs == 2 ? 0 : 0.1), cs)); fill(L[0], 0xffffb, 10); fill(L[1], 0xfffdf, 30); run<float, float>(x, L, nullptr, true, calc, 0, false, true); }
// a layer that cannot be read makes the whole reading fail
MC_BODY(unreadable, 4) { int l = x.range(1, 4), bad = x.choose(l), how = x.choose(6); bool calc = x.flag(); if (!x.mine()) return; int fmt = x.choose(2); vector<string> f; for (int k = 0; k < l; k++) { G g(2, 2, 1, -9999); fill(g, 15 - k, k * 10 + 1); f.push_back(input_file(g, 0, fmt)); }
    string good = f[bad]; put("text.tif", "this is no raster"); put("text.asc", "nor is\nthis\n1\n2\n3\n4\n5\n"); put("short.asc", "NCOLS 2\nNROWS 2\nXLLCENTER 2\nYLLCENTER 3\nCELLSIZE 2\nNODATA_VALUE -9999\n1 2\n3\n"); put("empty.asc", ""); mkdir("dir.tif", 0777); static const char* B[] = {"missing.asc", "text.tif", "text.asc", "short.asc", "empty.asc", "dir.tif"}; f[bad] = B[how];
    x.note("layer %d of %d is %s", bad + 1, l, B[how]); vector<string> f2 = f; FR* r = FR::Init(f, calc); x.step(2); if (r) { x.fail("accepted", "a raster was made"); delete r; } FR o; if (o.ReadFromFiles(f2, calc)) x.fail("accepted", "ReadFromFiles succeeded"); FR c(f2, calc); vector<string> none; FR* e = FR::Init(none); if (e) { x.fail("accepted", "a raster was made of no file"); delete e; } }
#endif
#if PART == 1
// layers beyond the sizes of blocks and narrow counters, with and without mask
template <typename T, typename M> static void sizes(mc::X& x) { int a = x.choose(NSIZES - 1), b = x.choose(NSIZES - 1), k0 = x.choose(NKINDS), k1 = x.choose(NKINDS), mk = x.choose(3), l = x.pick(vector<int>{2, 3, 17}); bool calc = x.flag(), ext = mk == 1; if (!x.mine()) return; if (a != b && l != 2) return; if (!x.thorough && (a * 3 + b + k0 * 5 + k1 + mk + l) % (a == 4 || b == 4 ? 60 : a == b ? 6 : 20)) return;
    vector<G> L; for (int k = 0; k < l; k++) { L.push_back(sized<T>(k ? b : a, k ? (k1 + k) % NKINDS : k0, 1, -9999)); for (double& v : L[k].v) if (v != -9999) v += k * 1000; L[k].x = 10; L[k].y = 20; } if (L[0].cs == 0) return; G m = sized<M>(a, 2, 1, -9999); m.x = 10; m.y = 20; run<T, M>(x, L, mk ? &m : nullptr, ext, calc, k1 & 1, k0 & 1, k1 & 2); }
MC_BODY(sizes_float, 48) { sizes<float, float>(x); }
MC_BODY(sizes_int, 48) { sizes<int, int>(x); }
#endif
