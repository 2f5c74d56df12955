// R06: a raster read through a mask
#include "rmask.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static string pat(unsigned p) { string s; return s; }
static void fill(G& g, unsigned p, double base) { for (int i = 0; i < g.r * g.c; i++) if (p >> i & 1) g.v[i] = base + i; }
template <typename T, typename M> static void run(mc::X& x, const G& s, const G& m, bool ext, bool calc, double dflt, int fmt, bool mpos, int post, int order) {
    x.note("source %s through mask %s%s, %s extent, %s, default %g%s", s.show().c_str(), m.show().c_str(), mpos ? " (positions known)" : "", ext ? "mask's" : "smallest", calc ? "compact" : "as it comes", dflt, post == 1 ? ", then SetCalcPositions" : post == 2 ? ", then SetUseMaskExt" : "");
    Masked o = mask_ref(s, m, ext, calc, dflt); string f = input_file(s, 0, fmt); clsRasterData<M>* mask = from_data<M>(m); if (mpos) mask->SetCalcPositions(); x.step();
    clsRasterData<T, M>* r = nullptr; if (order & 2) { r = new clsRasterData<T, M>(); if (!r->ReadFromFile(f, calc, mask, ext, dflt)) { delete r; r = nullptr; } } else r = clsRasterData<T, M>::Init(f, calc, mask, ext, dflt);
    if (o.fail && r) x.fail("kept-nothing", "a raster was made although the mask selects nothing of the source"); if (!o.fail && !r) x.fail("refused", "reading through the mask failed");
    if (r && !o.fail) {
        bool ok = same(x, "masked", r, o.g, list_of(r, o)); x.outcome(o.g.show());
        if (calc && ok && !r->PositionsCalculated()) x.fail("positions", "positions were requested but not calculated");
        if (post && ok) { bool was = r->PositionsCalculated(); bool did = post == 1 ? r->SetCalcPositions() : r->SetUseMaskExt(); if (post == 1 && !was && !did) x.fail("post", "SetCalcPositions failed"); same(x, post == 1 ? string("after-positions") : string("after-extent"), r, o.g, list_of(r, o)); }
    }
    if (order & 1) { delete r; same(x, "mask", mask, m); delete mask; } else { same(x, "mask", mask, m); delete r; delete mask; }
}
// all patterns of mask and source in overlapping positions
static const double OFF[][2] = {{0,0},{1,0},{0,1},{-1,-1},{1,-1},{0.3,-0.2},{-1.4,0.6},{2,0},{0,-2}};
template <typename T, typename M> static void patterns(mc::X& x, int mr, int mc_, int sr, int sc) {
    int of = x.choose(9); double scale = x.pick(vector<double>{1, 2, 0.5}); bool ext = x.flag(), calc = x.flag(); int d = x.choose(2); unsigned mp = 1 + x.choose((1 << (mr * mc_)) - 1); if (!x.mine()) return;
    if (scale != 1) { if (of != 0 && of != 5 && of != 3) x.prune(); }
    G m(mr, mc_, 1, -9999, 10, 20, 2); fill(m, mp, 1); double cs = 2 * scale; G s(sr, sc, 1, -9999, 10 + OFF[of][0] * 2 + (scale == 1 ? 0 : 0.13), 20 + OFF[of][1] * 2 + (scale == 1 ? 0 : 0.17), cs);
    unsigned sp = x.choose(1 << (sr * sc)); fill(s, sp, 50); double dflt = d ? 7 : -9999; unsigned h = mp * 7 + sp * 3 + of;
    run<T, M>(x, s, m, ext, calc, dflt, sizeof(T) == 4 && h % 5 == 0 ? 1 : 0, h % 3 == 0, (int)(h % 4), (int)(h / 4 % 4)); }
#if PART == 0
MC_BODY(p22_22, 48) { patterns<float, float>(x, 2, 2, 2, 2); }
MC_BODY(p23_22, 48) { patterns<float, float>(x, 2, 3, 2, 2); }
MC_BODY(p22_23, 48) { patterns<float, float>(x, 2, 2, 2, 3); }
MC_BODY(p31_13, 48) { patterns<float, float>(x, 3, 1, 1, 3); }
MC_BODY(p32_23, 48) { patterns<float, float>(x, 3, 2, 1, 3); }
MC_BODY_T(p33_22, 64, 60) { if (!x.thorough) return; patterns<float, float>(x, 3, 3, 2, 2); }
MC_BODY_T(p33_33, 64, 60) { int of = x.choose(3); bool ext = x.flag(), calc = x.flag(); int d = x.choose(2); unsigned mp = 1 + x.choose(511); if (!x.mine()) return; if (!x.thorough && (mp % 7 || d)) x.prune(); G m(3, 3, 1, -9999, 10, 20, 2); fill(m, mp, 1); static const double O[][2] = {{0,0},{1,-1},{-0.7,0.4}}; G s(3, 3, 1, -9999, 10 + O[of][0] * 2, 20 + O[of][1] * 2, 2); unsigned sp = x.choose(x.thorough ? 512 : 64); if (!x.thorough) sp = (sp * 73 + 5) & 511; fill(s, sp, 50); run<float, float>(x, s, m, ext, calc, d ? 7 : -9999, 0, sp & 1, sp % 3, sp % 4); }
#elif PART == 1
MC_BODY(int_by_int, 48) { patterns<int, int>(x, 2, 2, 2, 2); }
MC_BODY(float_by_int, 48) { patterns<float, int>(x, 2, 3, 2, 2); }
#elif PART == 2
MC_BODY(double_by_int, 48) { patterns<double, int>(x, 2, 2, 3, 2); }
MC_BODY(int_by_float, 48) { patterns<int, float>(x, 3, 2, 2, 2); }
#elif PART == 3
// no-data values and defaults of all kinds, and the mask used for several rasters one after another
MC_BODY(nodata_values, 16) {
    static const double ND[] = {-9999, 0, -1, 255}, DF[] = {-9999, 0, 7, -1}; double nd = ND[x.choose(4)], mnd = ND[x.choose(4)], df = DF[x.choose(4)]; bool ext = x.flag(), calc = x.flag(); if (!x.mine()) return;
    unsigned mp = 1 + x.choose(15), sp = x.choose(16); if (!x.thorough && (mp + sp) % 4) x.prune(); G m(2, 2, 1, mnd, 10, 20, 2); fill(m, mp, 1); G s(2, 2, 1, nd, 10, x.flag() ? 20 : 22, 2); fill(s, sp, 50); double d = df == -9999 && nd != -9999 ? nd : df;      // the default of the default value is no-data
    x.note("-"); Masked o = mask_ref(s, m, ext, calc, d); x.note("source %s through mask %s, %s extent, %s, default %g", s.show().c_str(), m.show().c_str(), ext ? "mask's" : "smallest", calc ? "compact" : "as it comes", df);
    FR* mask = from_data<float>(m); FR* r = FR::Init(input_file(s, 0, 0), calc, mask, ext, df); x.step(); if (o.fail != !r) x.fail("refused", "reading %s", r ? "succeeded" : "failed"); if (r && !o.fail) same(x, "masked", r, o.g, list_of(r, o)); same(x, "mask", mask, m); delete mask; delete r; }
MC_BODY(shared_mask, 16) {
    bool ext = x.flag(), c1 = x.flag(), c2 = x.flag(); unsigned mp = 1 + x.choose(15); if (!x.mine()) return; unsigned s1 = x.choose(16), s2 = x.choose(16); int order = x.choose(3); G m(2, 2, 1, -9999, 10, 20, 2); fill(m, mp, 1); G a(2, 2, 1, -9999, 10, 20, 2), b(2, 2, 1, -9999, 12, 20, 2); fill(a, s1, 50); fill(b, s2, 70);
    x.note("sources %s and %s through mask %s, %s extent, %s/%s, order %d", a.show().c_str(), b.show().c_str(), m.show().c_str(), ext ? "mask's" : "smallest", c1 ? "compact" : "as it comes", c2 ? "compact" : "as it comes", order);
    Masked oa = mask_ref(a, m, ext, c1, -9999), ob = mask_ref(b, m, ext, c2, -9999); FR* mask = from_data<float>(m); FR* ra = FR::Init(input_file(a, 0, 0), c1, mask, ext); FR* rb = FR::Init(input_file(b, 0, 0), c2, mask, ext); x.step(2);
    if (oa.fail != !ra || ob.fail != !rb) { x.fail("refused", "reading: %d %d, expected %d %d", (int)!!ra, (int)!!rb, (int)!oa.fail, (int)!ob.fail); }
    else { if (ra) same(x, "first", ra, oa.g, list_of(ra, oa)); if (rb) same(x, "second", rb, ob.g, list_of(rb, ob)); if (order == 0) { delete ra; ra = nullptr; if (rb) same(x, "second-after-first", rb, ob.g, list_of(rb, ob)); } if (order == 1) { delete rb; rb = nullptr; if (ra) same(x, "first-after-second", ra, oa.g, list_of(ra, oa)); }
        if (order == 2 && ra) { FR* again = FR::Init(input_file(b, 0, 0), true, ra, ext); Masked oc = mask_ref(b, oa.g, ext, true, -9999); if (ra->PositionsCalculated() && ra->GetCellNumber() != (int)oa.kept.size()) { /* selected cells without data are kept in its list */ } else { if (oc.fail != !again) x.fail("mask-by-result", "reading through the masked raster: %d, expected %d", (int)!!again, (int)!oc.fail); else if (again) same(x, "mask-by-result", again, oc.g, list_of(again, oc)); } delete again; }
        same(x, "mask", mask, m); }
    delete ra; delete rb; delete mask; }
// re-reading with another mask into the same object
MC_BODY(reread, 16) {
    bool e1 = x.flag(), e2 = x.flag(), c1 = x.flag(), c2 = x.flag(); unsigned m1 = 1 + x.choose(15); if (!x.mine()) return; unsigned m2 = x.choose(16); if (!x.thorough && m2 % 3) x.prune(); G a(2, 2, 1, -9999, 10, 20, 2), p(2, 2, 1, -9999, 10, 20, 2), q(3, 2, 1, -9999, 10, 18, 2), b(2, 3, 1, -9999, 10, 20, 2); fill(p, m1, 1); fill(q, m2 * 2, 3); fill(a, 15 - x.choose(4), 50); fill(b, 63 - x.choose(4), 80);
    x.note("source %s through mask %s, then %s through %s, %d%d%d%d", a.show().c_str(), p.show().c_str(), b.show().c_str(), m2 ? q.show().c_str() : "no mask", e1, e2, c1, c2); FR* mp = from_data<float>(p); FR* mq = m2 ? from_data<float>(q) : nullptr; FR* r = new FR(); Masked oa = mask_ref(a, p, e1, c1, -9999), ob; if (m2) ob = mask_ref(b, q, e2, c2, -9999); else { ob.fail = false; ob.g = b; ob.sel = ob.kept = b.valid(); } x.step(2);
    bool k = r->ReadFromFile(input_file(a, 0, 0), c1, mp, e1); if (k == oa.fail) x.fail("refused", "first reading: %d", (int)k); if (k && !oa.fail) same(x, "first", r, oa.g, list_of(r, oa)); k = r->ReadFromFile(input_file(b, 0, 0), c2, mq, e2); if (k == ob.fail) x.fail("refused", "second reading: %d", (int)k); if (k && !ob.fail) same(x, "second", r, ob.g, list_of(r, ob)); same(x, "mask", mp, p); delete r; delete mp; delete mq; }
#endif
#if PART == 1
// masks and sources beyond the sizes of blocks and narrow counters
template <typename T, typename M> static void sizes(mc::X& x) { int a = x.choose(NSIZES - 1), b = x.choose(NSIZES - 1), km = x.choose(NKINDS), ks = x.choose(4) * 2, of = x.choose(3); bool ext = x.flag(), calc = x.flag(); if (!x.mine()) return; if (!x.thorough && (a * 3 + b + km + ks / 2 + of + ext + calc) % (a == 4 || b == 4 ? 24 : 6)) return;
    G m = sized<M>(a, km, 1, -9999), s = sized<T>(b, ks, 1, -9999); m.x = 10; m.y = 20; m.cs = 2; s.x = of == 1 ? 10 + 2 * 3 : 10; s.y = of == 2 ? 20 + 2 * (m.r - s.r) : 20; s.cs = 2; run<T, M>(x, s, m, ext, calc, (a + b + km) % 2 ? 7 : -9999, of == 1, ks == 2, km % 3, km % 4); }
MC_BODY(sizes_float, 48) { sizes<float, int>(x); }
MC_BODY(sizes_int, 48) { sizes<int, float>(x); }
#endif
