// R04: list of valid cells, look-ups, reading and writing of values agree with each other and with the source grid
#include "raster.hpp"
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const int SHAPES[][2] = {{1,1},{1,2},{2,1},{1,3},{3,1},{2,2},{2,3},{3,2},{1,5},{3,3}};
template <typename T> static double cellv(int i, int k) { double v = i == 1 ? 0 : i * 7 + 2 + 60 * k; return std::is_unsigned<T>::value || i % 3 == 0 ? v : -v; }
template <typename T> static G grid(mc::X& x, int nshape, int l, double nd) {
    int s = x.choose(nshape); G g(SHAPES[s][0], SHAPES[s][1], l, nd); return g; }
template <typename T> static void pattern(mc::X& x, G& g) { for (int i = 0; i < g.r * g.c; i++) for (int k = 0; k < g.l; k++) if (!x.flag()) g.v[i * g.l + k] = cellv<T>(i, k); }
template <typename T> static double nodata() { return std::is_unsigned<T>::value ? 255 : -9999; }
static const char* WAYS[] = {"from data", "from data with options", "from data with srs text", "ASCII file (Init)", "ASCII file (constructor)", "GeoTIFF file (Init)", "GeoTIFF (ReadFromFile)", "mask and values", "copy constructor", "Copy()", "files (Init)", "files (constructor)"};
static const char* POS[] = {"no positions", "positions on reading", "SetCalcPositions", "GetRasterPositionData"};
// the reference when the first layer has no data: multi-layer files drop the other layers there (documented: the first layer acts as mask)
template <typename T> static clsRasterData<T>* make(mc::X& x, int way, bool calc, G& g, vector<clsRasterData<T>*>& others) {
    STRING_MAP o; typedef clsRasterData<T> R; R* r = nullptr;
    switch (way) {
    case 0: r = from_data<T>(g); break;
    case 1: o[HEADER_RS_SRS] = "theplace"; o["MORE"] = "1"; r = from_data<T>(g, o); MC_EQ(x, "options", r->GetSrsString(), "theplace"); MC_EQ(x, "options", r->GetOption("MORE"), "1"); break;
    case 2: r = g.l == 1 ? new R(data1d<T>(g), g.c, g.r, (T)g.nd, g.cs, g.x, g.y, string("mysrs")) : new R(data2d<T>(g), g.c, g.r, g.l, (T)g.nd, g.cs, g.x, g.y, string("mysrs")); MC_EQ(x, "options", r->GetSrsString(), "mysrs"); break;
    case 3: r = R::Init(input_file(g, 0, 0), calc); break;
    case 4: r = new R(input_file(g, 0, 0), calc); break;
    case 5: r = R::Init(input_file(g, 0, 1), calc); break;
    case 6: { r = new R(); bool ok = r->ReadFromFile(input_file(g, 0, 1), calc); if (!ok && g.count()) x.fail("read", "ReadFromFile failed"); break; }
    case 7: { G m = g.layer(0); for (double& d : m.v) if (d != m.nd) d = 5; R* mask = from_data<T>(m); others.push_back(mask);
        vector<int> p = g.valid(); int n = (int)p.size(); if (n == 0) x.prune(); int ml = 0; int* mp = nullptr; mask->GetRasterPositionData(&ml, &mp); MC_EQ(x, "mask-count", ml, n);
        if (g.l == 1) { T* v = new T[n]; for (int i = 0; i < n; i++) v[i] = (T)g.v[p[i]]; r = new R(mask, v, n); delete[] v; }
        else { T** v = nullptr; Initialize2DArray(n, g.l, v, (T)0); for (int i = 0; i < n; i++) for (int k = 0; k < g.l; k++) v[i][k] = (T)g.v[p[i] * g.l + k]; r = new R(mask, v, n, g.l); Release2DArray(v); }
        MC_TRUE(x, "initialized", r->Initialized()); break; }
    case 8: { R* s = from_data<T>(g); others.push_back(s); if (calc) s->SetCalcPositions(); r = new R(s); break; }
    case 9: { R* s = from_data<T>(g); others.push_back(s); if (calc) s->SetCalcPositions(); r = new R(); r->Copy(s); break; }
    case 10: case 11: { vector<string> f; for (int k = 0; k < g.l; k++) f.push_back(input_file(g, k, way == 10 ? 0 : 1)); if (way == 10) r = R::Init(f, calc); else r = new R(f, calc); break; }
    }
    return r;
}
template <typename T> static void created(mc::X& x, G g, int way, int pos) { int l = g.l; bool multi = way >= 10 && l > 1;
    x.note("%s, %s: %s", WAYS[way], POS[pos], g.show().c_str());
    vector<clsRasterData<T>*> others; clsRasterData<T>* r = make<T>(x, way, pos == 1, g, others);
    if (!r) { x.fail("create", "no raster was created"); for (auto* o : others) delete o; return; }
    if (multi) for (int i = 0; i < g.r * g.c; i++) if (g.v[i * l] == g.nd) for (int k = 1; k < l; k++) g.v[i * l + k] = g.nd;
    if (pos == 2) { bool ok = r->SetCalcPositions(); if (!ok) x.fail("calc", "SetCalcPositions failed"); }
    if (pos == 3) { int n = 0; int** p = nullptr; int* q = nullptr; r->GetRasterPositionData(&n, &p); r->GetRasterPositionData(&n, &q); }
    vector<int> list = g.valid(); bool P = pos || way == 7;
    bool ok = same(x, string("create"), r, g, &list, P ? 1 : 0);
    x.outcome(g.show() + (P ? "p" : "f"));
    if (ok) {     // wholesale writing, then reading
        T* d1 = nullptr; T** d2 = nullptr; int n = 0, nl = 0; if (l == 1) r->GetRasterData(&n, &d1); else r->Get2DRasterData(&n, &nl, &d2);
        G h = g; for (int i = 0; i < n; i++) { int cell = P ? list[i] : i; for (int k = 0; k < l; k++) { double v = std::is_unsigned<T>::value ? 200 - i % 190 - k : 30000 - 10 * (i % 2900) - k; if (l == 1) d1[i] = (T)v; else d2[i][k] = (T)v; h.v[cell * l + k] = v; } }
        if (P && l > 1) for (int i = 0; i < g.r * g.c; i++) if (!std::binary_search(list.begin(), list.end(), i)) for (int k = 0; k < l; k++) h.v[i * l + k] = h.nd;
        same(x, string("wholesale"), r, h, &list, P ? 1 : 0);
    }
    delete r; for (auto* o : others) delete o;
}
template <typename T> static void create(mc::X& x, int nshape, int lmax) {
    int l = lmax == 1 ? 1 : x.range(2, lmax); G g = grid<T>(x, nshape, l, nodata<T>()); int way, pos;
    if (l == 1) { way = x.choose(11); if (way == 10 && l == 1) way = 10; } else { static const int W[] = {0, 1, 2, 7, 8, 9, 10, 11}; way = W[x.choose(8)]; }
    pos = x.choose(4); if (!x.mine()) return;
    if (way == 7 && pos) x.prune();
    bool atread = (way >= 3 && way <= 6) || way >= 8; if (pos == 1 && !atread) x.prune();
    pattern<T>(x, g); bool multi = way >= 10 && l > 1;
    if (g.count() == 0) { if (way == 7) x.prune(); if (pos || way == 8 || way == 9) x.prune(); if (multi) x.prune(); }      // a raster without any valid cell has no positions
    created<T>(x, g, way, pos);
}
template <typename T> static void sizes(mc::X& x) {
    int s = x.choose(NSIZES), kind = x.choose(NKINDS), l = few_or_many(x), way = x.choose(12), pos = x.choose(4); if (!x.mine()) return; if (l > 2 && s > (x.thorough ? 3 : 2)) return; if (l == 1 ? way == 11 : way >= 3 && way <= 6) return;
    bool atread = (way >= 3 && way <= 6) || way >= 8; if ((pos == 1 && !atread) || (way == 7 && pos)) return; if (!x.thorough && (kind + way + pos) % 3 && s < 4) return; if (!x.thorough && s >= 4 && (kind * 5 + way + pos) % (s == 5 ? 24 : 10)) return; created<T>(x, sized<T>(s, kind, l, nodata<T>()), way, pos);
}
#if PART == 0
MC_BODY(ints, 24) { create<int>(x, x.thorough ? 10 : 9, 1); }
#endif
#if PART == 1
MC_BODY(floats, 16) { create<float>(x, 8, 1); }
#endif
#if PART == 2
MC_BODY(doubles, 16) { create<double>(x, 7, 1); }
#endif
#if PART == 3
MC_BODY(bytes, 8) { create<unsigned char>(x, 7, 1); }
#endif
#if PART == 4
MC_BODY(shorts, 8) { create<short>(x, 6, 1); }
#endif
#if PART == 5
MC_BODY(longs, 8) { create<vint64_t>(x, 6, 1); }
#endif
#if PART == 0
MC_BODY(layers_int, 16) { create<int>(x, x.thorough ? 8 : 6, x.thorough ? 3 : 2); }
#endif
#if PART == 1
MC_BODY(layers_float, 16) { create<float>(x, 5, 3); }
#endif
// every sequence of single-cell writes
template <typename T> static void writes(mc::X& x, int l) {
    static const int S[][2] = {{1,2},{2,2},{1,3}}; int s = x.choose(3); G g(S[s][0], S[s][1], l, nodata<T>()); int n = g.r * g.c; bool calc = x.flag();
    unsigned pat = x.choose(1 << n); if (!x.mine()) return; if (pat == 0) x.prune();
    for (int i = 0; i < n; i++) for (int k = 0; k < l; k++) if ((pat >> i & 1) || k) g.v[i * l + k] = cellv<T>(i, k);
    clsRasterData<T>* r = from_data<T>(g); string h = g.show(); if (calc) r->SetCalcPositions(); vector<int> list = g.valid();
    int len = x.choose(x.thorough ? 4 : 3); if (calc) for (int i = 0; i < n; i++) if (!(pat >> i & 1)) for (int k = 0; k < l; k++) g.v[i * l + k] = g.nd;
    x.note("%s%s; ", h.c_str(), calc ? " with positions" : "");
    for (int t = 0; t < len; t++) {
        int cell = x.choose(n), k = x.choose(l), w = x.choose(3); double v = w == 0 ? 77 + t : w == 1 ? 0 : g.nd; x.also("(%d,%d) layer %d := %g; ", cell / g.c, cell % g.c, k + 1, v);
        r->SetValue(cell / g.c, cell % g.c, (T)v, k + 1);
        if (!calc || (pat >> cell & 1)) g.v[cell * l + k] = v;
    }
    r->SetValue(-1, 0, (T)1); r->SetValue(g.r, 0, (T)1); r->SetValue(0, g.c, (T)1); r->SetValue(0, 0, (T)1, l + 1); r->SetValue(0, 0, (T)1, 0);    // refused
    x.outcome(g.show()); same(x, string("write"), r, g, calc ? &list : nullptr, calc);
    if (!calc && g.count()) { r->SetCalcPositions(); same(x, string("write-then-positions"), r, g, nullptr, 1); }
    delete r;
}
#if PART == 0
MC_BODY(writes_int, 8) { writes<int>(x, 1); }
#endif
#if PART == 1
MC_BODY(writes_float, 8) { writes<float>(x, 1); }
#endif
#if PART == 2
MC_BODY(writes_layers, 8) { writes<double>(x, 2); }
#endif
#if PART == 3
MC_BODY(bytes_writes, 4) { writes<unsigned char>(x, 1); }
#endif
#if PART == 1
// reading again into the same object
MC_BODY(reread, 4) {
    auto mk = [&](int s, unsigned p, int l) { G g(SHAPES[s][0], SHAPES[s][1], l, -9999); for (int i = 0; i < g.r * g.c; i++) for (int k = 0; k < l; k++) if (p >> (i % 3) & 1 || i == 0) g.v[i * l + k] = cellv<float>(i, k) + s; return g; };
    FR* r = new FR(); int n = x.range(1, x.thorough ? 3 : 2); x.note("one object reads: ");
    for (int t = 0; t < n; t++) {
        static const int S[] = {0, 5, 9, 3}; int s = S[x.choose(4)]; unsigned p = x.choose(3) * 3 + 1; int kind = x.choose(3); bool calc = x.flag(); if (t == 0 && !x.mine()) { delete r; return; }
        G g = mk(s, p, kind == 2 ? 2 : 1); x.also("%s%s; ", g.show().c_str(), calc ? " pos" : ""); bool ok;
        if (kind < 2) ok = r->ReadFromFile(input_file(g, 0, kind), calc); else { vector<string> f; for (int k = 0; k < 2; k++) f.push_back(input_file(g, k, 0)); ok = r->ReadFromFiles(f, calc); for (int i = 0; i < g.r * g.c; i++) if (g.v[i * 2] == g.nd) g.v[i * 2 + 1] = g.nd; }
        if (!ok) { x.fail("reread", "reading failed"); break; } if (!same(x, "reread", r, g, nullptr, calc)) break;
    }
    delete r;
}
#endif
#if PART == 5
MC_BODY(sizes_int, 32) { sizes<int>(x); }
#endif
#if PART == 4
MC_BODY(sizes_float, 32) { sizes<float>(x); }
#endif
#if PART == 3
MC_BODY(sizes_byte, 32) { sizes<unsigned char>(x); }
#endif
