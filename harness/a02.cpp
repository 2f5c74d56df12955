// A02: the dynamic 2-D array as a value, and value lists
#include "mc.hpp"
#include <algorithm>
#include <stdexcept>
#include "utils_array.h"
using namespace ccgl::utils_array;
using std::string; using std::vector;
template <typename T> static T mk(int i);
template <> int mk<int>(int i) { return 100 + i; }
template <> double mk<double>(int i) { return 0.5 + i; }
template <> string mk<string>(int i) { return "a long enough text to be on the heap " + std::to_string(i); }
template <typename T> struct M { bool alive; unsigned r, c; vector<T> v; M(): alive(false), r(0), c(0) {} };

template <typename T> static void values(mc::X& x) {
    const int N = 3; Array2D<T>* o[N] = {0, 0, 0}; M<T> m[N]; int depth = x.thorough ? 5 : 4, fresh = 0;
    static const unsigned D[][2] = {{1, 1}, {2, 3}, {3, 1}};
    auto verify = [&](const char* key) {
        for (int i = 0; i < N; i++) if (m[i].alive) {
            MC_EQ(x, "rows", o[i]->get_rows(), m[i].r); MC_EQ(x, "columns", o[i]->get_cols(), m[i].c);
            if (o[i]->get_rows() != m[i].r || o[i]->get_cols() != m[i].c) continue;
            bool same = true; const Array2D<T>& co = *o[i];
            for (unsigned a = 0; a < m[i].r; a++) for (unsigned b = 0; b < m[i].c; b++) if (!(co[a][b] == m[i].v[a * m[i].c + b]) || &co[a][b] != &(*o[i])[a][b] || o[i]->data()[a] != co[a]) same = false;
            if (!same) x.fail(key, "contents of object %d changed", i); x.step();
        }
    };
    auto resync = [&](int j) {           // a moved-from object is valid but unspecified
        m[j].r = o[j]->get_rows(); m[j].c = o[j]->get_cols(); m[j].v.clear();
        if (!o[j]->data()) { MC_EQ(x, "moved-from-shape", (unsigned)(m[j].r * m[j].c), 0u); m[j].r = m[j].c = 0; o[j]->get_rows(); }
        for (unsigned a = 0; a < m[j].r; a++) for (unsigned b = 0; b < m[j].c; b++) m[j].v.push_back((*o[j])[a][b]);
    };
    x.note("%s:", sizeof(T) == 4 ? "int" : sizeof(T) == 8 ? "double" : "string");
    size_t live = mc::live_blocks();
    for (int s = 0; s < depth; s++) {
        int i = x.choose(N), op = x.choose(9); if (s == 0) { if (i) x.prune(); }
        if (s == 1 && !x.mine()) { for (int k = 0; k < N; k++) delete o[k]; return; }
        int j = -1, d = 0;
        if (op >= 2 && op <= 5) j = x.choose(N); if (op <= 1 || op == 6) d = x.choose(3);
        bool make = op <= 3 && op != 1;
        if (op == 0 || op == 8) { delete o[i]; o[i] = 0; m[i] = M<T>(); }
        if (op == 0) { T v = mk<T>(fresh++); o[i] = new Array2D<T>(D[d][0], D[d][1], v); m[i].alive = true; m[i].r = D[d][0]; m[i].c = D[d][1]; m[i].v.assign(m[i].r * m[i].c, v); x.also(" new%d(%u,%u)", i, m[i].r, m[i].c); }
        else if (op == 8) { o[i] = new Array2D<T>(); m[i].alive = true; x.also(" empty%d", i); }
        else if (op == 1) { if (!m[i].alive) x.prune(); T v = mk<T>(fresh++); o[i]->create(D[d][0], D[d][1], v); m[i].r = D[d][0]; m[i].c = D[d][1]; m[i].v.assign(m[i].r * m[i].c, v); x.also(" create%d(%u,%u)", i, m[i].r, m[i].c); }
        else if (op == 2 || op == 3) {
            if (j == i || !m[j].alive) { for (int k = 0; k < N; k++) delete o[k]; x.prune(); }
            delete o[i]; o[i] = 0;
            if (op == 2) { o[i] = new Array2D<T>(*o[j]); m[i] = m[j]; x.also(" %d(copy %d)", i, j); }
            else { M<T> t = m[j]; o[i] = new Array2D<T>(std::move(*o[j])); m[i] = t; resync(j); x.also(" %d(move %d)", i, j); }
        } else if (op == 4 || op == 5) {
            if (!m[i].alive || !m[j].alive) { for (int k = 0; k < N; k++) delete o[k]; x.prune(); }
            if (op == 4) { *o[i] = *o[j]; m[i] = M<T>(m[j]); x.also(" %d=%d", i, j); }
            else { M<T> t = m[j]; *o[i] = std::move(*o[j]); if (i != j) { m[i] = t; resync(j); } x.also(" %d=move %d", i, j); }
        } else if (op == 6) {
            if (!m[i].alive || m[i].v.empty()) { for (int k = 0; k < N; k++) delete o[k]; x.prune(); }
            size_t k = d == 0 ? 0 : d == 1 ? m[i].v.size() - 1 : m[i].v.size() / 2; T v = mk<T>(fresh++); (*o[i])[k / m[i].c][k % m[i].c] = v; m[i].v[k] = v; x.also(" write%d[%zu]", i, k);
        } else { if (!m[i].alive) { for (int k = 0; k < N; k++) delete o[k]; x.prune(); } delete o[i]; o[i] = 0; m[i] = M<T>(); x.also(" destroy%d", i); }
        x.step(); verify("contents");
    }
    for (int k = 0; k < N; k++) { delete o[k]; o[k] = 0; m[k] = M<T>(); verify("contents-after-destroy"); }
    (void)live;
}
MC_BODY(objects_int, 16) { values<int>(x); }
MC_BODY(objects_double, 16) { values<double>(x); }
MC_BODY(objects_string, 16) { values<string>(x); }
// memory accounting over short lifecycles (no bookkeeping of the harness in between)
MC_BODY(memory, 1) {
    int k = x.choose(12), r = x.range(1, 3), c = x.range(1, 3); x.note("lifecycle %d, %d x %d", k, r, c); size_t live = mc::live_blocks();
    { Array2D<double> a(r, c, 1.), e; Array2D<double>* p = 0;
      switch (k) { case 0: break; case 1: { Array2D<double> b(a); break; } case 2: { Array2D<double> b(std::move(a)); break; } case 3: { Array2D<double> b; b = a; break; }
        case 4: { Array2D<double> b(2, 2); b = std::move(a); break; } case 5: a = a; break; case 6: a.create(r + 1, c); break; case 7: e.create(r, c, 3.); break;
        case 8: p = new Array2D<double>(a); *p = e; delete p; break; case 9: { Array2D<double> b(e); b = a; a = b; break; } case 10: a = Array2D<double>(r, 2 * c); break; default: { Array2D<double> b(std::move(a)); Array2D<double> d(a); a = b; } } }
    MC_EQ(x, "memory", mc::live_blocks(), live);
    bool t1 = false, t2 = false; try { Array2D<int> z(0, c); } catch (std::invalid_argument&) { t1 = true; } try { Array2D<int> z(r, 0); } catch (std::invalid_argument&) { t2 = true; }
    MC_TRUE(x, "empty-refused", t1 && t2);
}
template <typename T> static void lists(mc::X& x) {
    int n = x.choose(x.thorough ? 8 : 6); vector<T> v; string s; for (int i = 0; i < n; i++) { int k = x.choose(3); v.push_back(mk<T>(k)); s += std::to_string(k); } int q = x.choose(4); T val = mk<T>(q);
    x.note("list %s, value %d", s.c_str(), q);
    vector<T> want; bool in = false; for (auto& e : v) if (e == val) in = true; else want.push_back(e);
    vector<T> got(v); MC_EQ(x, "member", ValueInVector(val, got), in); MC_TRUE(x, "member-keeps", got == v);
    RemoveValueInVector(val, got); MC_TRUE(x, "remove", got == want); MC_EQ(x, "member-after", ValueInVector(val, got), false);
}
MC_BODY(value_lists, 1) { switch (x.choose(3)) { case 0: lists<int>(x); break; case 1: lists<double>(x); break; default: lists<string>(x); } }
// arrays and lists beyond any narrow counter
template <typename T> static void large(mc::X& x) {
    static const unsigned D[][2] = {{1, 300}, {300, 1}, {255, 257}, {256, 256}, {257, 255}, {1, 70000}, {70000, 1}, {5, 33000}}; int di = x.choose(8); if (!x.mine()) return;
    unsigned r = D[di][0], c = D[di][1]; int op = x.choose(9); x.note("%u x %u array of elements of %zu bytes, use %d", r, c, sizeof(T), op);
    auto fill = [&](Array2D<T>& a, int s) { for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) a[i][j] = mk<T>((int)(i * c + j) + s); };
    auto holds = [&](Array2D<T>& a, int s, const char* key) { MC_EQ(x, "rows", a.get_rows(), r); MC_EQ(x, "columns", a.get_cols(), c); if (a.get_rows() != r || a.get_cols() != c) return;
        const Array2D<T>& k = a; for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) if (!(k[i][j] == mk<T>((int)(i * c + j) + s)) || &k[i][j] != &a.data()[i][j]) { x.fail(key, "element (%u, %u) differs", i, j); return; } x.step(); };
    T v = mk<T>(-5); Array2D<T> a(r, c, v); for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) if (!(a[i][j] == v)) { x.fail("initial", "element (%u, %u) differs", i, j); return; }
    fill(a, 0); holds(a, 0, "large-own");
    switch (op) {
        case 0: { Array2D<T> b(a); fill(a, 3); holds(b, 0, "large-copy"); fill(b, 7); holds(a, 3, "large-copied"); break; }
        case 1: { Array2D<T> b(2, 2); b = a; fill(a, 3); holds(b, 0, "large-assigned"); holds(a, 3, "large-source"); break; }
        case 2: { Array2D<T> b(c, r, v); b = a; fill(a, 3); holds(b, 0, "large-assigned"); break; }      // the same number of elements, other shape
        case 3: { Array2D<T> b(r, c, v); b = a; fill(a, 3); holds(b, 0, "large-assigned"); break; }
        case 4: { Array2D<T> b(std::move(a)); holds(b, 0, "large-moved"); break; }
        case 5: { Array2D<T> b(2, 2); b = std::move(a); holds(b, 0, "large-moved"); break; }
        case 6: { Array2D<T> b(a); a.create(1, 1, v); holds(b, 0, "large-after-create"); MC_EQ(x, "rows", a.get_rows(), 1u); MC_TRUE(x, "create", a[0][0] == v); break; }
        case 7: { Array2D<T>& s = a; a = s; holds(a, 0, "large-self"); break; }
        default: { Array2D<T> b(1, 1, v); b.create(r, c, v); fill(b, 0); holds(b, 0, "large-create"); holds(a, 0, "large-other"); } }
}
MC_BODY(large_int, 8) { large<int>(x); }
MC_BODY(large_double, 8) { large<double>(x); }
MC_BODY(large_string, 8) { large<string>(x); }
MC_BODY(large_lists, 1) {
    static const int N[] = {127, 128, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 70000}; int n = N[x.choose(11)], k = x.choose(6); x.note("list of %d values, the wanted ones in way %d", n, k);
    vector<int> v; for (int i = 0; i < n; i++) { bool w = k == 0 ? i == n - 1 : k == 1 ? i == 0 : k == 2 ? i % 2 : k == 3 ? i >= n / 2 : k == 4 ? i == 65536 || i == n / 2 : false; v.push_back(w ? -1 : i); }
    vector<int> want; bool in = false; for (int e : v) if (e == -1) in = true; else want.push_back(e);
    vector<int> got(v); MC_EQ(x, "member", ValueInVector(-1, got), in); MC_TRUE(x, "member-keeps", got == v);
    RemoveValueInVector(-1, got); MC_TRUE(x, "remove", got == want); MC_EQ(x, "member-after", ValueInVector(-1, got), false);
}
