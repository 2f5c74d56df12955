// A01: array helpers: exact contents, whole extent writable, memory released exactly once, allocation failures
#include "mc.hpp"
#include <algorithm>
#include <stdexcept>
#include "utils_array.h"
using namespace ccgl::utils_array;
using std::string; using std::vector;
static int alloc_fail_at = -1, alloc_calls = 0;
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (alloc_calls++ == alloc_fail_at) return nullptr; return ::operator new[](n); }

template <typename T> static T val(int i) { return static_cast<T>((i * 37 + 11) % 120 - 3 * (i % 2)); }
static int sizes(mc::X& x) { static const int S[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 1000}; return S[x.choose(15)]; }
template <typename T> struct Guard { T* a; T* b; Guard() { a = new T[3]; b = new T[3]; for (int i = 0; i < 3; i++) a[i] = b[i] = val<T>(i + 5); }
    bool ok() { for (int i = 0; i < 3; i++) if (a[i] != val<T>(i + 5) || b[i] != val<T>(i + 5)) return false; return true; } ~Guard() { delete[] a; delete[] b; } };

template <typename T, typename I> static void one_dim(mc::X& x) {
    int n = sizes(x), mode = x.choose(3); I c = val<I>(x.choose(3));
    x.note("1D, %d elements of %zu bytes from %zu bytes, mode %d", n, sizeof(T), sizeof(I), mode);
    size_t live = mc::live_blocks(); bool bad = false, flag, flag2, same = true; T* p = nullptr; bool nul;
    { Guard<T> g;
      if (mode == 0) flag = Initialize1DArray(n, p, c);
      else { I* src = new I[n]; for (int i = 0; i < n; i++) src[i] = val<I>(i + (int)c); flag = Initialize1DArray(n, p, src); for (int i = 0; i < n; i++) if (src[i] != val<I>(i + (int)c)) bad = true; delete[] src; }
      if (p) for (int i = 0; i < n; i++) if (p[i] != static_cast<T>(mode == 0 ? c : val<I>(i + (int)c))) bad = true;
      T* q = p; flag2 = mode == 2 ? Initialize1DArray(n, q, p) : Initialize1DArray(n + 1, q, c); if (q != p) same = false;      // an array in use is not replaced
      if (p) { for (int i = 0; i < n; i++) if (p[i] != static_cast<T>(mode == 0 ? c : val<I>(i + (int)c))) same = false; for (int i = 0; i < n; i++) p[i] = val<T>(i); for (int i = 0; i < n; i++) if (p[i] != val<T>(i)) bad = true; }
      if (!g.ok()) bad = true;
      if (mode == 1) BatchRelease1DArray(p, nullptr); else Release1DArray(p); nul = p == nullptr; Release1DArray(p);
      if (!g.ok()) bad = true; }
    size_t now = mc::live_blocks();
    MC_EQ(x, "init-result", flag, true); MC_EQ(x, "init-in-use", flag2, false); MC_EQ(x, "in-use-kept", same, true); MC_EQ(x, "contents", bad, false);
    MC_EQ(x, "pointer-reset", nul, true); MC_EQ(x, "memory-released", now, live);
}
template <typename T, typename I> static void two_dim(mc::X& x) {
    int r = x.range(1, 6), c = x.range(1, 6), mode = x.choose(2), big = x.choose(4); if (big == 1) r *= 50; if (big == 2) c *= 50; if (big == 3) { r *= 7; c *= 7; }
    I v = val<I>(x.choose(2));
    x.note("2D %d x %d of %zu bytes from %zu bytes, mode %d", r, c, sizeof(T), sizeof(I), mode);
    size_t live = mc::live_blocks(); bool bad = false, contig = true, flag, flag2, nul; T** p = nullptr;
    { Guard<T> g;
      if (mode == 0) flag = Initialize2DArray(r, c, p, v);
      else { I** s = nullptr; Initialize2DArray(r, c, s, v); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s[i][j] = val<I>(i * c + j);
             flag = Initialize2DArray(r, c, p, s); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (s[i][j] != val<I>(i * c + j)) bad = true; Release2DArray(s); }
      if (p) for (int i = 0; i < r; i++) { if (p[i] != p[0] + i * c) contig = false; for (int j = 0; j < c; j++) if (p[i][j] != static_cast<T>(mode == 0 ? v : val<I>(i * c + j))) bad = true; }
      T** q = p; flag2 = Initialize2DArray(r, c, q, v); if (q != p) bad = true;
      if (p) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) p[i][j] = val<T>(i + 3 * j); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (p[i][j] != val<T>(i + 3 * j)) bad = true; }
      if (!g.ok()) bad = true;
      Release2DArray(p); nul = p == nullptr; Release2DArray(p); if (!g.ok()) bad = true; }
    size_t now = mc::live_blocks();
    MC_EQ(x, "init-result", flag, true); MC_EQ(x, "init-in-use", flag2, false); MC_EQ(x, "contents", bad, false); MC_EQ(x, "contiguous", contig, true);
    MC_EQ(x, "pointer-reset", nul, true); MC_EQ(x, "memory-released", now, live);
}
template <typename A, typename B> static void flat(mc::X& x) {
    int rows = x.range(1, x.thorough ? 5 : 4); vector<int> n(rows); vector<A> d(1, (A)rows);
    for (int i = 0; i < rows; i++) { n[i] = x.choose(4); d.push_back((A)n[i]); for (int j = 0; j < n[i]; j++) d.push_back(val<A>(i * 4 + j)); }
    string s; for (A v : d) s += std::to_string(v) + " "; x.note("flat %s", s.c_str());
    A* src = new A[d.size()]; std::copy(d.begin(), d.end(), src); size_t live = mc::live_blocks();
    int gr = -7, gc = -7; B** p = nullptr; bool flag = Initialize2DArray(src, gr, gc, p), bad = false;
    if (p) for (int i = 0; i < rows; i++) { if (p[i][0] != (B)n[i]) bad = true; for (int j = 0; j < n[i]; j++) if (p[i][j + 1] != static_cast<B>(val<A>(i * 4 + j))) bad = true; if (i && p[i] != p[i - 1] + n[i - 1] + 1) bad = true; }
    for (size_t i = 0; i < d.size(); i++) if (src[i] != d[i]) bad = true;
    if (p) for (int i = 0; i < rows; i++) for (int j = 0; j <= n[i]; j++) p[i][j] = 1;
    Release2DArray(p); size_t now = mc::live_blocks(); delete[] src;
    MC_EQ(x, "flat-result", flag, true); MC_EQ(x, "flat-rows", gr, rows); MC_EQ(x, "flat-max-columns", gc, *std::max_element(n.begin(), n.end())); MC_EQ(x, "flat-contents", bad, false);
    MC_TRUE(x, "pointer-reset", p == nullptr); MC_EQ(x, "memory-released", now, live);
}
MC_BODY(vectors, 1) {
    switch (x.choose(8)) { case 0: one_dim<int, int>(x); break; case 1: one_dim<float, double>(x); break; case 2: one_dim<double, int>(x); break; case 3: one_dim<ccgl::vint8_t, int>(x); break;
        case 4: one_dim<ccgl::vint64_t, short>(x); break; case 5: one_dim<short, float>(x); break; case 6: one_dim<int, double>(x); break; default: one_dim<double, float>(x); }
}
MC_BODY(matrices, 1) {
    switch (x.choose(6)) { case 0: two_dim<int, int>(x); break; case 1: two_dim<float, double>(x); break; case 2: two_dim<double, int>(x); break; case 3: two_dim<ccgl::vint8_t, int>(x); break;
        case 4: two_dim<ccgl::vint64_t, short>(x); break; default: two_dim<int, float>(x); }
}
MC_BODY(flats, 1) { switch (x.choose(4)) { case 0: flat<int, int>(x); break; case 1: flat<float, double>(x); break; case 2: flat<double, float>(x); break; default: flat<int, double>(x); } }
MC_BODY(refused, 1) {
    int k = x.choose(12); int n = x.range(-2, 0); x.note("refused request %d (%d)", k, n);
    size_t live = mc::live_blocks(); bool flag = true; int* p = nullptr; int** q = nullptr; int* none = nullptr;
    if (k == 0) flag = Initialize1DArray(n, p, 3); else if (k == 1) flag = Initialize1DArray(3, p, none); else if (k == 2) flag = Initialize2DArray(n, 2, q, 1); else if (k == 3) flag = Initialize2DArray(2, n, q, 1);
    else { alloc_calls = 0; alloc_fail_at = k == 7 || k == 9 || k == 11 ? 1 : 0; if (k == 4) flag = Initialize1DArray(4, p, 3); else if (k == 5) { int s[4] = {1, 2, 3, 4}; flag = Initialize1DArray(4, p, s); } else if (k == 8 || k == 9) { int r0[2] = {1, 2}, r1[2] = {3, 4}; int* src[2] = {r0, r1}; flag = Initialize2DArray(2, 2, q, src); } else if (k > 9) { int f[8] = {3, 1, 5, 2, 6, 7, 1, 8}; int rr, mc_; flag = Initialize2DArray(f, rr, mc_, q); } else flag = Initialize2DArray(3, 2, q, 1); alloc_fail_at = -1; }
    size_t now = mc::live_blocks(); bool isnull = !p && !q; if (!isnull) {}
    MC_EQ(x, "refusal-reported", flag, false); MC_EQ(x, "refusal-memory", now, live); MC_EQ(x, "refusal-pointer", isnull, true);
}
MC_BODY(batches, 1) {
    int n = x.range(1, 4), two = x.choose(2), sz = x.range(1, 4); x.note("batch release of %d arrays", n); bool ok = true;
    size_t live = mc::live_blocks(); int* a[4] = {0, 0, 0, 0}; int** b[4] = {0, 0, 0, 0}; int* other = nullptr; Initialize1DArray(3, other, 9);
    for (int i = 0; i < n; i++) { if (two) Initialize2DArray(sz, sz + i, b[i], i); else Initialize1DArray(sz + i, a[i], i); }
    if (!two) { if (n == 1) BatchRelease1DArray(a[0], nullptr); else if (n == 2) BatchRelease1DArray(a[0], a[1], nullptr); else if (n == 3) BatchRelease1DArray(a[0], a[1], a[2], nullptr); else BatchRelease1DArray(a[0], a[1], a[2], a[3], nullptr); }
    else { if (n == 1) BatchRelease2DArray(sz, b[0], nullptr); else if (n == 2) BatchRelease2DArray(sz, b[0], b[1], nullptr); else if (n == 3) BatchRelease2DArray(sz, b[0], b[1], b[2], nullptr); else BatchRelease2DArray(sz, b[0], b[1], b[2], b[3], nullptr); }
    for (int i = 0; i < 3; i++) if (other[i] != 9) ok = false; Release1DArray(other);
    size_t now = mc::live_blocks(); MC_EQ(x, "batch-memory", now, live); MC_EQ(x, "batch-others", ok, true);
}
static void warm(mc::X&) { int n = 0;
#pragma omp parallel for reduction(+:n)
    for (int i = 0; i < 3; i++) n += i;
}
static struct Warm { Warm() { mc::worker_init = warm; } } warm_;
