// R13: whatever fails while a raster is written, success is reported only for a complete file
#include "raster.hpp"
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <csignal>
#include <cerrno>
// ---- fault injector: every operation on files and directories below out/ may fail once (or, from then on, always)
static mc::X* armed = nullptr; static int left_ = 0; static bool sticky = false, dead = false; static int fired = 0, calls = 0; struct Path { char p[400]; bool empty() const { return !p[0]; } void clear() { p[0] = 0; } void operator=(const char* s) { snprintf(p, sizeof p, "%s", s); } operator string() const { return p; } }; static Path fdpath[256];
static bool strike(const char* what) { if (!armed) return false; mc::X* x = armed; calls++; if (dead) { fired++; return true; } if (!left_) return false; armed = nullptr; bool f = x->flag(); armed = x; if (!f) return false; left_--; fired++; if (sticky) dead = true; x->also(" [%s fails]", what); return true; }
static bool ours(const char* p) { return armed && p && strstr(p, "/out"); }
static bool mine_fd(int fd) { return armed && fd >= 0 && fd < 256 && !fdpath[fd].empty(); }
static void lose(const string& p) { struct stat st; if (!stat(p.c_str(), &st)) { if (truncate(p.c_str(), st.st_size / 2)) {} } }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" {
FILE* fopen(const char* p, const char* m) { REAL(FILE*, fopen, const char*, const char*); if (ours(p) && strcmp(m, "r") && strcmp(m, "rb") && strike("open")) { errno = ENOSPC; return nullptr; } FILE* f = real(p, m); if (f && ours(p) && fileno(f) < 256) fdpath[fileno(f)] = p; return f; }
FILE* fopen64(const char* p, const char* m) { REAL(FILE*, fopen64, const char*, const char*); if (ours(p) && strcmp(m, "r") && strcmp(m, "rb") && strike("open")) { errno = ENOSPC; return nullptr; } FILE* f = real(p, m); if (f && ours(p) && fileno(f) < 256) fdpath[fileno(f)] = p; return f; }
ssize_t write(int fd, const void* b, size_t n) { REAL(ssize_t, write, int, const void*, size_t); if (mine_fd(fd) && strike("write")) { errno = ENOSPC; return -1; } return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { REAL(ssize_t, writev, int, const struct iovec*, int); if (mine_fd(fd) && strike("write")) { errno = ENOSPC; return -1; } return real(fd, v, n); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { REAL(size_t, fwrite, const void*, size_t, size_t, FILE*); if (armed && f && mine_fd(fileno(f)) && strike("write")) { errno = ENOSPC; return 0; } return real(b, s, n, f); }
int fflush(FILE* f) { REAL(int, fflush, FILE*); if (armed && f && mine_fd(fileno(f)) && strike("flush")) { string p = fdpath[fileno(f)]; real(f); lose(p); errno = ENOSPC; return EOF; } return real(f); }
int fclose(FILE* f) { REAL(int, fclose, FILE*); int fd = f ? fileno(f) : -1; string p = mine_fd(fd) ? string(fdpath[fd]) : string(); if (fd >= 0 && fd < 256) fdpath[fd].clear(); bool fail = !p.empty() && strike("close"); int r = real(f); if (fail) { lose(p); errno = ENOSPC; return EOF; } return r; }
int close(int fd) { REAL(int, close, int); string p = mine_fd(fd) ? string(fdpath[fd]) : string(); if (fd >= 0 && fd < 256) fdpath[fd].clear(); bool fail = !p.empty() && strike("close"); int r = real(fd); if (fail) { lose(p); errno = EIO; return -1; } return r; }
int mkdir(const char* p, mode_t m) { REAL(int, mkdir, const char*, mode_t); if (ours(p) && strike("mkdir")) { errno = ENOSPC; return -1; } return real(p, m); }
int remove(const char* p) { REAL(int, remove, const char*); if (ours(p) && strike("remove")) { errno = EPERM; return -1; } return real(p); }
int unlink(const char* p) { REAL(int, unlink, const char*); if (ours(p) && strike("remove")) { errno = EPERM; return -1; } return real(p); }
}
static void init(mc::X&) { warm(); signal(SIGXFSZ, SIG_IGN); }
static struct Init { Init() { mc::worker_init = init; } } init_;
static const int SHAPES[][2] = {{2,2},{3,1},{1,1},{24,10},{130,40}};
static const char* WAY[] = {"whole", "compact", "combined subsets", "single subsets"}; static const char* WHERE[] = {"new file", "over an existing file", "into a new directory", "below a file", "onto a directory"};
template <typename T> struct Job {       // a raster, a way of writing it, and what must be on disk when success is reported
    clsRasterData<T>* r; G g; int way, fmt, where; string dir, base; map<string, G> want; bool possible;
    Job(): r(0), possible(true) {} ~Job() { delete r; }
    bool write() { string f = base + (fmt ? ".tif" : ".asc"); return way < 2 ? r->OutputToFile(f) : r->OutputSubsetToFile(true, way == 2, f); }
    void make(mc::X& x, int s, int l, int w, int f, int wh) {
        way = w; fmt = f; where = wh; g = G(SHAPES[s][0], SHAPES[s][1], l, sizeof(T) == 1 ? 255 : -9999); int n = g.r * g.c; for (int i = 0; i < n; i++) for (int k = 0; k < l; k++) if (n == 1 || i % 4 != 3) g.v[i * l + k] = way >= 2 ? 1 + (i / 2) % 2 + k : (i * 7 + k) % 100;
        r = from_data<T>(g); if (way == 1) r->SetCalcPositions(); if (way >= 2) r->BuildSubSet();
        string root = x.scratch + "/out"; mc::clean_dir(root); mkdir(root.c_str(), 0777); dir = root; if (where == 2) { dir = root + "/a"; possible = fmt == 1; } if (where == 3) { put(root + "/a", "x"); dir = root + "/a"; possible = false; } base = dir + "/res"; string ext = fmt ? ".tif" : ".asc";
        if (way < 2) { for (int k = 0; k < l; k++) for (int num = 0; num < 2; num++) want[base + (l > 1 ? "_" + std::to_string(k + num) : string()) + (num ? "|" : "") + ext] = g.layer(k); }
        if (way >= 2) { possible = possible || where == 2; map<int, vector<int>> zones; for (int i = 0; i < n; i++) if (g.v[i * l] != g.nd) zones[(int)g.v[i * l]].push_back(i); for (auto& kv : zones) { int id = way == 2 ? 0 : kv.first; for (int k = 0; k < l; k++) { G o = g.layer(k); if (way == 3) { int r0 = g.r, r1 = 0, c0 = g.c, c1 = 0; for (int c : kv.second) { r0 = std::min(r0, c / g.c); r1 = std::max(r1, c / g.c); c0 = std::min(c0, c % g.c); c1 = std::max(c1, c % g.c); } o = G(r1 - r0 + 1, c1 - c0 + 1, 1, g.nd, g.cx(c0), g.cy(r1), g.cs); for (int c : kv.second) o.at(c / g.c - r0, c % g.c - c0) = g.at(c / g.c, c % g.c, k); } want[dir + "/" + std::to_string(id) + "_res" + (l > 1 ? "_" + std::to_string(k + 1) : string()) + ext] = o; } } }
        if (where == 1 || where == 4) for (auto& kv : want) { string q = kv.first; size_t b = q.find('|'); if (b != string::npos) q.erase(b, 1); if (where == 4) { mkdir(q.c_str(), 0777); mkdir((q + "/x").c_str(), 0777); possible = false; } else { G o(3, 3, 1, -1); for (auto& v : o.v) v = 77; if (fmt) tif_write(q, o, 0, GDT_Float64); else put(q, asc_text(o)); } }
    }
    bool complete(string& what) {      // whole layers may be numbered from 0 or from 1
        auto is = [&](const string& f, const G& w) { G h; struct stat st; if (stat(f.c_str(), &st)) { what = f.substr(f.rfind('/') + 1) + " is missing"; return false; } if (!(fmt ? tif_read(f, h) : asc_read(f, h))) { what = f.substr(f.rfind('/') + 1) + " is incomplete"; return false; }
            if (h.r != w.r || h.c != w.c || h.nd != w.nd || h.v != w.v || h.x != w.x || h.y != w.y || h.cs != w.cs) { { char b[200]; size_t d = 0; while (d < h.v.size() && d < w.v.size() && h.v[d] == w.v[d]) d++; snprintf(b, sizeof b, " does not hold the raster (%dx%d no-data %g @%.17g,%.17g/%g, expected %dx%d %g @%.17g,%.17g/%g, cell %zu is %g, expected %g)", h.r, h.c, h.nd, h.x, h.y, h.cs, w.r, w.c, w.nd, w.x, w.y, w.cs, d, d < h.v.size() ? h.v[d] : 0., d < w.v.size() ? w.v[d] : 0.); what = f.substr(f.rfind('/') + 1) + b; } return false; } return true; };
        if (way >= 2 || g.l == 1) { for (auto& kv : want) if (kv.first.find('|') == string::npos && !is(kv.first, kv.second)) return false; return true; }
        bool zero = false, one = true; string w0; { zero = true; for (auto& kv : want) if (kv.first.find('|') == string::npos && !is(kv.first, kv.second)) zero = false; } w0 = what; for (auto& kv : want) { size_t b = kv.first.find('|'); if (b != string::npos) { string q = kv.first; q.erase(b, 1); if (!is(q, kv.second)) one = false; } } return zero || one;
    }
};
template <typename T> static void verdict(mc::X& x, Job<T>& j, bool ok, bool must, const char* when) {
    string what; x.step(2 + j.g.r * j.g.c); if (ok && !j.complete(what)) { x.fail(string("reported-success-") + (j.fmt ? "tif" : "asc"), "%s: success is reported, but %s", when, what.c_str()); return; }
    if (!ok && must) x.fail(string("refused-") + (j.fmt ? "tif" : "asc"), "%s: failure is reported although nothing failed", when);
    if (j.where != 3 && j.where != 4 && !same(x, "raster-changed", j.r, j.g, nullptr, -1)) return;
}
template <typename T> static void fault(mc::X& x, int nshape, int l) {
    int s = x.choose(nshape), way = x.choose(4), fmt = x.choose(2), where = x.choose(5), budget = x.choose(x.thorough ? 3 : 2) + 1; if (!x.mine()) return; bool forever = budget == 1 ? false : budget == 2; int most = budget == 3 ? 2 : 1; if (where > 2 && budget > 1) return;
    Job<T> j; j.make(x, s, l, way, fmt, where); x.note("%s %s as %s %s:", j.g.r * j.g.c > 9 ? "large grid" : j.g.show().c_str(), WAY[way], fmt ? "GeoTIFF" : "ASCII grid", WHERE[where]);
    left_ = most; sticky = forever; dead = false; fired = calls = 0; armed = &x; bool ok; try { ok = j.write(); } catch (mc::Prune&) { armed = nullptr; throw; } catch (std::exception& e) { armed = nullptr; x.fail("exception", "the output ends with an exception: %s", e.what()); return; } armed = nullptr; for (auto& p : fdpath) p.clear();
    verdict(x, j, ok, !fired && j.possible, fired ? "with the fault" : "without a fault"); x.outcome(string(WAY[way]) + WHERE[where] + std::to_string(fmt) + std::to_string(calls) + (fired ? "f" : "-") + (ok ? "t" : "-"));
    if (fired && j.possible && j.where < 2) { bool ok2 = j.write(); verdict(x, j, ok2, true, "written again after the fault"); }
}
// space runs out after every number of bytes
template <typename T> static void space(mc::X& x, int nshape, int l) {
    int s = x.choose(nshape), way = x.choose(4), fmt = x.choose(2), where = x.choose(2); Job<T> j; int chunk = x.choose(40); if (!x.mine()) return; j.make(x, s, l, way, fmt, where);
    static map<string, long> sizes; char key[80]; snprintf(key, sizeof key, "%d %d %d %d %zu%d", s, way, fmt, l, sizeof(T), (int)std::numeric_limits<T>::is_integer); if (!sizes.count(key)) { long m = 0; if (!j.write()) { x.fail("refused", "nothing failed"); return; } for (auto& f : list_dir(j.dir)) { struct stat st; stat((j.dir + "/" + f).c_str(), &st); m = std::max(m, (long)st.st_size); } sizes[key] = m; delete j.r; j.r = 0; j.want.clear(); j.make(x, s, l, way, fmt, where); }
    long size = sizes[key], per = (size + 8) / 40 + 1; int nsub = x.thorough || per <= 12 ? (int)per : 12; long lim = chunk * per + (nsub == per ? x.choose(nsub) : x.choose(nsub) * per / nsub); if (lim > size + 1) return;
    x.note("%s %s as %s %s: no space after %ld of %ld bytes", j.g.r * j.g.c > 9 ? "large grid" : j.g.show().c_str(), WAY[way], fmt ? "GeoTIFF" : "ASCII grid", WHERE[where], lim, size);
    struct rlimit o, q; getrlimit(RLIMIT_FSIZE, &o); q = o; q.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &q); bool ok; bool thrown = false; try { ok = j.write(); } catch (std::exception&) { thrown = true; ok = false; } setrlimit(RLIMIT_FSIZE, &o); if (thrown) { x.fail("exception", "the output ends with an exception"); return; }
    verdict(x, j, ok, lim >= size, "with limited space"); x.outcome(string(key) + std::to_string(lim) + (ok ? "t" : "-")); if (lim < size) { bool ok2 = j.write(); verdict(x, j, ok2, true, "written again with enough space"); }
}
MC_BODY(fault_int, 32) { fault<int>(x, x.thorough ? 5 : 4, 1); }
MC_BODY(fault_layers, 32) { fault<float>(x, x.thorough ? 5 : 4, 2); }
MC_BODY(fault_byte, 16) { fault<unsigned char>(x, x.thorough ? 4 : 1, 1); }
MC_BODY(space_int, 48) { space<int>(x, x.thorough ? 5 : 4, 1); }
MC_BODY(space_layers, 48) { space<double>(x, x.thorough ? 4 : 1, 2); }
