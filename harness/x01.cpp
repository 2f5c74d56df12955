// X01: the raster tool: every combination of modes and options, in every argument style, against plain grids
#include "rmask.hpp"
#define main tool_main
#include "../apps/mask_rasterio.cpp"
#undef main
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
typedef vector<string> SV; typedef map<int, vector<int>> Zones; typedef map<int, vector<double>> Recls;
static int call(int (*f)(const int, const char**), int n, char** a) { return f(n, (const char**)a); }
static int call(int (*f)(int, char**), int n, char** a) { return f(n, a); }
static int call(int (*f)(int, const char* const*), int n, char** a) { return f(n, a); }
// the tool, run here: its exit status, or -1 when it does not return normally (a crash ends this process and is reported by the explorer)
struct ToolExit { int st; };
extern "C" void __wrap_exit(int st); extern "C" void __real_exit(int st) __attribute__((noreturn)); static bool in_tool = false;
extern "C" void __wrap_exit(int st) { if (in_tool) throw ToolExit{st}; __real_exit(st); }
struct NullBuf: std::streambuf { int overflow(int c) { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
static int tool(mc::X& x, const SV& args) {
    x.step(1 + args.size()); static NullBuf nb; SV a; a.push_back("mask_rasterio"); for (auto& s : args) a.push_back(s); vector<vector<char>> st; vector<char*> av; for (auto& s : a) { st.push_back(vector<char>(s.begin(), s.end())); st.back().push_back(0); } for (auto& v : st) av.push_back(v.data()); av.push_back(nullptr); vector<char*> keep = av;
    std::streambuf *o = std::cout.rdbuf(&nb), *e = std::cerr.rdbuf(&nb); int r = -1; string what; in_tool = true;
    char** heap = new char*[a.size() + 1]; for (size_t i = 0; i <= a.size(); i++) heap[i] = av[i];
    try { r = call(&tool_main, (int)a.size(), heap) & 255; } catch (ToolExit& t) { r = t.st & 255; } catch (std::exception& ex) { what = ex.what(); r = -1; } catch (...) { what = "?"; r = -1; }
    in_tool = false; delete[] heap; std::cout.rdbuf(o); std::cerr.rdbuf(e); omp_set_num_threads(1); if (r < 0) { string s; for (auto& t : args) s += " '" + t + "'"; x.fail("crash", "the tool ended with an exception (%s) with arguments%s", what.c_str(), s.c_str()); }
    return r; }
// ---- options of one run
enum { CMD, CMD_SHORT, CONF_KEYS, CONF_SIMPLE, CONF_ITEM, STYLES };
static const char* STYLE[] = {"command line", "command line without formats", "-configfile with keys", "one configuration file with keys", "configuration file with an item"};
struct Opt { string mode, mask, out, type, recls; SV in; bool has_d, has_n; double d, n; int threads; Opt(): has_d(0), has_n(0), d(0), n(0), threads(0) {} };
static string num(double v) { char b[40]; snprintf(b, sizeof b, "%g", v); return b; }
static string join(const SV& v) { string s; for (auto& t : v) s += (s.empty() ? "" : ",") + t; return s; }
static SV arguments(const Opt& o, int style, const string& conf) {
    typedef std::pair<string, SV> KV; vector<KV> k; bool fm = style != CMD_SHORT; auto add = [&](const char* n, SV v) { k.push_back(KV(n, v)); };
    if (style != CONF_ITEM) add("in", fm ? SV{"file", join(o.in)} : SV{join(o.in)});
    if (!o.mask.empty()) add("mask", fm ? SV{"FILE", o.mask} : SV{o.mask}); if (!o.mode.empty()) add("mode", SV{o.mode});
    if (style == CONF_ITEM) { add("in", SV{"file"}); if (o.threads != 2) add("out", SV{"file"}); }
    else { if (!o.out.empty()) add("out", SV{"file", o.out}); if (!o.recls.empty()) add("reclass", SV{o.recls}); if (!o.type.empty()) add("outdatatype", SV{o.type}); if (o.has_d) add("default", SV{num(o.d)}); if (o.has_n) add("nodata", SV{num(o.n)}); }
    bool late = o.threads && (style == CONF_KEYS || style == CONF_ITEM); if (o.threads && !late) add("thread", SV{std::to_string(o.threads)});
    SV a; if (style <= CMD_SHORT) { for (auto& e : k) { a.push_back("-" + e.first); for (auto& v : e.second) a.push_back(v); } return a; }
    string t = "# settings; not=these\n\n \t \n#-default\t77\n  #-nodata\t-5\n#" + join(o.in) + ";" + (o.out.empty() ? conf : o.out) + "_c.asc;5\n"; for (auto& e : k) { t += "-" + e.first; for (auto& v : e.second) t += "\t" + v; t += "\n"; }
    if (style == CONF_ITEM) { t += "# items\n" + join(o.in) + ";" + o.out; SV f{o.has_d ? num(o.d) : "", o.has_n ? num(o.n) : "", o.type, o.recls}; while (!f.empty() && f.back().empty()) f.pop_back(); for (auto& s : f) t += ";" + s; t += "\n"; }
    put(conf, t); if (style == CONF_SIMPLE) return SV{conf}; a = SV{"-configfile", conf}; if (late) { a.push_back("-thread"); a.push_back(std::to_string(o.threads)); } return a; }
static string show(const Opt& o) { string s = o.mode.empty() ? "no mode" : o.mode; if (!o.mask.empty()) s += ", mask"; if (o.has_d) s += ", default " + num(o.d); if (o.has_n) s += ", no-data " + num(o.n); if (!o.type.empty()) s += ", " + o.type; if (!o.recls.empty()) s += ", reclass " + o.recls; if (o.threads) s += ", threads " + std::to_string(o.threads); return s; }
// ---- expected files
static bool read_one(const string& f, G& r, GDALDataType* t) { struct stat st; if (stat(f.c_str(), &st)) return false; return f.substr(f.size() - 3) == "asc" ? asc_read(f, r) : tif_read(f, r, t); }
static const struct { const char* name; GDALDataType t; } TYPES[] = {{"", GDT_Float64}, {"UINT8", GDT_Byte}, {"INT8", GDT_Int8}, {"UINT16", GDT_UInt16}, {"INT16", GDT_Int16}, {"UINT32", GDT_UInt32}, {"INT32", GDT_Int32}, {"FLOAT", GDT_Float32}, {"DOUBLE", GDT_Float64}};
struct Want { G g; bool whole, optional; std::set<int> may, may_nd; double alt; Want(): whole(true), optional(false), alt(0) {} };   // may: cells that may also hold alt; may_nd: values that may also be missing
// file f holds the values of w's layer k at the same places and nothing else; whole: it also has w's extent.  w2: values elsewhere that f need not have
static bool file_is(mc::X& x, const string& key, const string& dir, const string& f, const Want& W, int k, GDALDataType type, const double* nd) {
    const G& w = W.g; bool whole = W.whole;
    G r; GDALDataType t = GDT_Unknown; x.step(1 + w.r * w.c); if (!read_one(dir + "/" + f, r, &t)) { x.fail(key + "-file", "%s is missing or cannot be read", f.c_str()); return false; }
    if (t != GDT_Unknown && t != type) { x.fail(key + "-type", "%s is of type %s, expected %s", f.c_str(), GDALGetDataTypeName(t), GDALGetDataTypeName(type)); return false; }
    if (nd && r.nd != *nd) { x.fail(key + "-nodata", "no-data value of %s is %g, expected %g", f.c_str(), r.nd, *nd); return false; }
    if (r.cs != w.cs) { x.fail(key + "-geometry", "cell size of %s is %g, expected %g", f.c_str(), r.cs, w.cs); return false; }
    double dj = (r.x - w.x) / w.cs, di = (w.y + (w.r - 1) * w.cs - (r.y + (r.r - 1) * r.cs)) / w.cs; int oj = (int)std::lround(dj), oi = (int)std::lround(di);
    if (std::fabs(dj - oj) > 1e-6 || std::fabs(di - oi) > 1e-6 || oj < 0 || oi < 0 || oj + r.c > w.c || oi + r.r > w.r || (whole && (oi || oj || r.r != w.r || r.c != w.c))) { x.fail(key + "-geometry", "%s is %dx%d@(%.9g,%.9g), expected %s", f.c_str(), r.r, r.c, r.x, r.y, w.show().c_str()); return false; }
    for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) { int a = i - oi, b = j - oj; bool in = a >= 0 && b >= 0 && a < r.r && b < r.c, h = in && r.at(a, b) != r.nd, e = w.has(i, j, k); if ((h != e || (h && r.at(a, b) != w.at(i, j, k))) && !(W.may.count(i * w.c + j) && h && r.at(a, b) == W.alt) && !(!h && W.may_nd.count((i * w.c + j) * w.l + k))) { x.fail(key + "-value", "cell (%d,%d) of %s is %s, expected %s", i, j, f.c_str(), h ? num(r.at(a, b)).c_str() : "no data", e ? num(w.at(i, j, k)).c_str() : "no data"); return false; } }
    return true; }
// the files of a directory are exactly those: key is the subset, -1 the whole raster (written as res or 0_res); layers are numbered in order
static void expect(mc::X& x, const string& key, const string& dir, const string& base, const string& ext, const map<int, Want>& want, const Opt& o, bool dtype) {
    GDALDataType type = GDT_Float64; for (auto& t : TYPES) if (o.type == t.name) type = t.t; SV have; for (auto& s : list_dir(dir)) if (s.size() > ext.size() && s.substr(s.size() - ext.size()) == ext && (s.find(base) == 0 || s.find("_" + base) != string::npos)) have.push_back(s); bool isint = type != GDT_Float64 && type != GDT_Float32;
    std::set<string> left(have.begin(), have.end()); SV missing;
    for (auto& kv : want) { int l = kv.second.g.l; SV names; SV stems = kv.first < 0 ? SV{base, "0_" + base} : SV{std::to_string(kv.first) + "_" + base}; bool found = false;
        for (auto& st : stems) for (int first = 0; first < (l > 1 ? 2 : 1) && !found; first++) { names.clear(); bool all = true; for (int k = 0; k < l; k++) { string n = st + (l > 1 ? "_" + std::to_string(k + 1 - first) : string()) + ext; names.push_back(n); all = all && left.count(n); } found = all; if (found) goto check; }
        if (!kv.second.optional) { missing.push_back(stems[0]); } continue;
        check: for (int k = 0; k < l; k++) { left.erase(names[k]); double nd = kv.second.g.nd; if (!file_is(x, key, dir, names[k], kv.second, k, type, dtype && !isint && ext != ".asc" ? &nd : nullptr)) return; } }
    if (!missing.empty() || !left.empty()) { string a, b; for (auto& s : have) a += s + " "; for (auto& s : missing) b += s + " "; x.fail(key + "-files", "files written: %s- missing: %s- unexpected: %s", a.c_str(), b.c_str(), left.empty() ? "none" : left.begin()->c_str()); } }
// ---- what the documented operation gives
struct Case { G s, m; bool mask; int l; int fmt; };
static bool parse_recls(const string& t, Recls& r, int& l) { l = 0; std::istringstream is(t); string e; while (std::getline(is, e, ',')) { size_t c = e.find(':'); vector<double> v; std::istringstream vs(e.substr(c + 1)); string q; while (std::getline(vs, q, '|')) v.push_back(atof(q.c_str())); r[atoi(e.c_str())] = v; l = (int)v.size(); } return l > 0; }
// 0 wants files, 1 must be refused, 2 not judged
static int expected(const Case& c, const Opt& o, map<int, Want>& want) {
    G g = c.s; bool dk = o.has_d && o.d != c.s.nd; vector<int> zone(c.s.r * c.s.c, 0); std::set<int> nofill; double dflt = o.has_d ? o.d : c.s.nd;
    if (c.mask) { Masked k = mask_ref(c.s.layer(0), c.m, true, false, dflt); if (k.fail) return 1; if (!k.g.count()) return 2; g = G(k.g.r, k.g.c, c.l, c.s.nd, k.g.x, k.g.y, k.g.cs); zone.assign(g.r * g.c, 0);
        for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) { g.at(i, j, 0) = k.g.at(i, j); zone[i * g.c + j] = c.m.has(i, j) ? (int)c.m.at(i, j) : 0; if (c.l > 1 && c.m.has(i, j)) { int a, b; if (c.s.locate(g.cx(j), g.cy(i), a, b)) for (int q = 1; q < c.l; q++) g.at(i, j, q) = c.s.has(a, b, q) ? c.s.at(a, b, q) : dk ? (nofill.insert(((i * g.c + j) * c.l) + q), o.d) : c.s.nd; } } }
    else if (!g.count()) return 2;
    double nd = g.nd; if (o.has_n) { for (double& v : g.v) if (v == nd) v = o.n; g.nd = nd = o.n; } if (!o.has_d) dflt = nd;
    string md = o.mode; for (char& ch : md) ch = (char)toupper(ch); bool all = md.empty() || md == "MASK" || md == "MASK&DEC" || md == "MASKDEC", sub = md == "DEC" || md == "DECOMPOSE" || md == "MASK&DEC" || md == "MASKDEC";
    if (sub && !c.mask) { for (int i = 0; i < g.r * g.c; i++) zone[i] = g.v[(size_t)i * g.l] == nd ? 0 : (int)g.v[(size_t)i * g.l]; }
    vector<double> src; for (int i = 0; i < g.r * g.c; i++) src.push_back(g.v[(size_t)i * g.l]);
    Recls rc; int rl = 0; if (!o.recls.empty()) { if (!parse_recls(o.recls, rc, rl)) return 2; if (g.l > 1 && rl > g.l) return 1; G h(g.r, g.c, rl, nd, g.x, g.y, g.cs); for (int i = 0; i < g.r * g.c; i++) if (g.v[(size_t)i * g.l] != nd) for (int k = 0; k < rl; k++) { auto it = rc.find((int)g.v[(size_t)i * g.l + (g.l > 1 ? k : 0)]); h.v[(size_t)i * rl + k] = it == rc.end() ? dflt : it->second[k]; } g = h; }
    auto may = [&](Want& w, int id) { w.alt = dflt; if (o.recls.empty()) w.may_nd = nofill;       // the default is documented for the mask's cells, layers after the first need not be filled
        if (!o.recls.empty() && c.mask) for (int i = 0; i < g.r * g.c; i++) if (zone[i] && (id < 0 || zone[i] == id) && src[i] == nd) w.may.insert(i); };
    if (all) { Want w; w.g = g; may(w, -1); want[-1] = w; }
    if (sub) { std::set<int> z(zone.begin(), zone.end()); z.erase(0); for (int id : z) { Want w; w.g = g; w.whole = false; int n = 0; for (int i = 0; i < g.r * g.c; i++) if (zone[i] != id) for (int k = 0; k < g.l; k++) w.g.v[(size_t)i * g.l + k] = nd; else n += g.v[(size_t)i * g.l] != nd; w.optional = n == 0; may(w, id); want[id] = w; } }
    return 0; }
static void run(mc::X& x, const Case& c, Opt o, int style, const string& key) {
    string dir = x.scratch + "/out", ext = c.fmt ? ".tif" : ".asc"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777);
    for (int k = 0; k < c.l; k++) o.in.push_back(input_file(c.s, k, 0)); if (c.mask) o.mask = input_file(c.m, 0, 0); o.out = dir + "/res" + ext;
    x.note("%s%s%s; %s; %s", c.s.show().c_str(), c.mask ? " through mask " : "", c.mask ? c.m.show().c_str() : "", show(o).c_str(), STYLE[style]);
    map<int, Want> want; int e = expected(c, o, want); SV a = arguments(o, style, x.scratch + "/conf.txt"); int st = tool(x, a); if (st < 0 || e == 2) return;
    x.outcome(show(o) + c.s.show() + std::to_string(st)); if (e == 1) { if (st == 0) x.fail(key + "-status", "the tool reports success although nothing could be written"); return; }
    if (st) { x.fail(key + "-status", "the tool ended with code %d", st); return; } expect(x, key, dir, "res", ext, want, o, true); }
// ---- all small rasters and masks
static void put_pattern(G& g, unsigned p, int base, int k = 0) { for (int i = 0; i < g.r * g.c; i++, p /= base) if (p % base) g.v[(size_t)i * g.l + k] = p % base; }
static unsigned power(int b, int n) { unsigned r = 1; while (n--) r *= b; return r; }
static const char* MODES[] = {"", "MASK", "DEC", "MASK&DEC", "decompose", "maskdec"};
static const char* RECLS[] = {"", "1:10,2:20", "2:30", "1:4|5,2:6|7"};
static void patterns(mc::X& x, int r, int cc, int mr, int mcc, double dx, double dy) {
    int md = x.choose(x.thorough ? 4 : 2); unsigned mp = x.choose(power(3, mr * mcc)); if (!x.mine()) return; unsigned sp = x.choose(power(3, r * cc)); int opt = x.thorough ? x.choose(4) : (int)(sp / 3 + mp / 5 + md) % 4; if (!x.thorough) { md = md * 2 + (sp + mp) % 2; if (r * cc > 3 && (sp * 3 + mp) % 2) return; }
    Case c; unsigned hh = sp * 11 + mp * 13 + md; c.s = G(r, cc, 1, hh % 5 == 1 ? -1 : hh % 5 == 2 ? 0 : -9999, 10 + dx, 20 + dy, 2); c.m = G(mr, mcc, 1, hh % 3 == 1 ? -1 : -9999, 10, 20, 2); put_pattern(c.s, sp, 3); put_pattern(c.m, mp, 3); c.mask = mp != 0; c.l = 1; unsigned h = sp * 5 + mp * 3 + md; c.fmt = h % 4 == 0;
    if (!c.mask && md >= 2 && (sp % 5)) return; Opt o; o.mode = MODES[md]; if (opt & 1) { o.has_d = true; o.d = 7; } if (opt & 2 ) { o.has_n = true; o.n = -1; } o.recls = RECLS[h % 7 < 4 ? 0 : h % 7 - 3];
    run(x, c, o, (int)(h / 7 % STYLES), "small"); }
MC_BODY(p22, 48) { patterns(x, 2, 2, 2, 2, 0, 0); }
MC_BODY(p13, 48) { patterns(x, 1, 3, 1, 3, 0, 0); }
MC_BODY(p22_shifted, 48) { patterns(x, 2, 2, 1, 3, 2, -2); }
// ---- all options on a few rasters
static void options(mc::X& x, int l) {
    int md = x.choose(6), mask = x.choose(3), style = x.choose(STYLES), type = x.choose(x.thorough ? 9 : 6); if (!x.mine()) return; if (!x.thorough) { static const int Q[] = {0, 1, 4, 6, 7, 8}; type = Q[type]; }
    int d = x.choose(3), n = x.choose(3), rc = x.choose(4), fmt, thr; if (x.thorough) fmt = x.choose(2), thr = x.choose(2); else { int h = d * 7 + n * 5 + rc * 3 + type + style + md + mask; if (h % 6) return; fmt = h / 6 % 2; thr = (h / 12 + style) % 2; }
    Case c; c.l = l; c.s = G(2, 3, l, -9999, 10, 20, 2); static const int A[] = {1, 2, 0, 2, 3, 1}; for (int i = 0; i < 6; i++) for (int k = 0; k < l; k++) if (A[i]) c.s.v[(size_t)i * l + k] = A[i] + (k ? i % 2 : 0); c.mask = mask > 0; c.m = G(2, 3, 1, -9999, 10, 20, 2); static const int M[2][6] = {{1, 1, 2, 0, 2, 2}, {5, 0, 5, 5, 0, 0}}; if (mask) for (int i = 0; i < 6; i++) if (M[mask - 1][i]) c.m.v[i] = M[mask - 1][i]; c.fmt = fmt;
    Opt o; o.mode = MODES[md]; o.type = TYPES[type].name; static const double D[] = {0, 7, 0}; o.has_d = d > 0; o.d = D[d]; static const double N[] = {0, -1, 99}; o.has_n = n > 0; o.n = N[n]; o.recls = RECLS[rc]; if (thr) o.threads = md % 2 ? 3 : 2;
    run(x, c, o, style, "options"); }
MC_BODY(options1, 64) { options(x, 1); }
MC_BODY(options2, 64) { options(x, 2); }
// ---- combining
static void combine(mc::X& x, int r, int cc) {
    unsigned mp = 1 + x.choose(power(3, r * cc) - 1); int style = x.choose(x.thorough ? STYLES : 1); if (!x.mine()) return; if (!x.thorough) style = mp % STYLES; int holes = x.choose(2), d = x.choose(2), order = x.choose(2), sh = x.choose(2); unsigned fmt = (mp + style) % 4;
    Case c; double mnd = mp % 3 ? -9999 : -1; c.m = G(r, cc, 1, mnd, 10, 20, 2); put_pattern(c.m, mp, 3); G g(r, cc, 1, -9999, 10, 20, 2); int n = r * cc; Zones z; for (int i = 0; i < n; i++) if (c.m.v[i] != mnd) { g.v[i] = 50 + i; z[(int)c.m.v[i]].push_back(i); }
    int off = x.choose(1 << z.size()); unsigned hp = holes ? 1 + x.choose((1 << n) - 1) : 0; for (int i = 0; i < n; i++) if (hp >> i & 1) { if (g.v[i] == -9999) return; g.v[i] = -9999; }
    string dir = x.scratch + "/parts", od = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); mc::clean_dir(od); mkdir(od.c_str(), 0777); string ext = fmt & 1 ? ".tif" : ".asc"; Opt o; o.mode = style % 2 ? "COM" : "combine"; o.mask = input_file(c.m, 0, 0); o.out = od + "/res" + ext; o.has_d = d; o.d = 7; if (fmt >= 2) o.type = "FLOAT"; int q = 0;
    G w = g; double fillv = d ? 7 : -9999; size_t given = 0;
    for (auto& kv : z) { if (off >> q++ & 1) { for (int i : kv.second) w.v[i] = fillv; continue; } int r0 = r, r1 = -1, c0 = cc, c1 = -1; bool any = false; for (int i : kv.second) { bool h = g.v[i] != -9999; any = any || h; if (h || !sh) { r0 = std::min(r0, i / cc); r1 = std::max(r1, i / cc); c0 = std::min(c0, i % cc); c1 = std::max(c1, i % cc); } }   // the part may be cut to its values
        if (!any) return; G p(r1 - r0 + 1, c1 - c0 + 1, 1, -9999, g.x + c0 * g.cs, g.y + (r - 1 - r1) * g.cs, g.cs); for (int i : kv.second) if (g.v[i] != -9999) p.at(i / cc - r0, i % cc - c0) = g.v[i];
        string f = dir + "/" + std::to_string(kv.first) + "_part" + ext; if (ext == ".asc") put(f, asc_text(p)); else tif_write(f, p, 0, GDT_Float32); if (order) o.in.insert(o.in.begin(), f); else o.in.push_back(f); given++; }
    if (!given || (sh && !holes)) return; x.note("combine the parts of %s by mask %s, %d parts missing; %s; %s", g.show().c_str(), c.m.show().c_str(), (int)(z.size() - given), show(o).c_str(), STYLE[style]); x.outcome(g.show());
    int st = tool(x, arguments(o, style, x.scratch + "/conf.txt")); if (st < 0) return; if (st) { x.fail("combine-status", "the tool ended with code %d", st); return; } map<int, Want> want; Want W; for (double& v : w.v) if (v == w.nd) v = mnd; w.nd = mnd; W.g = w; want[-1] = W; expect(x, "combine", od, "res", ext, want, o, true); }
MC_BODY(combine22, 48) { combine(x, 2, 2); }
MC_BODY(combine13, 48) { combine(x, 1, 3); }
MC_BODY_T(combine23, 48, 60) { if (!x.thorough) return; combine(x, 2, 3); }
// ---- decomposed by the tool and combined by the tool: the original
MC_BODY(round_trip, 48) { int style = x.choose(STYLES), fmt = x.choose(2); unsigned mp = 1 + x.choose(728); if (!x.mine()) return; unsigned sp = x.choose(x.thorough ? 64 : 4); if (!x.thorough) sp = sp * 21 + mp % 3 * 5; G m(2, 3, 1, -9999, 10, 20, 2), g = m; put_pattern(m, mp, 3); if (!x.thorough && (mp + style) % 4) return; for (int i = 0; i < 6; i++) if (!(sp >> i & 1) && m.v[i] != -9999) g.v[i] = 60 + i; if (!g.count()) return;
    string dir = x.scratch + "/parts", od = x.scratch + "/out", ext = fmt ? ".tif" : ".asc"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); mc::clean_dir(od); mkdir(od.c_str(), 0777); Opt o; o.in.push_back(input_file(g, 0, 0)); o.mask = input_file(m, 0, 0); o.mode = "DEC"; o.out = dir + "/part" + ext; x.note("decompose and combine %s by %s (%s, %s)", g.show().c_str(), m.show().c_str(), ext.c_str(), STYLE[style]);
    int st = tool(x, arguments(o, style, x.scratch + "/conf.txt")); if (st < 0) return; if (st) { x.fail("round-trip-status", "decomposing ended with code %d", st); return; } Opt p; p.mode = "COM"; p.mask = o.mask; p.out = od + "/res" + ext; for (auto& f : list_dir(dir)) p.in.push_back(dir + "/" + f); if (p.in.empty()) { x.fail("round-trip-files", "nothing was written"); return; } x.outcome(g.show());
    st = tool(x, arguments(p, style, x.scratch + "/conf.txt")); if (st < 0) return; if (st) { x.fail("round-trip-status", "combining ended with code %d", st); return; } map<int, Want> want; Want W; W.g = g; W.whole = true; W.optional = false; want[-1] = W; expect(x, "round-trip", od, "res", ext, want, p, true); }
// ---- several items in one configuration file
MC_BODY(items, 48) { int n = 1 + x.choose(x.thorough ? 3 : 2), md = x.choose(3), glob = x.choose(3); int kind[3], fld[3]; for (int i = 0; i < n; i++) { kind[i] = x.choose(x.thorough || i == 0 ? 4 : 1); fld[i] = x.choose(6); } if (!x.mine()) return; int order = x.choose(2), crlf = x.thorough ? x.choose(2) : (fld[0] + order) % 2;
    string dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); G m(2, 2, 1, -9999, 10, 20, 2); m.v = {1, 1, 2, -9999}; string text, keys = "-in\tfile\n-mask\tfile\t" + input_file(m, 0, 0) + "\n"; if (md) keys += string("-mode\t") + MODES[md + 1] + "\n"; if (glob) keys += string("-outdatatype\t") + (glob == 1 ? "FLOAT" : "INT16") + "\n";
    struct It { Case c; Opt o; string base; }; vector<It> its; x.note("configuration with %d items, %s:", n, md ? MODES[md + 1] : "no mode");
    for (int i = 0; i < n; i++) { It t; t.c.l = 1; t.c.mask = true; t.c.m = m; t.c.fmt = 1; t.c.s = G(2, 2, 1, -9999, 10, 20, 2); for (int q = 0; q < 4; q++) if (q != kind[i]) t.c.s.v[q] = 1 + (q + kind[i]) % 2; t.base = "res" + std::to_string(i) + "x"; t.o.mode = md ? MODES[md + 1] : ""; t.o.type = glob == 1 ? "FLOAT" : glob == 2 ? "INT16" : ""; string l = input_file(t.c.s, 0, 0) + ";" + dir + "/" + t.base + ".tif";
        int f = fld[i]; if (f >= 1) { l += ";"; if (f != 3) { l += "7"; t.o.has_d = true; t.o.d = 7; } } if (f >= 2) { l += ";"; if (f != 4) { l += "-1"; t.o.has_n = true; t.o.n = -1; } } if (f >= 3) { l += ";"; if (f != 5) { l += "INT32"; t.o.type = "INT32"; } } if (f >= 4) { l += ";1:10,2:20"; t.o.recls = "1:10,2:20"; } its.push_back(t); text += l + "\n"; if (i == 0) text += "# comment\n\n"; x.also(" [%s]", show(t.o).c_str()); }
    string all = order ? text + keys : keys + text; if (crlf) { string u; for (char ch : all) { if (ch == '\n') u += '\r'; u += ch; } all = u; } put(x.scratch + "/conf.txt", all); int st = tool(x, SV{"-configfile", x.scratch + "/conf.txt"}); if (st < 0) return; if (st) { x.fail("items-status", "the tool ended with code %d", st); return; } x.outcome(text);
    for (auto& t : its) { map<int, Want> want; if (expected(t.c, t.o, want)) continue; expect(x, "items", dir, t.base, ".tif", want, t.o, true); } }
// ---- bad arguments
static Opt full(const string& out, int md) { G s(2, 3, 1, -9999, 10, 20, 2), m = s; s.v = {1, 2, -9999, 2, 3, 1}; m.v = {1, 1, 2, -9999, 2, 2}; Opt o; o.in.push_back(input_file(s, 0, 0)); o.mask = input_file(m, 0, 0); o.mode = MODES[md]; o.out = out; o.type = "FLOAT"; o.recls = "1:10,2:20"; o.has_d = o.has_n = true; o.d = 7; o.n = -1; o.threads = 2; return o; }
static bool exists(const string& f) { struct stat st; return stat(f.c_str(), &st) == 0; }
// every list of arguments made of a few words: no crash, and success only when an input was given and everything named is there
MC_BODY(words, 64) {
    G s(1, 2, 1, -9999, 10, 20, 2); s.v = {1, 2}; string in = input_file(s, 0, 0), none = x.scratch + "/none.asc", conf = x.scratch + "/c.txt"; static const int T = 22; int n = x.choose(x.thorough ? 5 : 4); SV w{"-in", "-mask", "-out", "-mode", "-configfile", "file", "gfs", "@in", "@none", "-reclass", "@out", "", "-", "-1", "1:2", "-default", "-outdatatype", "DEC", "COM", "@conf", "@in,@none", ","}; SV a; bool bad_file = false; for (int i = 0; i < n; i++) { string t = w[x.choose(T)]; if (i == 1 && !x.mine()) return; if (t == "@in") t = in; else if (t == "@none") t = none; else if (t == "@out") t = x.scratch + "/out/r.asc"; else if (t == "@conf") t = conf; else if (t == "@in,@none") t = in + "," + none; a.push_back(t); } if (n < 2 && !x.mine()) return; (void)bad_file;
    string dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); put(conf, "-in\tfile\n" + in + ";" + x.scratch + "/out/c.asc\n"); string sh; for (auto& t : a) sh += " '" + t + "'"; x.note("arguments%s", sh.c_str()); int st = tool(x, a); if (st < 0) return; x.outcome((uint64_t)st * 1000 + n); std::remove((in.substr(0, in.size() - 4) + "_masked.asc").c_str());
    bool has_in = false, missing = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] == conf && (i == 0 || (i > 0 && a[i - 1] == "-configfile"))) has_in = true; if (a[i] == in && i > 0 && (a[i - 1] == "-in" || (i > 1 && a[i - 2] == "-in"))) has_in = true;
        if ((i + 1 == a.size() || (a[i + 1].size() > 1 && a[i + 1][0] == '-' && !isdigit(a[i + 1][1]))) && i > 0 && (a[i - 1] == "-in" || a[i - 1] == "-mask" || a[i - 1] == "-configfile") && a[i].find(none) != string::npos) missing = true; }
    std::set<string> keys; bool dup = false; for (auto& t : a) if (t.size() > 1 && t[0] == '-' && !isdigit(t[1])) { if (keys.count(t)) dup = true; keys.insert(t); } if (dup) return;
    if (st == 0 && !has_in) x.fail("no-input", "the tool reports success without an input:%s", sh.c_str()); if (st == 0 && missing) x.fail("missing-file", "the tool reports success although a file is missing:%s", sh.c_str());
    if (st == 0 && has_in && list_dir(dir).empty() && keys.count("-out") == 0) {} }
// every truncation of a full argument list, and of its configuration file
MC_BODY(truncated, 16) { int md = 1 + x.choose(5), style = x.choose(STYLES); if (!x.mine()) return; string dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); Opt o = full(dir + "/res.tif", md); SV a = arguments(o, style, x.scratch + "/conf.txt"); int cut = x.choose(2) ; if (style > CMD_SHORT && cut) { string t; get(x.scratch + "/conf.txt", t); int n = x.choose((int)t.size() + 1); put(x.scratch + "/conf.txt", t.substr(0, n)); x.note("%s, %s, the file cut to %d bytes", MODES[md], STYLE[style], n); }
    else { if (cut) return; int n = x.choose((int)a.size() + 1); a.resize(n); x.note("%s, %s, the first %d arguments", MODES[md], STYLE[style], n); }
    string in = o.in[0], def = in.substr(0, in.size() - 4) + "_masked.asc", def2 = in.substr(0, in.size() - 4) + "_masked.tif"; std::remove(def.c_str()); std::remove(def2.c_str()); int st = tool(x, a); if (st < 0) return; x.outcome((uint64_t)st * 100 + style);
    bool wrote = !list_dir(dir).empty(); string p = in.substr(0, in.rfind('/')); for (auto& f : list_dir(p)) if (f.find("_masked.") != string::npos) { wrote = true; std::remove((p + "/" + f).c_str()); }
    bool cut_out = false; string last; if (st == 0 && !wrote) { if (style == CONF_ITEM) cut_out = true; if (!cut_out) x.fail("truncated", "the tool reports success but wrote nothing"); } }
// one thing missing or unusable at a time
static const char* FAULT[] = {"none", "an input is missing", "an input is a directory", "an input is not a raster", "the mask is missing", "the mask is not a raster", "the configuration file is missing", "unknown mode", "output directory missing", "output file is a directory", "inconsistent reclassification", "inputs do not overlap the mask", "two inputs of different size", "no mask to combine by"};
MC_BODY(faults, 48) { int f = x.choose(14), md = 1 + x.choose(5), style = x.choose(STYLES), fmt = x.choose(2); if (!x.mine()) return; bool com = f == 13 || (f != 10 && f != 12 && x.choose(2)); int rec = com ? 0 : x.choose(2);
    string dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); string ext = fmt ? ".tif" : ".asc"; Opt o = full(dir + "/res" + ext, md); o.threads = 0; if (!rec) o.recls.clear(); if (com) { o.mode = "COM"; o.has_n = false; G p(1, 2, 1, -9999, 10, 22, 2); p.v = {4, 5}; string q = x.scratch + "/1_part.asc"; put(q, asc_text(p)); o.in = SV{q}; }
    string none = x.scratch + "/none.asc", junk = com ? x.scratch + "/1_junk.asc" : x.scratch + "/junk.asc"; put(junk, "this is no raster\n"); string sub = x.scratch + "/1_dir.asc"; mkdir(sub.c_str(), 0777);
    switch (f) { case 1: o.in[0] = none; break; case 2: o.in[0] = sub; break; case 3: o.in[0] = junk; break; case 4: o.mask = none; break; case 5: o.mask = junk; break; case 7: o.mode = "SPLIT"; break; case 8: o.out = dir + "/no/such/res" + ext; break; case 9: for (string n : !rec && !com && md == 1 ? SV{"/"} : SV{"/0_", "/1_", "/2_", "/3_"}) { mkdir((dir + n + "res" + ext).c_str(), 0777); put(dir + n + "res" + ext + "/file", "x"); } break; case 10: o.recls = "1:10|11,2:20"; break;
        case 11: { if (com) return; G m(1, 2, 1, -9999, 500, 700, 2); m.v = {1, 2}; o.mask = input_file(m, 0, 0); } break; case 12: { G s(1, 2, 1, -9999, 500, 700, 2); s.v = {1, 2}; o.in.push_back(input_file(s, 0, 0)); } break; case 13: o.mask.clear(); break; }
    SV a = arguments(o, style, x.scratch + "/conf.txt"); if (f == 6) { if (style <= CMD_SHORT) return; std::remove((x.scratch + "/conf.txt").c_str()); } x.note("%s; %s; %s; %s", FAULT[f], show(o).c_str(), STYLE[style], ext.c_str()); int st = tool(x, a); if (st < 0) return; x.outcome((uint64_t)st * 100 + f);
    if (f == 0 && st) x.fail("fault-none", "the tool ended with code %d", st); if (f && f != 12 && st == 0) x.fail("fault", "the tool reports success although %s", FAULT[f]); }
// without -out the result lies beside the input
MC_BODY(default_name, 4) { int style = x.choose(4), multi = x.choose(3), fmt = x.choose(2), md = x.choose(2); if (!x.mine()) return; string dir = x.scratch + "/out"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); Case c; c.l = 1; c.mask = true; c.s = G(1, 2, 1, -9999, 10, 20, 2); c.s.v = {1, 2}; c.m = c.s; c.fmt = fmt; string ext = fmt ? ".tif" : ".asc"; Opt o; o.mode = md ? "MASK" : ""; o.mask = input_file(c.m, 0, 0); SV names; string stem = multi == 2 ? "ras1" : "ras"; for (int k = 0; k <= (multi > 0); k++) { string f = dir + "/ras" + (multi ? (multi == 1 ? "_" : "") + std::to_string(k + 1) : string()) + ext; if (fmt) tif_write(f, c.s, 0, GDT_Float32); else put(f, asc_text(c.s)); o.in.push_back(f); }
    x.note("no output name, %d inputs (%s), %s, %s", 1 + (multi > 0), stem.c_str(), ext.c_str(), STYLE[style]); int st = tool(x, arguments(o, style, x.scratch + "/conf.txt")); if (st < 0) return; if (st) { x.fail("default-status", "the tool ended with code %d", st); return; } if (multi) { c.l = 2; G s2(1, 2, 2, -9999, 10, 20, 2); s2.v = {1, 1, 2, 2}; c.s = s2; } SV got; for (auto& f : list_dir(dir)) if (f.find(stem + "_masked") == 0) got.push_back(f); x.outcome(join(got)); if (got.size() != (size_t)c.l) { x.fail("default-files", "files written: %s", join(list_dir(dir)).c_str()); return; } string e2 = got[0].substr(got[0].size() - 4); map<int, Want> want; expected(c, o, want); expect(x, "default", dir, stem + "_masked", e2, want, o, true); }
// given in both places, the command line is followed
MC_BODY(precedence, 8) { int key = x.choose(7), simple = x.choose(2), fmt = x.choose(2); if (!x.mine()) return; (void)simple; string dir = x.scratch + "/out", ext = fmt ? ".tif" : ".asc"; mc::clean_dir(dir); mkdir(dir.c_str(), 0777); Case c; c.l = 1; c.mask = true; c.fmt = fmt; c.s = G(2, 3, 1, -9999, 10, 20, 2); c.s.v = {1, 2, -9999, 2, 3, 1}; c.m = c.s; c.m.v = {1, 1, 2, -9999, 2, 2};
    Opt o; o.mode = "MASK"; o.type = "FLOAT"; o.has_d = o.has_n = true; o.d = 7; o.n = -1; o.recls = "1:10,2:20"; o.in.push_back(input_file(c.s, 0, 0)); o.mask = input_file(c.m, 0, 0); o.out = dir + "/res" + ext; Opt q = o; SV extra; G s2 = c.s, m2 = c.m; s2.v[0] = 3; m2.v[0] = -9999;
    switch (key) { case 0: q.mode = "DEC"; extra = {"-mode", "DEC"}; break; case 1: q.type = "INT32"; extra = {"-outdatatype", "INT32"}; break; case 2: q.d = 8; extra = {"-default", "8"}; break; case 3: q.n = -2; extra = {"-nodata", "-2"}; break; case 4: q.recls = "2:40"; extra = {"-reclass", "2:40"}; break; case 5: c.s = s2; extra = {"-in", "file", input_file(s2, 0, 0)}; break; case 6: c.m = m2; extra = {"-mask", "file", input_file(m2, 0, 0)}; break; }
    SV a = arguments(o, CONF_KEYS, x.scratch + "/conf.txt"); if (simple) a.insert(a.begin(), extra.begin(), extra.end()); else a.insert(a.end(), extra.begin(), extra.end()); x.note("%s on the command line, %s in the configuration file", join(extra).c_str(), show(o).c_str()); int st = tool(x, a); if (st < 0) return; x.outcome(join(extra)); if (st) { x.fail("precedence-status", "the tool ended with code %d", st); return; } map<int, Want> want; expected(c, q, want); expect(x, "precedence", dir, "res", ext, want, q, true); }
