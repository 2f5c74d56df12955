// R01: ASCII grids are parsed exactly, malformed ones are rejected.  An independent reading of the text (parse) says
// what the text holds: accept (with these numbers), reject, or either (texts the property does not judge).
#include "raster.hpp"
#include <cctype>
static void init(mc::X&) { warm(); }
static struct Init { Init() { mc::worker_init = init; } } init_;
enum Verdict { REJECT, ACCEPT, EITHER };
struct Num { bool ok, canon_int, odd; double v; };
// strict decimal: [+-] digits [. digits] [e [+-] digits], at least one digit in the mantissa
static Num number(const string& s) {
    Num n = {false, false, false, 0}; size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    string rest; for (size_t k = i; k < s.size(); k++) rest += (char)tolower((unsigned char)s[k]);
    if (rest.compare(0, 2, "0x") == 0 || rest.compare(0, 3, "inf") == 0 || rest.compare(0, 3, "nan") == 0) { n.odd = true; return n; }
    size_t d = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d++; } bool frac = false;
    if (i < s.size() && s[i] == '.') { frac = true; i++; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; d++; } }
    if (!d) return n; bool ex = false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ex = true; i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t e = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { i++; e++; } if (!e) return n; }
    if (i != s.size()) return n;
    n.ok = true; n.v = strtod(s.c_str(), nullptr); if (std::isinf(n.v) || (n.v != 0 && std::fabs(n.v) < 1e-300)) n.odd = true;
    n.canon_int = !frac && !ex && s[0] != '+' && !(s[0] == '-' && s.size() > 1 && s[1] == '0') && !(s[0] == '0' && s.size() > 1) && std::fabs(n.v) <= 2147483647; return n;
}
static string up(string s) { for (char& c : s) c = (char)toupper((unsigned char)c); return s; }
static Verdict parse(const string& text, G& g, bool& has_nd) {
    vector<vector<string>> lines; bool odd = false;
    { string cur; vector<string> ls; for (size_t i = 0; i < text.size(); i++) { char c = text[i]; if (c == '\n') { ls.push_back(cur); cur.clear(); } else if (c == '\r') { if (i + 1 >= text.size() || text[i + 1] != '\n') { odd = true; } cur += ' '; } else { if (c == 0 || (unsigned char)c > 126) odd = true; cur += c; } } if (!cur.empty()) ls.push_back(cur);
      for (string& l : ls) { std::istringstream is(l); vector<string> t; string w; while (is >> w) t.push_back(w); if (t.empty() || t[0][0] == '#') continue; lines.push_back(t); } }
    if (odd) return EITHER;
    map<string, string> h; bool values = false, either = false; vector<string> vals;
    for (auto& t : lines) { string k = up(t[0]);
        if (k == "NCOLS" || k == "NROWS" || k == "XLLCENTER" || k == "XLLCORNER" || k == "YLLCENTER" || k == "YLLCORNER" || k == "CELLSIZE" || k == "NODATA_VALUE") {
            if (t.size() < 2) return REJECT; if (t.size() > 2 || values || h.count(k)) either = true; Num n = number(t[1]); if (!n.ok && !n.odd) return REJECT; if (n.odd) either = true; h[k] = t[1];
            if (k[0] == 'N' && k[1] != 'O') { if (n.ok && !n.canon_int) either = true; }
        } else { values = true; for (auto& w : t) vals.push_back(w); } }
    if (h.count("XLLCENTER") && h.count("XLLCORNER")) either = true; if (h.count("YLLCENTER") && h.count("YLLCORNER")) either = true;
    if (!h.count("NCOLS") || !h.count("NROWS") || !h.count("CELLSIZE") || !(h.count("XLLCENTER") + h.count("XLLCORNER")) || !(h.count("YLLCENTER") + h.count("YLLCORNER"))) return REJECT;
    for (auto& w : vals) { Num n = number(w); if (n.odd) { either = true; continue; } if (!n.ok) return REJECT; }
    if (either) return EITHER;
    double c = number(h["NCOLS"]).v, r = number(h["NROWS"]).v; if (c < 1 || r < 1) return REJECT; if (!(number(h["CELLSIZE"]).v > 0)) return REJECT;
    if (r * c != (double)vals.size()) return REJECT;
    g = G((int)r, (int)c, 1, 0); g.cs = number(h["CELLSIZE"]).v; g.x = h.count("XLLCENTER") ? number(h["XLLCENTER"]).v : number(h["XLLCORNER"]).v + g.cs / 2; g.y = h.count("YLLCENTER") ? number(h["YLLCENTER"]).v : number(h["YLLCORNER"]).v + g.cs / 2;
    has_nd = h.count("NODATA_VALUE"); g.nd = has_nd ? number(h["NODATA_VALUE"]).v : -9999; for (size_t i = 0; i < vals.size(); i++) g.v[i] = number(vals[i]).v; return ACCEPT;
}
template <typename T> static bool fits(const G& g) { for (double v : g.v) { if (std::numeric_limits<T>::is_integer) { if (v != std::floor(v) || v < (double)std::numeric_limits<T>::min() || v > (double)std::numeric_limits<T>::max()) return false; } else if (std::fabs(v) > (double)std::numeric_limits<T>::max()) return false; }
    if (std::numeric_limits<T>::is_integer) return g.nd == std::floor(g.nd) && g.nd >= (double)std::numeric_limits<T>::min() && g.nd <= (double)std::numeric_limits<T>::max(); return std::fabs(g.nd) <= (double)std::numeric_limits<T>::max(); }
static double hd(const STRDBL_MAP& h, const char* k) { auto i = h.find(k); return i == h.end() ? NAN : i->second; }
template <typename T> static void direct(mc::X& x, const string& t, Verdict v, const G& g, bool has_nd) {
    STRDBL_MAP h; T* d = nullptr; size_t live = mc::live_blocks(); x.step(); if (v == ACCEPT && !fits<T>(g)) v = EITHER;
    bool ok = ReadAscFile("t.asc", h, d);
    if (v == REJECT && ok) x.fail("accepted-malformed", "a malformed text was accepted as %gx%g", hd(h, "NROWS"), hd(h, "NCOLS"));
    if (v == ACCEPT && !ok) x.fail("rejected-conforming", "a conforming text was rejected (expected %s)", g.show().c_str());
    if (!ok && d) x.fail("cells-of-rejected", "reading failed but cell values were given");
    if (ok && !d) x.fail("no-cells", "reading succeeded without cell values");
    if (v == ACCEPT && ok && d) {
        if (hd(h, "NROWS") != g.r || hd(h, "NCOLS") != g.c) x.fail("dims", "read %gx%g, expected %dx%d", hd(h, "NROWS"), hd(h, "NCOLS"), g.r, g.c);
        else { for (int i = 0; i < g.r * g.c; i++) if (d[i] != (T)g.v[i]) { x.fail("value", "value %d is %.12g, expected %.12g", i, (double)d[i], (double)(T)g.v[i]); break; } }
        if (std::fabs(hd(h, "XLLCENTER") - g.x) > 1e-12 * (std::fabs(g.x) + g.cs) || std::fabs(hd(h, "YLLCENTER") - g.y) > 1e-12 * (std::fabs(g.y) + g.cs) || hd(h, "CELLSIZE") != g.cs) x.fail("georef", "georeference (%.12g,%.12g)/%.12g, expected (%.12g,%.12g)/%.12g", hd(h, "XLLCENTER"), hd(h, "YLLCENTER"), hd(h, "CELLSIZE"), g.x, g.y, g.cs);
        if (has_nd && hd(h, "NODATA_VALUE") != g.nd) x.fail("nodata", "no-data value %.12g, expected %.12g", hd(h, "NODATA_VALUE"), g.nd);
    }
    if (d) Release1DArray(d);
    h.clear(); size_t now = mc::live_blocks(); if (now > live && x.nviol == 0) { STRDBL_MAP h2; T* d2 = nullptr; live = mc::live_blocks(); ReadAscFile("t.asc", h2, d2); if (d2) Release1DArray(d2); h2.clear(); now = mc::live_blocks(); if (now > live) x.fail("memory", "%zu blocks of memory are kept after reading", now - live); }
    x.outcome((v << 1) + ok);
}
template <typename T> static void object(mc::X& x, const string& t, Verdict v, const G& g, bool has_nd, bool calc) {
    if (v == ACCEPT && (!fits<T>(g) || !has_nd)) v = EITHER; if (v == ACCEPT && calc && !g.count()) v = EITHER;
    if (v == ACCEPT && !(std::fabs(g.x) + std::fabs(g.y) < 1e6 * g.cs && g.cs < 1e9)) v = EITHER;   // cells must be told apart by coordinates
    clsRasterData<T>* r = clsRasterData<T>::Init("t.asc", calc); x.step();
    if (v == REJECT && r) x.fail("accepted-malformed", "a raster was made of a malformed text"); if (v == ACCEPT && !r) x.fail("rejected-conforming", "no raster was made of a conforming text (expected %s)", g.show().c_str());
    if (v == ACCEPT && r) { G h = g; h.nd = (T)h.nd; for (double& d : h.v) d = (T)d; same(x, "object", r, h, nullptr, calc); } delete r;
    if (v == REJECT) { clsRasterData<T> o; if (o.ReadFromFile("t.asc", calc)) x.fail("accepted-malformed", "ReadFromFile accepted a malformed text"); }
}
static void judge(mc::X& x, const string& t, bool all = true) {
    G g; bool nd = false; Verdict v = parse(t, g, nd); put("t.asc", t);
    x.note("%s: \"%s\"", v == ACCEPT ? "conforming" : v == REJECT ? "malformed" : "(not judged)", mc::esc(t.size() > 2000 ? t.substr(0, 150) + "...(" + std::to_string(t.size()) + ")..." + t.substr(t.size() - 30) : t).c_str());
    direct<double>(x, t, v, g, nd); if (!all) return; direct<float>(x, t, v, g, nd); direct<int>(x, t, v, g, nd);
    object<float>(x, t, v, g, nd, false); object<double>(x, t, v, g, nd, true);
}
struct T5 { vector<string> head, vals; int r, c; };
static T5 base(int r, int c, bool corner, bool nd) { T5 b; b.r = r; b.c = c; char s[60]; snprintf(s, sizeof s, "NCOLS %d", c); b.head.push_back(s); snprintf(s, sizeof s, "NROWS %d", r); b.head.push_back(s);
    b.head.push_back(corner ? "XLLCORNER 10.5" : "XLLCENTER 10.5"); b.head.push_back(corner ? "YLLCORNER -20" : "YLLCENTER -20"); b.head.push_back("CELLSIZE 30"); if (nd) b.head.push_back("NODATA_VALUE -9999");
    for (int i = 0; i < r * c; i++) { if (nd && i % 3 == 1) b.vals.push_back("-9999"); else { snprintf(s, sizeof s, "%d", i * 7 % 11 + 1); b.vals.push_back(s); } } return b; }
static string join(const T5& b, int layout = 0, const string& eol = "\n") {
    string t; const char* ind = layout == 4 ? "  \t" : ""; const char* sep = layout == 3 ? "\t " : layout == 4 ? "   " : " ";
    for (auto& h : b.head) { string l = h; if (layout == 3) { size_t p = l.find(' '); if (p != string::npos) l.replace(p, 1, "\t\t"); } t += ind + l + (layout == 4 ? "  " : "") + eol; if (layout == 5) t += eol; }
    if (layout == 6) t += "# comment" + eol;
    for (size_t i = 0; i < b.vals.size(); i++) { bool end = i + 1 == b.vals.size(), row = (i + 1) % b.c == 0; if (layout == 4 && i % b.c == 0) t += ind; t += b.vals[i];
        bool brk = layout == 1 ? false : layout == 2 ? true : layout == 7 ? i % 2 == 0 : row; if (end) t += layout == 8 ? "" : layout == 4 ? "  " + eol : eol; else if (brk) t += (layout == 4 || layout == 5 ? " " : "") + eol + (layout == 5 ? eol : ""); else t += sep; }
    return t; }
MC_BODY(layouts, 8) {     // dimensions x origin x no-data x key case x layout x line breaks
    int r = x.range(1, 3), c = x.range(1, 3); bool corner = x.flag(), nd = x.flag(); if (!x.mine()) return; int lay = x.choose(9), cs = x.choose(3); string eol = x.flag() ? "\r\n" : "\n";
    T5 b = base(r, c, corner, nd); for (auto& h : b.head) for (size_t i = 0; i < h.size() && h[i] != ' '; i++) if (cs == 1 || (cs == 2 && i % 2)) h[i] = (char)tolower(h[i]);
    judge(x, join(b, lay, eol)); }
MC_BODY(orders, 8) {      // every order of the header lines
    T5 b = base(2, 2, x.flag(), x.flag()), p = b; p.head.clear(); vector<string> rest = b.head; bool first = true;
    while (!rest.empty()) { int i = x.choose((int)rest.size()); p.head.push_back(rest[i]); rest.erase(rest.begin() + i); if (p.head.size() == 2 && first) { first = false; if (!x.mine()) return; } }
    judge(x, join(p), x.thorough); }
static const char* NUMS[] = {"0", "-0", "5", "-7", "1.5", "-2.25", "1e3", "1E-2", "+1e+2", ".5", "5.", "+4", "007", "123456789", "0.1", "1e-30", "3.4e38", "1e39", "-9999", "-9999.0", "-9998.9999999", "2147483647", "-2147483648", "4294967296",
    "abc", "", "-", ".", "1,5", "1.2.3", "1e", "1e+", "--1", "1-", "0x10", "nan", "inf", "1e400", "#", "#5", "5#", "1_000", "NODATA_VALUE", "NCOLS", "\"5\"", "1f", "5;"};
static const int NNUMS = sizeof NUMS / sizeof *NUMS;
MC_BODY(values, 8) { int pos = x.choose(4), n = x.choose(NNUMS); if (!x.mine()) return; T5 b = base(2, 2, x.flag(), x.flag()); int m = x.choose(x.thorough ? NNUMS + 1 : 2) - 1; b.vals[pos] = NUMS[n]; if (m >= 0) b.vals[(pos + 1) % 4] = NUMS[m]; judge(x, join(b, x.choose(3))); }
MC_BODY(headers, 8) { int line = x.choose(6), n = x.choose(NNUMS); if (!x.mine()) return; T5 b = base(x.range(1, 2), x.range(1, 2), x.flag(), true); b.head[line] = b.head[line].substr(0, b.head[line].find(' ') + 1) + NUMS[n]; judge(x, join(b)); }
MC_BODY(sizes, 8) {       // declared dimensions against the number of values
    static const char* D[] = {"0", "1", "2", "3", "4", "5", "-1", "-2", "6", "1000", "65536", "46341", "2147483647", "2147483648", "4294967296", "4294967297", "-2147483648", "9999999999", "18446744073709551617", "1073741824", "1431655766", "613566757"};
    int ci = x.choose(22), ri = x.choose(22); if (!x.mine()) return; if (atof(D[ci]) * atof(D[ri]) > 1e5 && atof(D[ci]) * atof(D[ri]) < 2147483648.0) x.prune(); int n = x.choose(10); T5 b = base(2, 2, false, x.flag()); b.head[0] = string("NCOLS ") + D[ci]; b.head[1] = string("NROWS ") + D[ri]; b.vals.assign(n, "3"); b.c = 3; judge(x, join(b), n < 5); }
MC_BODY(lines, 8) {       // header lines dropped, repeated, misspelled, moved behind the values
    T5 b = base(x.range(1, 2), x.range(1, 3), x.flag(), x.flag()); int line = x.choose((int)b.head.size()), how = x.choose(9); if (!x.mine()) return; string h = b.head[line], tail;
    switch (how) { case 0: b.head.erase(b.head.begin() + line); break; case 1: b.head.push_back(h); break; case 2: b.head[line] = "_" + h; break; case 3: b.head[line] = h.substr(1); break; case 4: b.head.erase(b.head.begin() + line); tail = h + "\n"; break;
      case 5: b.head[line] = h.substr(0, h.find(' ')); break; case 6: b.head[line] = h + " 7"; break; case 7: b.head[line][h.find(' ')] = ':'; break; case 8: { size_t p = h.find(' '); b.head[line] = h.substr(0, p) + "\n" + h.substr(p + 1); break; } }
    int second = x.choose((int)b.head.size() + 1); if (second < (int)b.head.size()) b.head.erase(b.head.begin() + second);
    judge(x, join(b) + tail); }
static vector<string> samples() { return {join(base(2, 2, true, true)), join(base(1, 3, false, false), 2, "\r\n"), join(base(2, 3, false, true), 4), join(base(3, 1, true, true), 6)}; }
MC_BODY(cuts, 4) { vector<string> s = samples(); int w = x.choose((int)s.size()); if (!x.mine()) return; judge(x, s[w].substr(0, x.choose((int)s[w].size() + 1))); }
static const char BY[] = " \n\t05.-+e#xN,";
MC_BODY(bytes, 32) {      // every byte replaced, removed, or preceded by another
    vector<string> s = samples(); int w = x.choose(x.thorough ? 4 : 3), how = x.choose(3), p = x.choose((int)s[w].size()); if (!x.mine()) return; string t = s[w];
    if (how == 0) t[p] = BY[x.choose(sizeof BY - 1)]; else if (how == 1) t.erase(p, 1); else t.insert(p, 1, BY[x.choose(sizeof BY - 1)]);
    if (x.thorough) { int q = x.choose((int)s[0].size()); int h2 = x.choose(2); if (q > (int)t.size() - 1) x.prune(); if (h2 == 0) t[q] = BY[x.choose(sizeof BY - 1)]; else t.erase(q, 1); }
    judge(x, t, !x.thorough); }
MC_BODY(files, 1) {       // no grid at all
    int k = x.choose(7); STRDBL_MAP h; float* d = nullptr; mkdir("adir.asc", 0777); const char* f = "nothing.asc"; if (k == 1) f = "adir.asc"; if (k == 2) { put("e.asc", ""); f = "e.asc"; } if (k == 3) f = ""; if (k == 4) { put("b.asc", "\n\n \n\n\n\n\n\n"); f = "b.asc"; } if (k == 5) { put("c.asc", "#1\n#2\n#3\n#4\n#5\n#6\n#7\n"); f = "c.asc"; } if (k == 6) f = "no/such/dir.asc";
    x.note("reading \"%s\"", f); if (ReadAscFile(f, h, d) || d) x.fail("no-file", "reading succeeded"); FR* r = FR::Init(f); if (r) { x.fail("no-file", "a raster was made"); delete r; } FR o; if (o.ReadFromFile(f)) x.fail("no-file", "ReadFromFile succeeded"); x.step(3); }
MC_BODY(large, 32) {      // grids beyond any narrow counter or buffer; one value missing, too many or malformed at several places
    int z = x.choose(NSIZES), how = x.choose(8), lay = x.choose(9); if (!x.mine()) return; if (z >= 4 && (lay + how + z) % 3 && !x.thorough) return; bool corner = x.flag(), nd = x.flag(); string eol = x.flag() ? "\r\n" : "\n";
    T5 b = base(SIZES[z][0], SIZES[z][1], corner, nd); size_t n = b.vals.size(), at = n - 1;
    static const char* W[] = {"1.5.2", "abc", "", "", "1.25e3", "-7", "0.000000000000000000000000000000000000000000123", "123456789012345678901234567890"};
    if (how == 1) at = n / 2; if (how == 5) at = n > 65536 ? 65536 : n > 256 ? 256 : n / 2; if (how == 2) b.vals.pop_back(); else if (how == 3) b.vals.push_back("4"); else b.vals[at] = W[how];
    judge(x, join(b, lay, eol), !(z == 5 && lay % 3)); }
