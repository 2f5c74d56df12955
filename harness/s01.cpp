// S01: splitting / trimming / comparing text, option maps
#include "mc.hpp"
#include "utils_string.h"
using namespace ccgl; using namespace ccgl::utils_string;
using std::string; using std::vector;

static string gen(mc::X& x, const string& alpha, int maxlen, int minlen = 0) {
    int n = minlen + x.choose(maxlen - minlen + 1); string s;
    for (int i = 0; i < n; i++) s += alpha[x.choose((int)alpha.size())];
    return s;
}
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static string show(const vector<string>& v) { string r = "["; for (auto& s : v) r += "<" + mc::esc(s) + ">"; return r + "]"; }

MC_BODY(split_delimiter, 8) {
    char d = ",;:|"[x.choose(x.thorough ? 4 : 2)];
    string other = d == ',' ? ";" : ",";
    string alpha = string("aB \t\n") + d + other;
    int n = x.choose(x.thorough ? 8 : 6); string s;
    for (int i = 0; i < n; i++) { s += alpha[x.choose((int)alpha.size())]; if (i == 1 && !x.mine()) return; }
    if (n < 2 && !x.mine()) return;
    x.note("SplitString(\"%s\", '%c')", mc::esc(s).c_str(), d);
    vector<string> want; string cur;
    for (char c : s) if (c == d) { want.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) want.push_back(cur);
    vector<string> got = SplitString(s, d); x.step();
    if (got != want) x.fail("fields", "got %s expected %s", show(got).c_str(), show(want).c_str());
    x.outcome(got.size());
}
MC_BODY(split_blanks, 8) {
    string alpha = "aB ,\t\n\r";
    int n = x.choose(x.thorough ? 8 : 7); string s;
    for (int i = 0; i < n; i++) { s += alpha[x.choose((int)alpha.size())]; if (i == 1 && !x.mine()) return; }
    if (n < 2 && !x.mine()) return;
    x.note("SplitString(\"%s\")", mc::esc(s).c_str());
    vector<string> want; string cur;
    for (char c : s) if (blank(c)) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) want.push_back(cur);
    vector<string> got = SplitString(s); x.step();
    if (got != want) x.fail("words", "got %s expected %s", show(got).c_str(), show(want).c_str());
    x.outcome(got.size());
}
MC_BODY(trim, 8) {
    string alpha = "aB \t\n\r,";
    int n = x.choose(x.thorough ? 8 : 7); string s;
    for (int i = 0; i < n; i++) { s += alpha[x.choose((int)alpha.size())]; if (i == 1 && !x.mine()) return; }
    if (n < 2 && !x.mine()) return;
    x.note("Trim/TrimSpaces(\"%s\")", mc::esc(s).c_str());
    size_t b = 0, e = s.size();
    while (b < e && blank(s[b])) b++;
    while (e > b && blank(s[e - 1])) e--;
    string want = s.substr(b, e - b);
    string s1 = s; TrimSpaces(s1); MC_EQ(x, "TrimSpaces", s1, want);
    string s2 = s; string& r = Trim(s2); MC_EQ(x, "Trim", s2, want); MC_TRUE(x, "Trim-returns-its-argument", &r == &s2);
}
MC_BODY(upper, 1) {
    string s;
    int n = 1 + x.choose(2);
    s += (char)x.choose(256);
    if (n == 2) s += (char)x.choose(256);
    x.note("GetUpper of bytes %02x%s", (unsigned char)s[0], n == 2 ? mc::esc(s.substr(1)).c_str() : "");
    string want = s;
    for (auto& c : want) if (c >= 'a' && c <= 'z') c = c - 'a' + 'A';
    MC_EQ(x, "GetUpper", mc::esc(GetUpper(s)), mc::esc(want));
}
MC_BODY(match, 8) {
    string alpha = "aAbz1 _@`[{";       // neighbours of the letter ranges included
    string a = gen(x, alpha, x.thorough ? 3 : 2);
    if (!x.mine()) return;
    string b = gen(x, alpha, x.thorough ? 3 : 2);
    x.note("StringMatch(\"%s\", \"%s\")", a.c_str(), b.c_str());
    bool want = a.size() == b.size();
    for (size_t i = 0; want && i < a.size(); i++) {
        char c = a[i], d = b[i];
        if (c >= 'a' && c <= 'z') c -= 32;
        if (d >= 'a' && d <= 'z') d -= 32;
        want = c == d;
    }
    MC_EQ(x, "StringMatch-string", StringMatch(a, b), want);
    MC_EQ(x, "StringMatch-cstr", StringMatch(a.c_str(), b.c_str()), want);
    MC_EQ(x, "agrees-with-GetUpper", GetUpper(a) == GetUpper(b), want);
    x.outcome(want);
}
MC_BODY(option_maps, 1) {
    const char* keys[3] = {"A", "a", "B"};
    STRING_MAP m[2];
    for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) { int v = x.choose(4); if (v) m[k][keys[i]] = v == 1 ? "" : v == 2 ? "u" : "w"; }
    x.note("maps of size %zu and %zu", m[0].size(), m[1].size());
    STRING_MAP in = m[0], outm = m[1], want = m[1];
    for (auto& e : in) want[e.first] = e.second;
    CopyStringMap(in, outm); x.step();
    if (outm != want) x.fail("CopyStringMap", "merged map differs");
    if (in != m[0]) x.fail("CopyStringMap-source", "source changed");
    for (int i = 0; i < 3; i++) {
        STRING_MAP o = m[1], w = m[1];
        UpdateStringMap(o, keys[i], "new"); w[keys[i]] = "new"; x.step();
        if (o != w) x.fail("UpdateStringMap", "updated map differs");
    }
}

// Texts longer than any fixed buffer or narrow counter
static const int LONG[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
static const int NLONG = sizeof(LONG) / sizeof(*LONG);
static string letters(int n) { string s((size_t)n, 'a'); for (int i = 0; i < n; i++) s[i] = (char)("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[i * 7 % 52]); return s; }
static string diff(const vector<string>& g, const vector<string>& w) {
    if (g.size() != w.size()) return std::to_string(g.size()) + " instead of " + std::to_string(w.size()) + " parts";
    for (size_t i = 0; i < g.size(); i++) if (g[i] != w[i]) return "part " + std::to_string(i) + " of length " + std::to_string(g[i].size()) + " differs, length " + std::to_string(w[i].size()) + " expected";
    return "";
}
MC_BODY(long_fields, 8) {
    int len = x.choose(4), n = LONG[x.choose(NLONG)], kind = x.choose(6); // parts of n characters, or n parts
    if (!x.mine()) return;
    int sep = x.choose(3);                                 // one separator; doubled; at the ends too
    static const int few[] = {1, 2, 3, 5};
    int parts = kind < 3 ? few[len] : n, size = kind < 3 ? n : few[len];
    bool words = kind % 3 == 0; char d = words ? ' ' : kind % 3 == 1 ? ',' : '\n';
    x.note("%d parts of %d characters separated by byte %02x, way %d, %s", parts, size, d, sep, words ? "words" : "fields");
    string s, sp(sep == 1 ? 2 : 1, d); vector<string> want;
    if (sep == 2) { s += sp; if (!words) want.push_back(""); }
    for (int i = 0; i < parts; i++) {
        string f = letters(size); f[0] = (char)('a' + i % 26);
        if (i) { s += sp; if (!words && sep == 1) want.push_back(""); }
        s += f; want.push_back(f);
    }
    if (sep == 2) s += sp;
    vector<string> got = words ? SplitString(s) : SplitString(s, d); x.step();
    string e = diff(got, want);
    if (!e.empty()) x.fail("long-parts", "%s", e.c_str());
    x.outcome(got.size());
}
MC_BODY(long_texts, 8) {
    int n = LONG[x.choose(NLONG)], before = x.choose(4), after = x.choose(4);
    if (!x.mine()) return;
    static const int pad[] = {0, 1, 300, 66000};
    x.note("text of %d characters after %d and before %d blanks", n, pad[before], pad[after]);
    string w = letters(n), s = string((size_t)pad[before], before == 2 ? '\t' : ' ') + w + string((size_t)pad[after], after == 2 ? '\n' : ' ');
    string s1 = s; TrimSpaces(s1); MC_TRUE(x, "TrimSpaces-long", s1 == w);
    string s2 = s; Trim(s2); MC_TRUE(x, "Trim-long", s2 == w);
    string blanks((size_t)(n + pad[before]), ' '); Trim(blanks); MC_TRUE(x, "Trim-blanks", blanks.empty());
    string u = s; for (auto& c : u) if (c >= 'a' && c <= 'z') c -= 32;
    MC_TRUE(x, "GetUpper-long", GetUpper(s) == u);
    MC_TRUE(x, "StringMatch-long", StringMatch(s, u) && StringMatch(u.c_str(), s.c_str()));
    static const int from_end[] = {1, 2, 9};
    for (int k = 0; k < 6; k++) {                // one character differs, near either end or in the middle; one is missing or added
        int at = k < 3 ? n - from_end[k] : k == 3 ? 0 : k == 4 ? n / 2 : n - 1;
        string t = w; t[at] = t[at] == '#' ? '$' : '#';
        MC_TRUE(x, "StringMatch-one-differs", !StringMatch(w, t) && !StringMatch(t.c_str(), w.c_str()));
        MC_TRUE(x, "StringMatch-prefix", !StringMatch(w, w.substr(0, at)) && !StringMatch(w.substr(0, at), w) && !StringMatch(w.substr(0, at).c_str(), w.c_str()));
    }
    x.outcome(s.size());
}
MC_BODY(big_maps, 1) {
    static const int sz[] = {0, 1, 255, 256, 257, 3000};
    int a = sz[x.choose(6)], b = sz[x.choose(6)], shift = x.choose(3);
    x.note("map of %d entries into one of %d, keys %s", a, b, shift == 0 ? "the same" : shift == 1 ? "half the same" : "apart");
    STRING_MAP in, to, want;
    for (int i = 0; i < b; i++) to["KEY" + std::to_string(i)] = "old" + std::to_string(i);
    for (int i = 0; i < a; i++) in["KEY" + std::to_string(i + (shift == 0 ? 0 : shift == 1 ? b / 2 : 5000))] = letters(i % 40);
    want = to; for (auto& e : in) want[e.first] = e.second;
    STRING_MAP src = in, got = to;
    CopyStringMap(in, got); x.step();
    if (got != want) x.fail("CopyStringMap-big", "%zu entries, %zu expected, or other values", got.size(), want.size());
    if (in != src) x.fail("CopyStringMap-source", "source changed");
    for (int i = 0; i < a + 3; i += 1 + a / 7) {
        string k = "KEY" + std::to_string(i), v = letters(i % 300);
        UpdateStringMap(got, k, v); want[k] = v;
        if (got != want) x.fail("UpdateStringMap-big", "updated map differs");
    }
}
