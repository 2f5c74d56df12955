// F02: directory and file operations against an in-memory tree, over all small trees and operation sequences
#include "mc.hpp"
#include "utils_filesystem.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <algorithm>
#include <strings.h>
using namespace ccgl::utils_filesystem;
using std::string; using std::vector; using std::map; using std::set;

struct Node { char t; string target; bool ro; };            // t: 'f' file, 'd' directory, 'l' link
typedef map<string, Node> Tree;                             // relative path -> node
static string parent(const string& p) { size_t i = p.rfind('/'); return i == string::npos ? "" : p.substr(0, i); }
static string base(const string& p) { size_t i = p.rfind('/'); return i == string::npos ? p : p.substr(i + 1); }
static void add(Tree& t, const string& p, char k, const string& target = "", bool ro = false) { Node n = {k, target, ro}; t[p] = n; }
static void build(const Tree& t, const string& root) {
    for (auto& e : t) {
        string p = root + "/" + e.first;
        if (e.second.t == 'd') mkdir(p.c_str(), 0755);
        else if (e.second.t == 'f') { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) { if (write(fd, "x", 1)) {} close(fd); } }
        else if (symlink(e.second.target.c_str(), p.c_str())) {}
    }
    for (auto& e : t) if (e.second.ro) chmod((root + "/" + e.first).c_str(), 0555);
}
static void scan(const string& root, const string& rel, string& out) {
    DIR* d = opendir((root + "/" + rel).c_str()); if (!d) return; vector<string> names;
    while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d); std::sort(names.begin(), names.end());
    for (auto& n : names) {
        string r = rel.empty() ? n : rel + "/" + n; struct stat st; lstat((root + "/" + r).c_str(), &st);
        out += r + (S_ISDIR(st.st_mode) ? "/" : S_ISLNK(st.st_mode) ? "@" : "") + " ";
        if (S_ISDIR(st.st_mode)) scan(root, r, out);
    }
}
static void show(const Tree& t, const string& dir, string& out) {   // same order as scan()
    vector<string> names;
    for (auto& e : t) if (parent(e.first) == dir) names.push_back(base(e.first));
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        string r = dir.empty() ? n : dir + "/" + n; char k = t.at(r).t;
        out += r + (k == 'd' ? "/" : k == 'l' ? "@" : "") + " ";
        if (k == 'd') show(t, r, out);
    }
}
static bool isdir(const Tree& t, const string& p) { if (p.empty()) return true; auto i = t.find(p); return i != t.end() && i->second.t == 'd'; }
static bool is(const Tree& t, const string& p) { return t.count(p) > 0; }
static bool writable(const Tree& t, const string& p) { return p.empty() || (isdir(t, p) && !t.at(p).ro); }
static vector<string> children(const Tree& t, const string& d) { vector<string> v; for (auto& e : t) if (parent(e.first) == d && !e.first.empty()) v.push_back(e.first); return v; }
static bool deldir(Tree& t, const string& p, bool rec) {
    bool ok = true, left = false;
    for (auto& c : children(t, p)) {
        if (t[c].t == 'd') { if (!rec) left = true; else if (!deldir(t, c, rec)) ok = false; }
        else if (writable(t, p)) t.erase(c); else ok = false;
    }
    if (!ok || left) return ok;
    if (!writable(t, parent(p))) return false;
    t.erase(p); return true;
}
static string link_target(const Tree& t, const string& p) {   // where a path leads: itself unless it is a link (all links: ../out/...)
    auto i = t.find(p); if (i == t.end() || i->second.t != 'l') return p;
    string g = i->second.target; while (g.compare(0, 3, "../") == 0) g = g.substr(3); return g;
}
static string lower_suffix(const string& n) { size_t d = n.rfind('.'); string s = d == string::npos ? "" : n.substr(d + 1); for (auto& c : s) c = (char)tolower(c); return s; }

static const char* ENT[] = {"d/f.txt", "d/g.TIF", "d/.hid.txt", "d/noext", "d/h.tx"};
static void tree(mc::X& x, Tree& t, bool small) {
    add(t, "out", 'd'); add(t, "out/o.txt", 'f'); add(t, "out/sub", 'd'); add(t, "out/sub/k.txt", 'f'); add(t, "f.txt", 'f'); add(t, "dd", 'd'); add(t, "dd/f.txt", 'f');
    int root = x.choose(3);            // d missing / d is a file / d is a directory
    if (root == 1) add(t, "d", 'f');
    if (root < 2) { if (!x.mine()) x.prune(); return; }
    add(t, "d", 'd');
    int sub = x.choose(7);
    if (sub) add(t, sub == 5 ? "d/.s" : "d/s", 'd', "", false);
    if (sub == 2) add(t, "d/s/f.txt", 'f');
    if (sub == 3) { add(t, "d/s/t", 'd'); add(t, "d/s/t/.h", 'f'); add(t, "d/s/t/f.txt", 'f'); add(t, "d/s/.x", 'f'); add(t, "d/s/l", 'l', "../out"); t["d/s/l"].target = "../../out"; }
    if (sub == 4) { add(t, "d/s/f.txt", 'f'); t["d/s"].ro = true; }
    if (sub == 5) add(t, "d/.s/f.txt", 'f');
    if (sub == 6) { t.erase("d/s"); add(t, "d/s.txt", 'd'); add(t, "d/s.txt/f.txt", 'f'); }
    int ln = x.choose(3);
    if (ln == 1) add(t, "d/l.txt", 'l', "../out/o.txt");
    if (ln == 2) add(t, "d/ld.txt", 'l', "../out");
    if (!x.mine()) x.prune();
    unsigned m = small ? (unsigned[]){0, 1, 6, 13, 31}[x.choose(5)] : (unsigned)x.choose(32);
    for (int i = 0; i < 5; i++) if (m >> i & 1) add(t, ENT[i], 'f');
}
static string style(mc::X& x, int st, const string& rel) {
    switch (st) { case 0: return x.scratch + "/" + rel; case 1: return rel; case 2: return "./" + rel; case 3: return x.scratch + "/out/../" + rel; case 4: return rel + "/"; default: return x.scratch + "/" + rel + "/"; }
}
struct OpDef { int kind; const char* arg; const char* expr; };
static const OpDef OPS[] = {
    {0, "d", 0}, {1, "d", 0}, {2, "d", 0}, {3, "d/f.txt", 0}, {4, "d", 0}, {5, "d", "*.*"}, {5, "d", ".txt"}, {3, "d/l.txt", 0}, {4, "d/new", 0}, {0, "d/new", 0}, {3, "d/.hid.txt", 0}, {1, "d/s", 0},
    {5, "d", ".*"}, {5, "d", "*.txt"}, {5, "d", ".tif"}, {5, "d", "*.TXT"}, {5, "d", ".asc"}, {3, "d/nope.txt", 0}, {4, "miss/new", 0}, {0, "miss/new", 0}, {2, "d/s", 0}, {5, "d/s", "*.*"}, {0, "d/s", 0}, {1, "nope", 0}, {3, "d/noext", 0}, {5, "d", ".txtx"}};
static const int NOPS = sizeof OPS / sizeof *OPS, NCORE = 12;

static void exists_all(mc::X& x, const Tree& t) {
    static const char* names[] = {"d", "d/s", "d/f.txt", "d/.hid.txt", "d/l.txt", "d/new", "nope", "d/noext", "out/o.txt"};
    vector<string> ex, mix;
    for (const char* n : names) for (int st = 0; st < 2; st++) {
        string p = style(x, st, n); string q = link_target(t, n);
        bool dir = isdir(t, q) && is(t, q), any = is(t, q);
        MC_EQ(x, "directory-exists", DirectoryExists(p), dir);
        MC_EQ(x, "path-exists", PathExists(p), any);
        if (!dir) { MC_EQ(x, "file-exists", FileExists(p), any); if (any) ex.push_back(p); mix.push_back(p); }
    }
    if (!ex.empty()) MC_EQ(x, "files-exist", FilesExist(ex), true);
    if (mix.size() != ex.size()) MC_EQ(x, "files-exist", FilesExist(mix), false);
    if (!ex.empty()) { vector<string> one(ex); one.push_back(x.scratch + "/nope"); MC_EQ(x, "files-exist", FilesExist(one), false); std::swap(one.front(), one.back()); MC_EQ(x, "files-exist", FilesExist(one), false); }
}
static void apply(mc::X& x, Tree& t, const OpDef& o, int st) {
    string rel = o.arg, p = style(x, st, rel);
    static const char* KN[] = {"CleanDirectory", "DeleteDirectory", "DeleteDirectory(non-recursive)", "DeleteExistedFile", "MakeDirectory", "FindFiles"};
    x.also("; %s(%s%s%s)", KN[o.kind], p.c_str(), o.expr ? ", " : "", o.expr ? o.expr : "");
    string q = link_target(t, rel);
    x.step();
    if (o.kind == 0) {
        bool want;
        if (isdir(t, rel)) {
            want = true;
            for (auto& c : children(t, rel)) {
                if (base(c)[0] == '.' || isdir(t, link_target(t, c))) continue;
                if (writable(t, rel)) t.erase(c); else want = false;
            }
        } else { want = !is(t, rel) && isdir(t, parent(rel)) && writable(t, parent(rel)); if (want) add(t, rel, 'd'); }
        MC_EQ(x, "clean-result", CleanDirectory(p), want);
    } else if (o.kind <= 2) {
        bool file = is(t, rel) && !isdir(t, rel), rec = o.kind == 1, want = true;
        Tree before = t;
        if (isdir(t, rel) && is(t, rel)) want = deldir(t, rel, rec);
        bool got = rec ? DeleteDirectory(p) : DeleteDirectory(p, false);
        if (!file) MC_EQ(x, "delete-result", got, want);
        if (!rec) {   // an empty subdirectory may be removed or left
            Tree t2 = t; bool changed = false;
            for (auto& c : children(t, rel)) if (isdir(t, c) && children(t, c).empty()) { struct stat s; if (lstat((x.scratch + "/" + c).c_str(), &s)) { t2.erase(c); changed = true; } }
            if (changed) { if (children(t2, rel).empty() && !DirectoryExists(x.scratch + "/" + rel)) t2.erase(rel); t = t2; }
        }
    } else if (o.kind == 3) {
        if (st >= 4) { st -= 4; p = st ? rel : x.scratch + "/" + rel; }
        bool can = is(t, q) && !isdir(t, q) && writable(t, parent(rel)); bool any = is(t, q);
        int got = DeleteExistedFile(p);
        if (can) { t.erase(rel); MC_EQ(x, "delete-file-result", got, 0); } else if (!any) MC_TRUE(x, "delete-file-result", got != 0);
    } else if (o.kind == 4) {
        bool want = isdir(t, rel) && is(t, rel);
        if (!want && !is(t, rel) && isdir(t, parent(rel)) && writable(t, parent(rel))) { want = true; add(t, rel, 'd'); }
        MC_EQ(x, "make-result", MakeDirectory(p), want);
    } else {
        vector<string> got, want; int r = FindFiles(p.c_str(), o.expr, got);
        if (!is(t, rel) || !isdir(t, rel)) { MC_TRUE(x, "find-result", r != 0); MC_TRUE(x, "find-missing", got.empty()); }
        else {
            string e = lower_suffix(o.expr);
            for (auto& c : children(t, rel)) if (base(c)[0] != '.' && !isdir(t, link_target(t, c)) && (e == "*" || e == lower_suffix(base(c)))) want.push_back(x.scratch + "/" + c);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            string g, w; for (auto& s : got) g += s + " "; for (auto& s : want) w += s + " ";
            MC_EQ(x, "find-files", g, w); MC_EQ(x, "find-result", r, 0);
        }
    }
    string got, want; scan(x.scratch, "", got); show(t, "", want);
    MC_EQ(x, "tree-after", got, want);
    x.outcome(got);
}
static int lowest_fd() { int fd = open("/dev/null", O_RDONLY); if (fd >= 0) close(fd); return fd; }
static void call(int kind, const string& p, const string& e) {
    if (kind == 0) CleanDirectory(p); else if (kind == 1) DeleteDirectory(p); else if (kind == 2) DeleteDirectory(p, false); else if (kind == 3) DeleteExistedFile(p);
    else if (kind == 4) MakeDirectory(p); else { vector<string> v; FindFiles(p.c_str(), e.c_str(), v); }
}
static void begin(mc::X& x, Tree& t) {
    mc::clean_dir(x.scratch); build(t, x.scratch);
    string s; show(t, "", s); x.note("tree: %s", s.c_str());
}
MC_BODY(single, 32) {
    Tree t; tree(x, t, false);
    int o = x.choose(NOPS), st = x.choose(6);
    begin(x, t); if (o == 0 && st == 0) exists_all(x, t);
    int fd = lowest_fd(); size_t live = 0, now = 1;
    for (int k = 0; k < 3 && live != now; k++) {   // memory and descriptors are counted around the bare call (a first round may fill caches of the C library: what every round keeps is lost)
        live = mc::live_blocks();
        { string p = style(x, st, OPS[o].arg); string e = OPS[o].expr ? OPS[o].expr : ""; call(OPS[o].kind, p, e); }
        now = mc::live_blocks(); MC_EQ(x, "open-directories", lowest_fd(), fd);
        mc::clean_dir(x.scratch); build(t, x.scratch);
    }
    MC_EQ(x, "memory", now, live);
    apply(x, t, OPS[o], st); if (st == 0) exists_all(x, t);
    MC_EQ(x, "open-directories", lowest_fd(), fd);
}
MC_BODY(sequence, 32) {
    Tree t; tree(x, t, true);
    int n = x.thorough ? 3 : 2, lim = x.thorough ? NCORE + 4 : NOPS; int o[3], st[3];
    for (int i = 0; i < n; i++) { o[i] = x.choose(lim); st[i] = (o[i] * 5 + i) % 6; }
    if (!x.thorough) st[0] = x.choose(2) * 3 + 1;
    begin(x, t);
    for (int i = 0; i < n; i++) apply(x, t, OPS[o[i]], st[i]);
}
