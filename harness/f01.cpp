// F01: path decomposition and rebuilding
#include "mc.hpp"
#include "utils_filesystem.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
using namespace ccgl::utils_filesystem;
using std::string; using std::vector;

static void parts(const string& p, string& dir, string& core, string& suf) {
    size_t s = p.rfind('/'); dir = s == string::npos ? "" : p.substr(0, s + 1); string f = s == string::npos ? p : p.substr(s + 1);
    size_t d = f.rfind('.'); core = f.substr(0, d); suf = d == string::npos ? "" : f.substr(d + 1);
}
static void check(mc::X& x, const string& given, const string& abs, bool exists_dir) {
    string dir, core, suf; parts(abs, dir, core, suf);
    if (exists_dir) { MC_EQ(x, "directory-of-directory", GetPathFromFullName(given), abs); return; }
    MC_EQ(x, "absolute", GetAbsolutePath(given), abs);
    MC_EQ(x, "directory", GetPathFromFullName(given), dir);
    MC_EQ(x, "core", GetCoreFileName(given), core);
    MC_EQ(x, "suffix", GetSuffix(given), suf);
    bool trailing_dot = !abs.empty() && abs[abs.size() - 1] == '.';
    if (dir.empty()) return;                       // a bare name of a missing file: there is no directory to rebuild from
    string ddir = dir; { struct stat st; if (stat(dir.c_str(), &st) == 0) { char* r = realpath(dir.c_str(), 0); ddir = r; free(r); if (ddir[ddir.size() - 1] != '/') ddir += "/"; } }
    if (!trailing_dot) MC_EQ(x, "rebuild", ConcatFullName(GetPathFromFullName(given), GetCoreFileName(given), GetSuffix(given)), ddir + core + (suf.empty() ? "" : "." + suf));
    static const char* news[] = {"asc", "t", "tar.gz"};
    for (const char* n : news) if (!suf.empty()) MC_EQ(x, "replace-suffix", ReplaceSuffix(given, n), dir + core + "." + n);
    static const char* ext[] = {"x", "1.5", "", "a_b"};
    string tail = suf.empty() ? "" : "." + suf;
    for (const char* e : ext) for (int k = 0; k < 2; k++) {
        char dl = k ? '-' : '_';
        MC_EQ(x, "append", (k ? AppendCoreFileName(given, string(e), dl) : AppendCoreFileName(given, string(e))), ddir + core + dl + e + tail);
        MC_EQ(x, "prefix", (k ? PrefixCoreFileName(given, string(e), dl) : PrefixCoreFileName(given, string(e))), ddir + e + dl + core + tail);
    }
    for (int i = -1; i <= 12; i += 13) {
        MC_EQ(x, "append-int", AppendCoreFileName(given, (ccgl::vint)i), ddir + core + "_" + std::to_string(i) + tail);
        MC_EQ(x, "prefix-int", PrefixCoreFileName(given, (ccgl::vint)i), ddir + std::to_string(i) + "_" + core + tail);
    }
}
static const char* NAMES[] = {"a", "b.c", "x.y.z", ".h", "d.", "a b", "1_u.tif", "..e"};
static const char* LEAF[] = {"f", "f.tif", "f.g.asc", ".hid", ".hid.txt", "f.", "f_1.tif", "f..x", "F.TIF"};
// roots: scratch directory (exists), its plain prefix does not exist, the filesystem root, relative
MC_BODY(paths, 8) {
    int root = x.choose(4);           // 0 existing absolute, 1 missing absolute, 2 directly below /, 3 relative
    int depth = x.choose(x.thorough ? 4 : 3); string rel;
    for (int i = 0; i < depth; i++) { rel += string(NAMES[x.choose(8)]) + "/"; if (i == 0 && !x.mine()) return; }
    if (!depth && !x.mine()) return;
    string leaf = LEAF[x.choose(9)];
    bool mkdirs = (root == 0 || root == 3) ? x.flag() : false;
    bool mkfile = mkdirs ? x.flag() : false;
    string base = root == 0 ? x.scratch + "/" : root == 1 ? "/nonexistent.dir/q/" : root == 2 ? "/" : "";
    string given = base + rel + leaf;
    x.note("path %s%s%s", given.c_str(), mkdirs ? " (directory exists)" : "", mkfile ? " (file exists)" : "");
    if (root == 0 || root == 3) {
        mc::clean_dir(x.scratch);
        if (mkdirs) {
            string p = x.scratch + "/"; size_t q = 0, e;
            while ((e = rel.find('/', q)) != string::npos) { p += rel.substr(q, e - q) + "/"; mkdir(p.c_str(), 0755); q = e + 1; }
            if (mkfile) { int fd = open((p + leaf).c_str(), O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); }
        }
    }
    string abs = mkfile ? x.scratch + "/" + rel + leaf : given;
    check(x, given, abs, false);
    if (mkdirs && depth > 0) {          // the directory itself, with and without the trailing separator
        string d = base + rel; check(x, d, x.scratch + "/" + rel.substr(0, rel.size() - 1), true);
        check(x, d.substr(0, d.size() - 1), x.scratch + "/" + rel.substr(0, rel.size() - 1), true);
    }
}
MC_BODY(concat, 1) {
    static const char* dirs[] = {"/", "/nonexistent", "/nonexistent/", "rel.d", "rel.d/", "/nonexistent/x.y/", ""};
    static const char* cores[] = {"a", "a.b", "_1", ""}; static const char* sufs[] = {"", "tif", "tar.gz"};
    string d = dirs[x.choose(7)], c = cores[x.choose(4)], s = sufs[x.choose(3)];
    x.note("ConcatFullName(%s, %s, %s)", d.c_str(), c.c_str(), s.c_str());
    MC_EQ(x, "concat", ConcatFullName(d, c, s), d + (d.empty() || d[d.size() - 1] == '/' ? "" : "/") + c + (s.empty() ? "" : "." + s));
    if (s.empty()) MC_EQ(x, "concat-default", ConcatFullName(d, c), d + (d.empty() || d[d.size() - 1] == '/' ? "" : "/") + c);
}
MC_BODY(application, 1) {       // the directory of the running program, whatever the working directory, asked for any number of times
    static const char* cwd[] = {"/", "", "sub"}; int w = x.choose(3), times = x.range(1, 3);
    string d = w == 0 ? "/" : x.scratch + (w == 2 ? "/sub" : "/"); if (w == 2) { mc::clean_dir(x.scratch); mkdir(d.c_str(), 0755); }
    x.note("GetAppPath from working directory %s, %d times", d.c_str(), times); if (cwd[w]) {}
    char* exe = realpath("/proc/self/exe", 0); string e = exe; free(exe); string got;
    char old[4096]; if (!getcwd(old, sizeof old)) old[0] = 0; if (chdir(d.c_str())) return;
    for (int i = 0; i < times; i++) got = GetAppPath();
    if (chdir(old)) {}
    MC_EQ(x, "application-directory", got, e.substr(0, e.rfind('/') + 1));
}
