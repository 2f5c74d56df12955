// F03: loading plain text, with every small content, at buffer boundaries, and with every read fault
#include "mc.hpp"
#include "utils_filesystem.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <errno.h>
using ccgl::utils_filesystem::LoadPlainTextFile;
using std::string; using std::vector;

// fault injection into read() of the file under test
static bool inj_on = false; static size_t inj_max = 0; static int inj_fail_at = -1, inj_errno = EIO, inj_calls = 0; static bool inj_hit = false;
extern "C" ssize_t read(int fd, void* b, size_t n) {
    if (inj_on && fd > 2) {
        int k = inj_calls++;
        if (inj_fail_at >= 0 && (inj_errno == EINTR ? k == inj_fail_at : k >= inj_fail_at)) { inj_hit = true; errno = inj_errno; return -1; }
        if (inj_max && n > inj_max) n = inj_max;
    }
    return syscall(SYS_read, fd, b, n);
}
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'; }
static vector<string> reference(const string& s) {
    vector<string> r; size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p); if (e == string::npos) e = s.size();
        size_t a = p, b = e; while (a < b && blank(s[a])) a++; while (b > a && blank(s[b - 1])) b--;
        if (a < b && s[a] != '#') r.push_back(s.substr(a, b - a));
        p = e + 1;
    }
    return r;
}
static string join(const vector<string>& v) { string r; for (auto& s : v) r += "[" + mc::esc(s).substr(0, 40) + (s.size() > 40 ? "#" + std::to_string(s.size()) : "") + "]"; return r; }
static void put(const string& c) { int fd = open("t.txt", O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t o = 0; while (o < c.size()) { ssize_t k = write(fd, c.data() + o, c.size() - o); if (k <= 0) abort(); o += k; } close(fd); }
static void same(mc::X& x, const string& c) {
    vector<string> got, want = reference(c); bool ok = LoadPlainTextFile("t.txt", got);
    MC_EQ(x, "success", ok, true);
    x.step(); if (got != want) x.fail("lines", "got %s, expected %s", join(got).c_str(), join(want).c_str());
    x.outcome(join(got));
}
MC_BODY(contents, 32) {
    static const char* TOK[] = {"a", "#", " ", "\n", "\r\n", "b", "\t"};
    int lead = x.choose(7 * 7), n = x.choose(x.thorough ? 7 : 6); if (!x.mine()) return;
    string c = TOK[lead / 7]; c += TOK[lead % 7];
    for (int i = 0; i < n; i++) c += TOK[x.choose(x.thorough ? 7 : 6)];
    x.note("content \"%s\"", mc::esc(c).c_str());
    put(c); same(x, c);
}
MC_BODY(bytes, 1) {
    int b = x.choose(256), where = x.choose(4); if (b == '\r' || b == '\v' || b == '\f') return;
    string ch(1, (char)b), c = where == 0 ? ch + "q\nz\n" : where == 1 ? "q" + ch + "q\nz" : where == 2 ? "q" + ch + "\nz\n" : "x\n" + ch;
    x.note("byte %d at place %d", b, where); put(c); same(x, c);
}
// a line break, a comment sign or the end of file around the stream buffer's boundaries
MC_BODY(boundaries, 16) {
    static const size_t B[] = {1, 512, 4096, 8191, 8192, 16382, 16384, 65536};
    size_t b = B[x.choose(8)]; int d = x.range(-3, 3); if (!x.mine()) return;
    size_t n = (long)b + d > 0 ? b + d : 0; int fill = x.choose(3), tail = x.choose(6);
    string line(n, fill == 2 ? ' ' : 'm'); if (fill == 1) for (size_t i = 79; i < n; i += 80) line[i] = '\n';
    static const char* T[] = {"", "\n", "\r\n", "\nq", "\n# c\nq\n", "\r\n  q  \r\n"};
    string c = line + T[tail]; x.note("%zu characters (kind %d) then \"%s\"", n, fill, mc::esc(T[tail]).c_str());
    put(c); same(x, c);
}
MC_BODY(faults, 8) {
    static const char* C[] = {"", "a\n", "a\nb\n# c\n\nd", "  x \r\n#y\r\nz\r\n"};
    int ci = x.choose(5); size_t mx = x.choose(6); if (!x.mine()) return;
    string c; if (ci < 4) c = C[ci]; else for (int i = 0; i < 3000; i++) c += "line " + std::to_string(i) + (i % 7 ? "\n" : "\r\n");
    static const size_t M[] = {0, 1, 2, 3, 7, 4000}; if (ci == 4 && mx && M[mx] < 100) mx = 5;
    int kind = x.choose(3); int at = kind ? x.choose(12) : -1;
    x.note("content %d, at most %zu bytes per read%s%d", ci, M[mx], kind == 0 ? ", no fault " : kind == 1 ? ", EIO from read " : ", EINTR at read ", at);
    put(c); inj_on = true; inj_max = M[mx]; inj_fail_at = at; inj_errno = kind == 2 ? EINTR : EIO; inj_calls = 0; inj_hit = false;
    vector<string> got, want = reference(c); bool ok = LoadPlainTextFile("t.txt", got); inj_on = false;
    bool failed = inj_hit && kind == 1;
    MC_EQ(x, failed ? "fault-reported" : "success", ok, !failed);
    if (failed) want.clear();
    x.step(); if (got != want) x.fail(failed ? "fault-content" : "lines", "got %s, expected %s", join(got).substr(0, 500).c_str(), join(want).substr(0, 500).c_str());
    x.outcome(std::to_string(ok) + join(got));
}
MC_BODY_T(missing, 1, 10) {
    int k = x.choose(6); string p; vector<string> got; mc::clean_dir(x.scratch);
    switch (k) { case 0: p = "nope.txt"; break; case 1: p = "nodir/nope.txt"; break; case 2: mkdir("dir.txt", 0755); p = "dir.txt"; break;
        case 3: put("a\n"); chmod("t.txt", 0); p = "t.txt"; break; case 4: p = ""; break; default: if (symlink("gone", "l.txt")) {} p = "l.txt"; }
    x.note("unreadable path %s (case %d)", p.c_str(), k);
    MC_EQ(x, "missing-reported", LoadPlainTextFile(p, got), false); MC_EQ(x, "missing-empty", got.size(), 0u);
}
