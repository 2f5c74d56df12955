// S03: dotted-quad recogniser
#include "mc.hpp"
#include "basic.h"
using std::string; using std::vector;
// exactly four groups of 1..n digits, each 0..255, single dots.  lead: some group has a superfluous leading zero (not judged)
static bool quad(const string& s, bool& lead) {
    int groups = 0; size_t i = 0; lead = false;
    for (;;) {
        size_t b = i; long v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (v < 100000) v = v * 10 + (s[i] - '0'); i++; }
        if (i == b || v > 255) return false;
        if (i - b > 1 && s[b] == '0') lead = true;
        groups++;
        if (i == s.size()) return groups == 4;
        if (s[i] != '.' || groups == 4) return false;
        i++;
    }
}
static void check(mc::X& x, const string& s) {
    bool lead, want = quad(s, lead); x.note("\"%s\"", mc::esc(s).c_str());
    bool got = ccgl::IsIpAddress(s.c_str()); x.step();
    if (lead && want) return;
    if (got != want) x.fail(want ? "rejects-valid" : "accepts-invalid", "verdict %d", got);
    x.outcome(got);
}
MC_BODY(short_texts, 8) {
    string alpha = x.thorough ? "0259." : "25."; int n = x.choose(x.thorough ? 11 : 12); string s;
    for (int i = 0; i < n; i++) { s += alpha[x.choose((int)alpha.size())]; if (i == 1 && !x.mine()) return; }
    if (n < 2 && !x.mine()) return;
    check(x, s);
}
MC_BODY(octets, 8) {
    static const char* o[] = {"0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "65536", "4294967296", "4294967297", "18446744073709551617", "-1", "+1", "", " 1", "1 ", "a", "0x1", "1e1"};
    int n = sizeof o / sizeof *o; int k = x.range(3, 5); string s;
    int odd = x.choose(k);   // every octet text in one position, a smaller set in the others
    for (int i = 0; i < k; i++) { s += (i ? "." : "") + string(o[i == odd ? x.choose(n) : (x.thorough ? x.choose(12) : 2 * x.choose(6))]); if (i == 0 && !x.mine()) return; }
    check(x, s);
}
MC_BODY(every_byte, 1) {
    // a valid address with any byte inserted or substituted anywhere
    const string b = "10.255.0.199"; size_t p = x.choose((int)b.size() + 1); bool ins = x.flag(); int c = 1 + x.choose(255); string s = b;
    if (ins) s.insert(p, 1, (char)c); else if (p < s.size()) s[p] = (char)c;
    check(x, s);
}
