// Stateless bounded model checker for sequential code: a harness body is a program with
// nondeterministic choices (x.choose(n)); the explorer runs it once for every choice sequence
// (depth-first, complete), sharded over worker processes.  Every execution runs the real code
// and is compared with a reference model by the body itself.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <limits>

namespace mc {

struct Shared {                    // one per worker slot, in memory shared with the parent
    volatile uint64_t beat;        // bumped on every execution (watchdog)
    volatile int64_t done;
    uint64_t nodes, transitions, executions, skipped;
    int nchoice;
    int choice[512];
    char note[16384];
};

struct Prune {};                   // thrown by X::prune()

class X {
public:
    X(): sh(0), shard(0), nshards(1), thorough(false), body(0), mine_ctr(0), replay(false), out(0), nviol(0),
         fresh_from(0), pos(0), mine_pos(0) { choice.reserve(512); width.reserve(512); last_pre.reserve(512); }
    // -- choices
    int choose(int n) {
        if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
        if (pos < choice.size()) {
            if (choice[pos] >= n) {
                fprintf(stderr, "HARNESS NONDETERMINISM: choice %d of %d at %zu\n", choice[pos], n, pos);
                _exit(77);
            }
            width[pos] = n;
        } else {
            choice.push_back(0); width.push_back(n);
        }
        return choice[pos++];
    }
    bool flag() { return choose(2) == 1; }
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    // Call once, after a few cheap leading choices: true when this shard owns the prefix.
    bool mine() {
        mine_pos = pos;
        if (replay || nshards == 1) return true;
        std::vector<int> pre(choice.begin(), choice.begin() + pos);
        if (pre != last_pre) { last_pre = pre; mine_ctr++; }
        bool m = (int)((mine_ctr - 1) % (uint64_t)nshards) == shard;
        if (!m) foreign = true;
        return m;
    }
    void prune() { throw Prune(); }
    // -- bookkeeping
    void step(uint64_t n = 1) { sh->transitions += n; }          // operations of the implementation executed
    void outcome(uint64_t h) { if (outcomes.size() < 2000000) outcomes.insert(h); }
    void outcome(const std::string& s) { outcome((uint64_t)std::hash<std::string>()(s)); }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt); vsnprintf(sh->note, sizeof sh->note, fmt, ap); va_end(ap);
        note_len = strlen(sh->note);
    }
    void also(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (note_len + 2 >= sizeof sh->note) return;
        va_list ap; va_start(ap, fmt);
        vsnprintf(sh->note + note_len, sizeof sh->note - note_len, fmt, ap); va_end(ap);
        note_len += strlen(sh->note + note_len);
    }
    // -- verdicts.  key: stable identifier of *what* fails (known findings are matched on it)
    void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    Shared* sh; int shard, nshards; bool thorough; int body; uint64_t mine_ctr; bool replay; FILE* out;
    uint64_t nviol; size_t fresh_from, pos, mine_pos; bool foreign; size_t note_len;
    std::vector<int> choice, width, last_pre;
    std::unordered_set<uint64_t> outcomes;
    std::map<std::string, uint64_t> keycount;
    std::string scratch;             // private, empty-able directory of this worker
    const char* bodyname;
};

typedef void (*BodyFn)(X&);
struct Body { const char* name; BodyFn fn; int shards; int timeout_s; bool thorough_only; };
std::vector<Body>& bodies();
struct Reg { Reg(const char* n, BodyFn f, int shards, int timeout_s, bool thorough_only = false) {
    Body b = {n, f, shards, timeout_s, thorough_only}; bodies().push_back(b); } };
// shards: into how many work items the body is split (needs x.mine() when > 1)
#define MC_BODY(name, shards) static void name(mc::X& x); static mc::Reg reg_##name(#name, name, shards, 60); static void name(mc::X& x)
#define MC_BODY_T(name, shards, timeout) static void name(mc::X& x); static mc::Reg reg_##name(#name, name, shards, timeout); static void name(mc::X& x)

std::string esc(const std::string& s);       // printable form
std::string str(double v);
void clean_dir(const std::string& dir);      // empties a scratch directory (only below the scratch root)
extern const char* scratch_root;
extern void (*worker_init)(X&);              // optional: run once in each worker before exploring
// Live heap bytes/blocks as counted by the sanitizer's allocator hooks (0 without a sanitizer)
size_t live_blocks();

} // namespace mc
#define MC_EQ(x, key, got, want) do { (x).step(); auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) { \
    std::ostringstream o_; o_.precision(17); o_ << #got << " = " << g_ << ", expected " << w_; (x).fail(key, "%s", o_.str().c_str()); } } while (0)
#define MC_TRUE(x, key, cond) do { (x).step(); if (!(cond)) (x).fail(key, "not true: %s", #cond); } while (0)
#endif
