#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <atomic>
#include <typeinfo>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));

namespace mc {
std::vector<Body>& bodies() { static std::vector<Body> b; return b; }
const char* scratch_root = "";
void (*worker_init)(X&) = 0;

static long g_live = 0;
static void on_malloc(const volatile void*, size_t) { __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void* p) { if (p) __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); }
size_t live_blocks() { return (size_t)g_live; }

std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
        else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\"";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
std::string str(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }

static void rm_tree(const std::string& p, bool self) {
    DIR* d = opendir(p.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string q = p + "/" + e->d_name;
        struct stat st;
        if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(q.c_str(), 0755); rm_tree(q, true); }
        else ::unlink(q.c_str());
    }
    closedir(d);
    if (self) ::rmdir(p.c_str());
}
void clean_dir(const std::string& dir) {
    std::string root(scratch_root);
    if (root.size() < 6 || dir.compare(0, root.size(), root) != 0) { fprintf(stderr, "clean_dir outside scratch\n"); _exit(78); }
    rm_tree(dir, false);
}

void X::fail(const std::string& key, const char* fmt, ...) {
    nviol++;
    uint64_t& k = keycount[key];
    if (k++ > 0) return;                          // first (simplest) example of each key is enough
    char buf[8192];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    std::ostringstream o;
    o << "V\t" << bodyname << "\t" << key << "\t";
    for (size_t i = 0; i < pos; i++) o << (i ? "," : "") << choice[i];
    o << "\t" << esc(sh->note) << "\t" << esc(buf) << "\n";
    std::string s = o.str();
    if (out) { fwrite(s.data(), 1, s.size(), out); fflush(out); }
}

static bool advance(X& x) {
    while (!x.choice.empty() && x.choice.back() + 1 >= x.width.back()) { x.choice.pop_back(); x.width.pop_back(); }
    if (x.choice.empty()) return false;
    x.choice.back()++;
    x.fresh_from = x.choice.size();
    return true;
}

static void explore(X& x, BodyFn fn, uint64_t sample_every) {
    (void)sample_every;
    uint64_t nextsample = 1, nsamples = 0;
    for (;;) {
        x.pos = 0; x.mine_pos = 0; x.foreign = false; x.note_len = 0; x.sh->note[0] = 0;
        x.sh->nchoice = 0;
        bool pruned = false;
        // publish the prefix for crash attribution
        size_t m = x.choice.size() < 512 ? x.choice.size() : 512;
        for (size_t i = 0; i < m; i++) x.sh->choice[i] = x.choice[i];
        x.sh->nchoice = (int)m;
        x.sh->beat++;
        try { fn(x); } catch (Prune&) { pruned = true; }
        catch (std::exception& e) { x.fail("uncaught-exception", "uncaught exception %s: %s", typeid(e).name(), e.what()); }
        if (x.pos != x.choice.size()) {
            if (x.nviol == 0) { fprintf(stderr, "HARNESS NONDETERMINISM: replay used %zu of %zu choices\n", x.pos, x.choice.size()); _exit(77); }
            x.choice.resize(x.pos); x.width.resize(x.pos);
        }
        if (!x.foreign && !pruned) {
            size_t lo = x.fresh_from > x.mine_pos ? x.fresh_from : x.mine_pos;
            x.sh->nodes += (x.pos > lo ? x.pos - lo : 0) + 1;   // decision states first reached here, and the final state
            x.sh->executions++;
            if (x.sh->executions == nextsample && nsamples < 24 && x.out && x.sh->note[0]) {
                fprintf(x.out, "S\t%s\t%s\n", x.bodyname, esc(std::string(x.sh->note).substr(0, 600)).c_str());
                nextsample = nextsample * 7 + 3; nsamples++;
            }
        } else x.sh->skipped++;
        if (x.replay) return;
        if (!advance(x)) return;
    }
}

struct Item { size_t body; int shard; std::vector<int> resume; std::vector<int> width_unused; bool has_resume; int attempts; };
struct Running { pid_t pid; Item it; int slot; uint64_t beat; double beat_t; };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<int> parse_choices(const char* s) {
    std::vector<int> v; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str()));
    return v;
}

static bool thorough = false;
static std::string outdir;

static void worker(Item it, Shared* sh, int slot, bool replay) {
    const Body& b = bodies()[it.body];
    X x; x.sh = sh; x.shard = it.shard; x.nshards = b.shards; x.thorough = thorough; x.body = (int)it.body; x.bodyname = b.name;
    x.replay = replay; x.foreign = false; x.note_len = 0;
    std::string f = outdir + "/w." + b.name + "." + std::to_string(it.shard) + (replay ? ".replay" : "");
    x.out = fopen(f.c_str(), replay ? "w" : "a");
    x.scratch = std::string(scratch_root) + "/w" + std::to_string(slot);
    mkdir(x.scratch.c_str(), 0755);
    clean_dir(x.scratch);
    if (chdir(x.scratch.c_str()) != 0) _exit(79);
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    std::cout.setstate(std::ios::failbit);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    if (worker_init) worker_init(x);
    if (it.has_resume) {
        x.choice = it.resume;
        if (!replay) {           // resume after the crashed execution: recompute widths lazily by running up to it is unsafe,
            // so skip the crashed leaf: mark it and advance past it
            x.width = it.width_unused;
            x.choice.resize(x.width.size());
            if (!advance(x)) { sh->done = 1; fclose(x.out); _exit(0); }
        } else x.width.assign(x.choice.size(), std::numeric_limits<int>::max());
    }
    explore(x, b.fn, 1);
    for (auto& k : x.keycount) fprintf(x.out, "K\t%s\t%s\t%llu\n", b.name, k.first.c_str(), (unsigned long long)k.second);
    for (auto h : x.outcomes) fprintf(x.out, "O\t%s\t%llx\n", b.name, (unsigned long long)h);
    fclose(x.out);
    sh->done = 1;
    if (!replay) clean_dir(x.scratch);
    _exit(0);
}

} // namespace mc

using namespace mc;
int main(int argc, char** argv) {
    int jobs = 8; std::string only, replay_choices; bool is_replay = false; double budget = 1e9; int maxcrash = 6;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--out") outdir = argv[++i];
        else if (a == "--scratch") scratch_root = argv[++i];
        else if (a == "--body") only = argv[++i];
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--replay") { is_replay = true; replay_choices = argv[++i]; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    Shared* slots = (Shared*)mmap(0, sizeof(Shared) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(slots, 0, sizeof(Shared) * (jobs + 1));
    if (is_replay) {
        for (size_t b = 0; b < bodies().size(); b++) if (only == bodies()[b].name) {
            Item it; it.body = b; it.shard = 0; it.has_resume = true; it.attempts = 0; it.resume = parse_choices(replay_choices.c_str());
            worker(it, &slots[0], 0, true);
        }
        return 2;
    }
    std::vector<Item> todo;
    for (size_t b = 0; b < bodies().size(); b++) {
        if (!only.empty() && only != bodies()[b].name) continue;
        if (bodies()[b].thorough_only && !thorough) continue;
        for (int s = 0; s < bodies()[b].shards; s++) { Item it; it.body = b; it.shard = s; it.has_resume = false; it.attempts = 0; todo.push_back(it); }
    }
    size_t next = 0; std::vector<Running> run; std::vector<int> freeslot; for (int i = 0; i < jobs; i++) freeslot.push_back(i);
    struct Tot { uint64_t nodes, trans, exec, crashes, hangs; bool capped; double wall; }; std::map<std::string, Tot> tot;
    double t0 = now();
    FILE* log = fopen((outdir + "/log").c_str(), "w");
    auto absorb = [&](Running& r) {
        Shared* s = &slots[r.slot]; Tot& t = tot[bodies()[r.it.body].name];
        t.nodes += s->nodes; t.trans += s->transitions; t.exec += s->executions; t.wall = now() - t0;
    };
    bool capped = false;
    while (next < todo.size() || !run.empty()) {
        while (next < todo.size() && !freeslot.empty() && !capped) {
            Running r; r.it = todo[next++]; r.slot = freeslot.back(); freeslot.pop_back();
            memset(&slots[r.slot], 0, sizeof(Shared));
            fflush(log);
            r.beat = 0; r.beat_t = now();
            r.pid = fork();
            if (r.pid == 0) {
                std::string ef = outdir + "/err." + bodies()[r.it.body].name + "." + std::to_string(r.it.shard);
                int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2);
                worker(r.it, &slots[r.slot], r.slot, false);
            }
            run.push_back(r);
        }
        if (now() - t0 > budget && !capped) { capped = true; for (auto& r : run) tot[bodies()[r.it.body].name].capped = true; for (; next < todo.size(); next++) tot[bodies()[todo[next].body].name].capped = true; for (auto& r : run) kill(r.pid, SIGKILL); }
        bool any = false;
        for (size_t i = 0; i < run.size();) {
            Running& r = run[i]; int st; pid_t p = waitpid(r.pid, &st, WNOHANG);
            Shared* s = &slots[r.slot];
            bool hang = false;
            if (p == 0) {
                uint64_t bt = s->beat;
                if (bt != r.beat) { r.beat = bt; r.beat_t = now(); }
                else if (now() - r.beat_t > bodies()[r.it.body].timeout_s) { kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); p = r.pid; hang = true; }
            }
            if (p == r.pid) {
                any = true; absorb(r);
                bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done;
                if (!ok && !capped) {
                    if (WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79) {
                        fprintf(log, "E\t%s\tharness error %d\n", bodies()[r.it.body].name, WEXITSTATUS(st));
                    } else {
                        Tot& t = tot[bodies()[r.it.body].name]; (hang ? t.hangs : t.crashes)++;
                        std::string ef = outdir + "/err." + bodies()[r.it.body].name + "." + std::to_string(r.it.shard);
                        std::string kf = outdir + "/crash." + bodies()[r.it.body].name + "." + std::to_string(r.it.shard) + "." + std::to_string(r.it.attempts);
                        rename(ef.c_str(), kf.c_str());
                        fprintf(log, "C\t%s\t%s\t", bodies()[r.it.body].name, hang ? "hang" : "crash");
                        for (int k = 0; k < s->nchoice; k++) fprintf(log, "%s%d", k ? "," : "", s->choice[k]);
                        fprintf(log, "\t%s\t%s\n", esc(s->note).c_str(), kf.c_str());
                        tot[bodies()[r.it.body].name].capped = true;   // the rest of this shard is not explored
                        (void)maxcrash;
                    }
                }
                freeslot.push_back(r.slot); run.erase(run.begin() + i);
            } else i++;
        }
        if (!any) usleep(2000);
    }
    for (auto& t : tot) fprintf(log, "T\t%s\t%llu\t%llu\t%llu\t%llu\t%llu\t%d\t%.3f\n", t.first.c_str(), (unsigned long long)t.second.nodes, (unsigned long long)t.second.trans,
        (unsigned long long)t.second.exec, (unsigned long long)t.second.crashes, (unsigned long long)t.second.hangs, (int)t.second.capped, t.second.wall);
    fclose(log);
    return 0;
}
