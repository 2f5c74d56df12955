// see sched.hpp.  This file is never instrumented.
#include "sched.hpp"
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
using std::vector; using std::string;
namespace {
const int MAXT = 8; const size_t STACK = 512 * 1024;
enum Kind { READ, WRITE, RMW, ACQ, REL, NEXT, START };
struct Op { Kind k; uintptr_t a; unsigned n; };
struct Clock { unsigned c[MAXT]; Clock() { memset(c, 0, sizeof c); } void join(const Clock& o) { for (int i = 0; i < MAXT; i++) c[i] = std::max(c[i], o.c[i]); } };
struct Point { int chosen; unsigned enabled, backtrack, done, sleep; };
struct Last { int idx[MAXT][2]; unsigned own[MAXT][2]; Clock w, r; Last() { for (auto& i : idx) i[0] = i[1] = -1; memset(own, 0, sizeof own); } };   // last read [0] / write [1] of each thread
struct Fiber { ucontext_t ctx; char* stack; bool live, done, started; Op next; bool waiting; int nested; unsigned steps; Clock clk; uint64_t cursor; };
struct Loop { long start, end, incr, chunk; long next; int used; };
bool armed = false; int team_size = 1;                 // exploration in progress
bool in_team = false; int cur = -1, nthreads = 1; Fiber fib[MAXT]; ucontext_t main_ctx;
void (*tfn)(void*); void* tdata;
vector<Point> path; size_t pos_ = 0; int region = 0, focus_ = -1; uint64_t nevents = 0, nraces = 0; bool diverged = false, redundant = false; unsigned asleep = 0;
std::unordered_map<uintptr_t, Last> mem; std::map<uintptr_t, int> held; std::map<uintptr_t, Clock> lockclk; int arrived = 0; Clock barrier_clk; unsigned barrier_gen = 0;
vector<Loop> loops; vector<uint64_t> seen_single; void* copyprivate = nullptr; string schedule;
bool own_stack(uintptr_t a) { char* s = fib[cur].stack; return a >= (uintptr_t)s && a < (uintptr_t)s + STACK; }
bool ready(int t) { Fiber& f = fib[t]; if (!f.live || f.done || f.waiting) return false; if (f.next.k == ACQ) { auto it = held.find(f.next.a); return it == held.end() || it->second < 0; } return true; }
unsigned enabled() { unsigned m = 0; for (int t = 0; t < nthreads; t++) if (ready(t)) m |= 1u << t; return m; }
int pb_ = -1, preempts = 0; std::unordered_map<uintptr_t, char> contested;      // bounded number of preemptions, at contested addresses only
void record(int t, int idx) {                            // the event of thread t at point idx: races with earlier ones, and its clock
    Fiber& f = fib[t]; const Op& o = f.next; nevents++; f.steps++; Clock before = f.clk; f.clk.c[t] = f.steps;
    if (o.k == START) return;
    bool wr = o.k != READ; unsigned bytes = o.k == ACQ || o.k == REL || o.k == NEXT ? 1 : o.n; uintptr_t base = o.k == ACQ || o.k == REL ? ~o.a : o.a; bool explore = focus_ < 0 || focus_ == region; vector<std::pair<int, int>> hits;
    if (o.k == REL) { lockclk[o.a] = f.clk; held[o.a] = -1; return; }        // a release commutes with everything else
    if (o.k == ACQ) { held[o.a] = t; }
    for (unsigned b = 0; b < bytes; b++) { Last& l = mem[base + b];
        for (int q = 0; q < nthreads; q++) { if (q == t) continue; int i = l.idx[q][1], w = 1; if (wr && l.idx[q][0] > i) { i = l.idx[q][0]; w = 0; } if (i < 0) continue; if (before.c[q] < l.own[q][w]) { nraces++; hits.push_back({i, q}); if (pb_ >= 0) contested[base + b] = 1; } }
        if (wr) { f.clk.join(l.r); f.clk.join(l.w); } else f.clk.join(l.w); }
    if (o.k == ACQ) { auto it = lockclk.find(o.a); if (it != lockclk.end()) f.clk.join(it->second); }
    for (unsigned b = 0; b < bytes; b++) { Last& l = mem[base + b]; l.idx[t][wr] = idx; l.own[t][wr] = f.steps; if (wr) l.w.join(f.clk); else l.r.join(f.clk); }
    if (explore && !redundant && pb_ < 0) for (auto& h : hits) { Point& p = path[h.first]; if (p.enabled >> t & 1) p.backtrack |= 1u << t; else p.backtrack |= p.enabled; }
}
bool independent(const Op& a, const Op& b) {
    if (a.k == START || b.k == START || a.k == REL || b.k == REL) return true; bool la = a.k == ACQ, lb = b.k == ACQ; if (la != lb) return true; if (la) return a.a != b.a;
    if (a.k == READ && b.k == READ) return true; return a.a + a.n <= b.a || b.a + b.n <= a.a; }
bool is_contested(const Op& o) { if (o.k == START || o.k == REL) return false; if (o.k == ACQ) return true; for (unsigned b = 0; b < o.n; b++) if (contested.count(o.a + b)) return true; return false; }
int pick_bounded(unsigned en) {
    bool on = cur >= 0 && (en >> cur & 1);
    if (pos_ == path.size()) { Point p; p.enabled = en; p.done = p.sleep = 0; bool here = focus_ < 0 || focus_ == region; p.backtrack = !here ? 0 : !on ? en : preempts < pb_ && is_contested(fib[cur].next) ? en : 0; p.chosen = on ? cur : __builtin_ctz(en); p.backtrack |= 1u << p.chosen; path.push_back(p); }
    Point& p = path[pos_++]; if (!(en >> p.chosen & 1)) { diverged = true; p.chosen = __builtin_ctz(en); } if (on && p.chosen != cur) preempts++; return p.chosen;
}
int pick(unsigned en) {                                   // the scheduling decision
    if (pb_ >= 0) return pick_bounded(en);
    if (pos_ == path.size()) {
        Point p; p.enabled = en; p.done = 0; p.sleep = asleep & en; unsigned free = en & ~p.sleep; if (!free) { redundant = true; free = en; }       // every continuation has been explored elsewhere
        p.chosen = (cur >= 0 && (free >> cur & 1)) ? cur : __builtin_ctz(free); p.backtrack = 1u << p.chosen; path.push_back(p); }
    Point& p = path[pos_++]; if (!(en >> p.chosen & 1)) { diverged = true; p.chosen = __builtin_ctz(en); } p.enabled = en;
    unsigned z = (asleep | p.done) & ~(1u << p.chosen); asleep = 0; for (int q = 0; q < nthreads; q++) if ((z >> q & 1) && independent(fib[q].next, fib[p.chosen].next)) asleep |= 1u << q;
    return p.chosen;
}
void switch_to(int t) { int from = cur; if (from == t) return; cur = t; if (from < 0) swapcontext(&main_ctx, &fib[t].ctx); else swapcontext(&fib[from].ctx, &fib[t].ctx); }
void go() {                                               // let some ready thread perform its next operation and run on
    unsigned en = enabled();
    if (!en) { bool all = true; for (int t = 0; t < nthreads; t++) all = all && fib[t].done; if (all) { int from = cur; cur = -1; swapcontext(&fib[from].ctx, &main_ctx); return; } fprintf(stderr, "DEADLOCK of the team\n"); abort(); }
    int t = pick(en); record(t, (int)pos_ - 1); if (schedule.size() < 4000) schedule += char('0' + t); switch_to(t);
}
void announce(Kind k, uintptr_t a, unsigned n) { if (fib[cur].nested) return; Fiber& f = fib[cur]; f.next.k = k; f.next.a = a; f.next.n = n; go(); }
void access(Kind k, const void* p, unsigned n) { if (!in_team || !armed || !n) return; uintptr_t a = (uintptr_t)p; if (own_stack(a)) return; announce(k, a, n); }
void barrier() {
    if (!in_team || fib[cur].nested) return; Fiber& f = fib[cur]; barrier_clk.join(f.clk); arrived++; int live = 0; for (int t = 0; t < nthreads; t++) live += !fib[t].done;
    if (arrived < live) { f.waiting = true; go(); if (f.waiting) abort(); }
    else { arrived = 0; for (int t = 0; t < nthreads; t++) { fib[t].clk.join(barrier_clk); fib[t].waiting = false; if (t != cur && !fib[t].done) { fib[t].next.k = START; } } announce(START, 0, 0); }
}
void body(int t) {
    tfn(tdata); Fiber& f = fib[t]; f.done = true; f.live = false;
    if (arrived > 0) { int live = 0; for (int q = 0; q < nthreads; q++) live += !fib[q].done; if (arrived == live) { arrived = 0; for (int q = 0; q < nthreads; q++) if (!fib[q].done) { fib[q].clk.join(barrier_clk); fib[q].waiting = false; fib[q].next.k = START; } } }
    go(); abort();
}
void team(void (*fn)(void*), void* data, unsigned want) {
    int n = want ? (int)want : team_size; if (n > MAXT) n = MAXT;
    if (!armed || in_team || n < 1) { if (in_team) { fib[cur].nested++; fn(data); fib[cur].nested--; return; } region++; bool was = in_team; int nt = nthreads; nthreads = 1; fn(data); nthreads = nt; in_team = was; return; }
    region++; mem.clear(); lockclk.clear(); held.clear(); barrier_clk = Clock(); arrived = 0; loops.clear(); seen_single.clear(); asleep = 0; nthreads = n; tfn = fn; tdata = data; in_team = true; cur = -1;
    for (int t = 0; t < n; t++) { Fiber& f = fib[t]; if (!f.stack) { f.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } f.live = true; f.done = f.waiting = false; f.nested = 0; f.steps = 0; f.clk = Clock(); f.cursor = 0; f.next.k = START; f.next.n = 0; getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = 0; makecontext(&f.ctx, (void (*)())body, 1, t); }
    go(); in_team = false; cur = -1; nthreads = 1;
}
Loop* join_loop(long s, long e, long i, long c) { Fiber& f = fib[cur]; uint64_t id = f.cursor++; while (loops.size() <= id) { Loop l = {s, e, i, c < 1 ? 1 : c, s, 0}; loops.push_back(l); } return &loops[id]; }
bool take(long* a, long* b) { Fiber& f = fib[cur]; uint64_t id = f.cursor - 1; announce(RMW, (uintptr_t)0x100 + id, 1); Loop& l = loops[id]; if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false; *a = l.next; long e = l.next + l.chunk * l.incr; if (l.incr > 0 ? e > l.end : e < l.end) e = l.end; l.next = e; *b = e; return true; }
Loop serial; 
bool loop_start(long s, long e, long i, long c, long* a, long* b) { if (!in_team || fib[cur].nested) { serial = Loop{s, e, i, c, e, 0}; if (i > 0 ? s >= e : s <= e) return false; *a = s; *b = e; return true; } join_loop(s, e, i, c); return take(a, b); }
bool loop_next(long* a, long* b) { if (!in_team || fib[cur].nested) return false; return take(a, b); }
struct LoopArgs { void (*fn)(void*); void* data; long s, e, i, c; };
void loop_body(void* p) { LoopArgs* l = (LoopArgs*)p; if (in_team && !fib[cur].nested) { Fiber& f = fib[cur]; while (loops.empty()) { Loop q = {l->s, l->e, l->i, l->c < 1 ? 1 : l->c, l->s, 0}; loops.push_back(q); } f.cursor = 1; } l->fn(l->data); }
LoopArgs serial_args; bool serial_first = false;
void loop_team(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c) { LoopArgs a = {fn, data, s, e, i, c}; if (!armed || in_team) { serial_args = a; serial_first = true; } team(loop_body, &a, n); }
bool team_next(long* a, long* b) { if (!in_team || fib[cur].nested) { if (!serial_first) return false; serial_first = false; if (serial_args.i > 0 ? serial_args.s >= serial_args.e : serial_args.s <= serial_args.e) return false; *a = serial_args.s; *b = serial_args.e; return true; } return take(a, b); }
}
namespace sched {
Result explore(int n, const string* want, const std::function<string()>& fn, uint64_t cap, int focus, std::function<void(const string&)> all, int preemptions) {
    Result r = {0, 0, 0, 0, false, "", ""}; path.clear(); pb_ = preemptions; contested.clear(); focus_ = focus; nraces = 0; nevents = 0;
    for (;;) {
        pos_ = 0; region = 0; redundant = false; asleep = 0; preempts = 0; schedule.clear(); team_size = n; armed = true; in_team = false; cur = -1; string got = fn(); armed = false; team_size = 1; r.schedules++; r.regions = region; if (all) all(got);
        if (diverged) { fprintf(stderr, "SCHEDULE REPLAY DIVERGED\n"); _exit(77); }
        if (want && got != *want) { r.bad = got; r.bad_schedule = schedule; if (r.bad.empty()) r.bad = "(empty)"; break; }
        path.resize(pos_); size_t i = path.size(); for (; i > 0; i--) { Point& p = path[i - 1]; p.done |= 1u << p.chosen; unsigned left = p.backtrack & ~p.done & ~p.sleep; if (left) { p.chosen = __builtin_ctz(left); path.resize(i); break; } } if (i == 0) break;
        if (r.schedules >= cap) { r.capped = true; break; }
    }
    r.events = nevents; r.races = nraces; return r; }
string sequential(const std::function<string()>& fn, int* regions) { armed = false; region = 0; team_size = 1; string s = fn(); if (regions) *regions = region; return s; }
}
// ---- what the instrumentation calls
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(READ, p, n); } void __tsan_write##n(void* p) { access(WRITE, p, n); } void __tsan_unaligned_read##n(void* p) { access(READ, p, n); } void __tsan_unaligned_write##n(void* p) { access(WRITE, p, n); } \
    void __tsan_volatile_read##n(void* p) { access(READ, p, n); } void __tsan_volatile_write##n(void* p) { access(WRITE, p, n); } void __tsan_unaligned_volatile_read##n(void* p) { access(READ, p, n); } void __tsan_unaligned_volatile_write##n(void* p) { access(WRITE, p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(READ, p, n); } void __tsan_write_range(void* p, unsigned long n) { access(WRITE, p, n); }
void __tsan_vptr_read(void** p) { access(READ, p, 8); } void __tsan_vptr_update(void** p, void*) { access(WRITE, p, 8); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(READ, s, n); access(WRITE, d, n); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { access(READ, s, n); access(WRITE, d, n); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { access(WRITE, d, n); return memset(d, c, n); }
#define ATOMIC(bits, T) T __tsan_atomic##bits##_load(const volatile T* p, int) { /* the compiler follows it by a compare-and-exchange which it does not announce */ access(RMW, (const void*)p, sizeof(T)); return *p; } void __tsan_atomic##bits##_store(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = v; return o; } T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = o + v; return o; } T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = o | v; return o; } T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = o & v; return o; } T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = o ^ v; return o; } T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access(RMW, (const void*)p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b); } T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access(RMW, (const void*)p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- what OpenMP code calls
void omp_set_num_threads(int) {} int omp_get_num_threads() { return in_team && !fib[cur].nested ? nthreads : 1; } int omp_get_thread_num() { return in_team && !fib[cur].nested ? cur : 0; } int omp_get_max_threads() { return armed ? team_size : 1; } int omp_get_num_procs() { return 8; } int omp_in_parallel() { return in_team; } int omp_get_level() { return in_team; } void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; } int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { team(fn, d, n); } void GOMP_parallel_start(void (*)(void*), void*, unsigned) { abort(); } unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { team(fn, d, n); return n ? n : team_size; }
void GOMP_barrier() { barrier(); } bool GOMP_barrier_cancel() { barrier(); return false; }
#define ACQUIRE(a) do { if (in_team && armed) announce(ACQ, (uintptr_t)(a), 1); } while (0)
#define RELEASE(a) do { if (in_team && armed) announce(REL, (uintptr_t)(a), 1); } while (0)
void GOMP_critical_start() { ACQUIRE(&main_ctx); } void GOMP_critical_end() { RELEASE(&main_ctx); } void GOMP_critical_name_start(void** p) { ACQUIRE(p); } void GOMP_critical_name_end(void** p) { RELEASE(p); } void GOMP_atomic_start() { ACQUIRE(&tdata); } void GOMP_atomic_end() { RELEASE(&tdata); }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* p) { ACQUIRE(p); } void omp_unset_lock(void* p) { RELEASE(p); } void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void* p) { ACQUIRE(p); } void omp_unset_nest_lock(void* p) { RELEASE(p); }
bool GOMP_single_start() { if (!in_team || fib[cur].nested) return true; uint64_t id = (uint64_t)1 << 40 | fib[cur].cursor++; announce(RMW, (uintptr_t)0x10000 + (id & 0xffff), 1); for (auto s : seen_single) if (s == (id | (uint64_t)region << 48)) return false; seen_single.push_back(id | (uint64_t)region << 48); return true; }
void* GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; barrier(); void* p = copyprivate; barrier(); return p; } void GOMP_single_copy_end(void* p) { copyprivate = p; barrier(); barrier(); }
#define LOOPS(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return team_next(a, b); } void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { loop_team(fn, d, n, s, e, i, c); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return team_next(a, b); } void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { loop_team(fn, d, n, s, e, i, 1); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() {} bool GOMP_loop_end_cancel() { barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; } unsigned GOMP_sections_next() { long a, b; return team_next(&a, &b) ? (unsigned)a : 0; } void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { loop_team(fn, d, n, 1, (long)c + 1, 1, 1); } void GOMP_sections_end() { barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_ordered_start() {} void GOMP_ordered_end() {} void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {} bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
void GOMP_task(void (*fn)(void*), void* d, void (*cp)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) { if (cp) { char* b = (char*)malloc(size + align); char* a = (char*)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cp(a, d); fn(a); free(b); } else fn(d); }
}
