// A controlled OpenMP runtime: the code under test is compiled with -fopenmp -fsanitize=thread and linked with this file instead of
// the real runtimes.  The threads of a team are coroutines; every instrumented memory access inside a parallel region is recorded
// and is a point at which the scheduler may switch, so an execution follows a chosen interleaving and is reproducible.
// For every parallel region one event is written to $QK_OMP_TRACE: which threads read and wrote each storage location, and how
// (plain, atomic, under a lock), grouped by pattern.  The specification T_Omp decides whether that is free of races.
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <new>

namespace {
const size_t STK = 512 * 1024;
enum { MAXT = 32 };
struct Th { ucontext_t c; char *stk; bool done; int bar; int sec; const void *watch; uint64_t wval; int wsz; int wcls; std::vector<int> locks; };
struct Team {
    int n, cur, phase, live; Th t[MAXT]; ucontext_t back;
    void (*fn)(void *); void *data;
    // work sharing
    struct Ws { long next, end, incr, chunk; }; std::map<int, Ws> ws; int ws_round[MAXT];
    int single_round[MAXT], single_cur; void *copied;
};
struct Loc { uint32_t r, w; };
struct Key { int phase; uintptr_t a; bool operator==(const Key &o) const { return phase == o.phase && a == o.a; } };
struct KH { size_t operator()(const Key &k) const { return (k.a * 0x9E3779B97F4A7C15ull) ^ (size_t) k.phase; } };
typedef std::map<int, Loc> Cls;     // 0 plain, 1 atomic, 2.. locks
Team *g = 0;
bool in_hook = false;
std::unordered_map<Key, Cls, KH> *acc = 0;
std::map<std::string, int> *lockid = 0;
std::vector<void *> *defer = 0;
FILE *out = 0; uint64_t rs = 1; int nreg = 0; int want_t = 0;
int mode = 0;      // 0 ascending, 1 descending, 2 round robin, 3 random
std::vector<int> *owner = 0;  // lock -> thread holding it, -1 free
long steps = 0;

uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
int lock_of(const char *n) { auto i = lockid->find(n); if (i != lockid->end()) return i->second; int k = 2 + lockid->size(); (*lockid)[n] = k; return k; }
void note(uintptr_t a, int sz, bool w, int cls) {
    Th &t = g->t[g->cur];
    if (a >= (uintptr_t) t.stk && a < (uintptr_t) t.stk + STK) return;    // its own stack
    if (cls == 0 && !t.locks.empty()) cls = t.locks.back();
    uint32_t bit = 1u << g->cur;
    for (int i = 0; i < sz; ++i) { Loc &l = (*acc)[Key{g->phase, a + i}][cls]; if (w) l.w |= bit; else l.r |= bit; }
}
int pick() {   // the next thread to run: any that is neither finished nor waiting at a barrier
    int cand[MAXT], n = 0;
    for (int i = 0; i < g->n; ++i) if (!g->t[i].done && g->t[i].bar == g->phase) cand[n++] = i;
    if (!n) return -1;
    if (mode == 0) return cand[0];
    if (mode == 1) return cand[n - 1];
    if (mode == 2) { for (int i = 0; i < n; ++i) if (cand[i] > g->cur) return cand[i]; return cand[0]; }
    if (rnd() % 4) for (int i = 0; i < n; ++i) if (cand[i] == g->cur) return cand[i];
    return cand[rnd() % n];
}
void switch_to(int k) { if (k == g->cur) return; int o = g->cur; g->cur = k; swapcontext(&g->t[o].c, &g->t[k].c); }
void yield() { if (mode >= 2) { int k = pick(); if (k >= 0) switch_to(k); } }
void forced() { int k = -1; for (int i = 1; i <= g->n; ++i) { int c = (g->cur + i) % g->n; if (!g->t[c].done && g->t[c].bar == g->phase) { k = c; break; } } if (k >= 0) switch_to(k); }
void settle() {   // an inline compare-and-swap that followed an atomic load
    Th &t = g->t[g->cur];
    if (t.watch) { uint64_t v = 0; memcpy(&v, t.watch, t.wsz); if (v != t.wval) note((uintptr_t) t.watch, t.wsz, true, t.wcls); t.watch = 0; }
}
struct Guard { Guard() { in_hook = true; } ~Guard() { in_hook = false; } };
void access(const void *p, int sz, bool w, int cls) {
    if (!g || in_hook) return;
    { Guard x; ++steps; settle(); note((uintptr_t) p, sz, w, cls); yield(); }
}
void aload(const void *p, int sz) {
    if (!g || in_hook) return;
    Guard x; settle(); note((uintptr_t) p, sz, false, 1); yield();
    Th &t = g->t[g->cur]; t.watch = p; t.wsz = sz; t.wcls = 1; t.wval = 0; memcpy(&t.wval, p, sz);
}
void body() {
    Team *m = g; in_hook = false;
    m->fn(m->data);
    in_hook = true;
    settle();
    m->t[m->cur].done = true; --m->live;
    // next runnable thread; when all the others wait at a barrier it opens
    int k = pick();
    if (k < 0 && m->live > 0) { ++m->phase; k = pick(); }
    if (k < 0) { setcontext(&m->back); }
    m->cur = k; setcontext(&m->t[k].c);
}
void barrier() {
    if (!g) return;
    Guard x; settle();
    int me = g->cur; ++g->t[me].bar;
    int k = -1;
    for (int i = 0; i < g->n; ++i) if (!g->t[i].done && g->t[i].bar == g->phase) { k = (mode == 0) ? (k < 0 ? i : k) : i; }
    if (k < 0) { ++g->phase; return; }
    g->cur = k; swapcontext(&g->t[me].c, &g->t[k].c);
}
std::string list(uint32_t m) { std::string s = "["; for (int i = 0; i < MAXT; ++i) if (m >> i & 1) { if (s.size() > 1) s += ','; s += std::to_string(i); } return s + "]"; }
void emit(int n) {
    if (!out) return;
    std::map<std::string, long> sig;
    for (auto &e : *acc) {
        std::string s;
        for (auto &c : e.second) { if (!s.empty()) s += ','; s += "{\"k\":" + std::to_string(c.first) + ",\"r\":" + list(c.second.r) + ",\"w\":" + list(c.second.w) + "}"; }
        ++sig[s];
    }
    static const char *md[] = {"ascending", "descending", "round-robin", "random"};
    fprintf(out, "{\"e\":{\"op\":\"region\",\"n\":%d,\"t\":%d,\"sch\":\"%s\",\"steps\":%ld},\"st\":\"ok\",\"obs\":{\"locs\":[", nreg, n, md[mode], steps);
    bool first = true;
    for (auto &s : sig) { fprintf(out, "%s{\"bytes\":%ld,\"acc\":[%s]}", first ? "" : ",", s.second, s.first.c_str()); first = false; }
    fprintf(out, "]}}\n"); fflush(out);
}
int processors() { static int p = 0; if (!p) { const char *s = getenv("QK_OMP_SEED"); static const int c[] = {8, 12, 24, 8, 6, 32}; p = c[(s ? strtoull(s, 0, 10) : 0) % 6]; } return p; }   // one machine for the whole execution
void region(void (*fn)(void *), void *data, unsigned req, long start = 0, long end = 0, long incr = 1, long chunk = 0) {
    if (g) {    // nested: a team of one
        fn(data); return;
    }
    static bool init = false;
    if (!init) { init = true; const char *p = getenv("QK_OMP_TRACE"); if (p) out = fopen(p, "w"); const char *s = getenv("QK_OMP_SEED"); rs = 88172645463325252ull ^ ((s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull); if (!rs) rs = 1; for (int i = 0; i < 20; ++i) rnd(); }
    int cap = req ? (int) req : (want_t ? want_t : processors()); if (cap > MAXT) cap = MAXT;
    int n = 1 + rnd() % cap; if (rnd() % 3 == 0) n = cap;
    mode = rnd() % 4; ++nreg; steps = 0;
    Team *m = new Team(); acc = new std::unordered_map<Key, Cls, KH>(); if (!lockid) lockid = new std::map<std::string, int>(); defer = new std::vector<void *>();
    m->n = m->live = n; m->fn = fn; m->data = data; m->phase = 0; m->single_cur = 0; m->copied = 0;
    if (chunk > 0) m->ws[1] = Team::Ws{start, end, incr, chunk};
    for (int i = 0; i < n; ++i) {
        Th &t = m->t[i]; t.done = false; t.bar = 0; t.watch = 0; t.stk = (char *) malloc(STK); m->ws_round[i] = chunk > 0 ? 1 : 0; m->single_round[i] = 0;
        getcontext(&t.c); t.c.uc_stack.ss_sp = t.stk; t.c.uc_stack.ss_size = STK; t.c.uc_link = 0; makecontext(&t.c, (void (*)()) body, 0);
    }
    g = m; m->cur = -1; int k = pick(); m->cur = k;
    in_hook = true;
    swapcontext(&m->back, &m->t[k].c);
    g = 0;
    emit(n);
    std::vector<void *> *d = defer; defer = 0;
    for (void *p : *d) free(p);
    for (int i = 0; i < n; ++i) free(m->t[i].stk);
    delete d; delete acc; acc = 0; delete m; in_hook = false;
}
void lock(const char *n) {
    if (!g) return;
    Guard x; settle(); yield();
    int id = lock_of(n);
    if (!owner) owner = new std::vector<int>();
    while ((int) owner->size() <= id) owner->push_back(-1);
    while ((*owner)[id] >= 0) forced();
    (*owner)[id] = g->cur; g->t[g->cur].locks.push_back(id);
}
void unlock(const char *n) {
    if (!g) return;
    Guard x; settle(); int id = lock_of(n); (*owner)[id] = -1;
    std::vector<int> &l = g->t[g->cur].locks; for (size_t i = l.size(); i-- > 0;) if (l[i] == id) { l.erase(l.begin() + i); break; }
    yield();
}
bool grab(long *s, long *e) {     // a thread may be in an earlier loop than another one (nowait): the loops are told apart by their number
    Team::Ws &w = g->ws[g->ws_round[g->cur]];
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *s = w.next; long x = w.next + w.chunk * w.incr;
    if (w.incr > 0 ? x > w.end : x < w.end) x = w.end;
    w.next = x; *e = x; return true;
}
bool loop_start(long start, long end, long incr, long chunk, long *s, long *e) {
    if (!g) { if (incr > 0 ? start >= end : start <= end) return false; *s = start; *e = end; return true; }
    Guard x; settle(); yield();
    int me = g->cur; ++g->ws_round[me];
    if (!g->ws.count(g->ws_round[me])) g->ws[g->ws_round[me]] = Team::Ws{start, end, incr, chunk > 0 ? chunk : 1};
    return grab(s, e);
}
bool loop_next(long *s, long *e) { if (!g) return false; Guard x; settle(); yield(); return grab(s, e); }
}

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
extern "C" void __real_free(void *);
static void drop(void *p) { if (g && !in_hook && defer && p) { in_hook = true; defer->push_back(p); in_hook = false; } else __real_free(p); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }

extern "C" {
void __wrap_free(void *p) { drop(p); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false, 0); access(d, n, true, 0); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false, 0); access(d, n, true, 0); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true, 0); return __real_memset(d, c, n); }

void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { region(fn, d, n); }
#define PLOOP(name) void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { region(fn, d, n, s, e, i, c > 0 ? c : 1); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided) PLOOP(GOMP_parallel_loop_static)
#define PLOOPR(name) void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, s, e, i, 1); }
PLOOPR(GOMP_parallel_loop_runtime) PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime) PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
#define LS(name) bool name(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
LS(GOMP_loop_dynamic_start) LS(GOMP_loop_nonmonotonic_dynamic_start) LS(GOMP_loop_guided_start) LS(GOMP_loop_nonmonotonic_guided_start) LS(GOMP_loop_static_start)
#define LR(name) bool name(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
LR(GOMP_loop_runtime_start) LR(GOMP_loop_maybe_nonmonotonic_runtime_start) LR(GOMP_loop_nonmonotonic_runtime_start)
#define LN(name) bool name(long *a, long *b) { return loop_next(a, b); }
LN(GOMP_loop_dynamic_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_guided_next) LN(GOMP_loop_static_next) LN(GOMP_loop_runtime_next) LN(GOMP_loop_maybe_nonmonotonic_runtime_next) LN(GOMP_loop_nonmonotonic_runtime_next)
// loops over an unsigned counter: the bounds are far below 2^63 and a descending loop has its increment as a wrapped number
typedef unsigned long long ull;
#define US(name) bool name(bool, ull s, ull e, ull i, ull c, ull *a, ull *b) { return loop_start((long) s, (long) e, (long) i, (long) c, (long *) a, (long *) b); }
US(GOMP_loop_ull_dynamic_start) US(GOMP_loop_ull_nonmonotonic_dynamic_start) US(GOMP_loop_ull_guided_start) US(GOMP_loop_ull_nonmonotonic_guided_start) US(GOMP_loop_ull_static_start)
#define UR(name) bool name(bool, ull s, ull e, ull i, ull *a, ull *b) { return loop_start((long) s, (long) e, (long) i, 1, (long *) a, (long *) b); }
UR(GOMP_loop_ull_runtime_start) UR(GOMP_loop_ull_maybe_nonmonotonic_runtime_start) UR(GOMP_loop_ull_nonmonotonic_runtime_start)
#define UN(name) bool name(ull *a, ull *b) { return loop_next((long *) a, (long *) b); }
UN(GOMP_loop_ull_dynamic_next) UN(GOMP_loop_ull_nonmonotonic_dynamic_next) UN(GOMP_loop_ull_guided_next) UN(GOMP_loop_ull_nonmonotonic_guided_next) UN(GOMP_loop_ull_static_next) UN(GOMP_loop_ull_runtime_next) UN(GOMP_loop_ull_maybe_nonmonotonic_runtime_next) UN(GOMP_loop_ull_nonmonotonic_runtime_next)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() { if (!g) return true; Guard x; settle(); yield(); int me = g->cur; ++g->single_round[me]; if (g->single_round[me] > g->single_cur) { g->single_cur = g->single_round[me]; return true; } return false; }
void *GOMP_single_copy_start() { if (GOMP_single_start()) return 0; barrier(); void *p = g->copied; barrier(); return p; }
void GOMP_single_copy_end(void *p) { if (!g) return; g->copied = p; barrier(); barrier(); }
unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(1, n + 1, 1, 1, &s, &e) ? s : 0; }
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { region(fn, d, n, 1, c + 1, 1, 1); }
void GOMP_critical_start() { lock(""); }
void GOMP_critical_end() { unlock(""); }
void GOMP_critical_name_start(void **p) { char b[32]; snprintf(b, 32, "%p", (void *) p); lock(b); }
void GOMP_critical_name_end(void **p) { char b[32]; snprintf(b, 32, "%p", (void *) p); unlock(b); }
void GOMP_atomic_start() { lock("atomic"); }
void GOMP_atomic_end() { unlock("atomic"); }
typedef void *lck;
static void lname(char *b, lck *p) { snprintf(b, 32, "l%p", (void *) p); }
void omp_init_lock(lck *) {} void omp_destroy_lock(lck *) {}
void omp_set_lock(lck *p) { char b[32]; lname(b, p); lock(b); }
void omp_unset_lock(lck *p) { char b[32]; lname(b, p); unlock(b); }
int omp_test_lock(lck *p) { if (!g) return 1; char b[32]; lname(b, p); { Guard x; int id = lock_of(b); if (owner && (int) owner->size() > id && (*owner)[id] >= 0) return 0; } lock(b); return 1; }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {}
int omp_get_level() { return g ? 1 : 0; } int omp_get_active_level() { return omp_get_level(); } int omp_get_thread_limit() { return MAXT; } int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {}
int omp_get_thread_num() { return g ? g->cur : 0; }
int omp_get_num_threads() { return g ? g->n : 1; }
int omp_get_max_threads() { return want_t ? want_t : processors(); }
void omp_set_num_threads(int n) { want_t = n; }
int omp_get_num_procs() { return processors(); }
int omp_in_parallel() { return g && g->n > 1; }

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, 0); }
void __tsan_vptr_read(void **p) { access(p, 8, false, 0); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, 0); } void __tsan_write##n(void *p) { access(p, n, true, 0); } \
 void __tsan_unaligned_read##n(void *p) { access(p, n, false, 0); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, 0); } \
 void __tsan_volatile_read##n(void *p) { access(p, n, false, 0); } void __tsan_volatile_write##n(void *p) { access(p, n, true, 0); } \
 void __tsan_read_write##n(void *p) { access(p, n, false, 0); access(p, n, true, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, 0); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, 0); }
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *p, int) { aload((const void *) p, sizeof(T)); return __atomic_load_n(p, 5); } \
 void __tsan_atomic##bits##_store(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); __atomic_store_n(p, v, 5); } \
 T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); return __atomic_exchange_n(p, v, 5); } \
 T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); return __atomic_fetch_add(p, v, 5); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); return __atomic_fetch_sub(p, v, 5); } \
 T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); return __atomic_fetch_and(p, v, 5); } \
 T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); return __atomic_fetch_or(p, v, 5); } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { access((void *) p, sizeof(T), true, 1); return __atomic_fetch_xor(p, v, 5); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((void *) p, sizeof(T), true, 1); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((void *) p, sizeof(T), true, 1); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((void *) p, sizeof(T), true, 1); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
