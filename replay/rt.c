// The native side of the harness interface, and the runtime of the instrumented code:
//  - an allocator that never reuses memory, so that every bad access is seen;
//  - a scheduler that follows a recorded schedule (one thread runs at a time and control
//    changes hands only at atomic operations, thread ends and joins);
//  - a happens-before race detector over plain and atomic accesses;
//  - old values for the loads that the schedule says read one (entry 200:k: the operation before it
//    reads the value k writes back), if the C++20 memory model allows it;
//  - the ledger of items.
// The instrumentation is LLVM's ThreadSanitizer pass, with these functions as its runtime.
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define MAXT 4

static u64 params[32], nparams; static u64 *inputs, ninputs, inpos; static struct { u64 t, n; } *sched; static u64 nsched, segi, segleft;
static u64 *logv, nlog; static int nfail; static int tracking;
static __thread int me;

static void fail(const char *kind, const char *msg) {
    nfail++;
    printf("FAIL %s: %s\n", kind, msg);
}
static void finish(int code) __attribute__((noreturn));
static void finish(int code) {
    printf("LOG"); for (u64 i = 0; i < nlog; i++) printf(" %llu", (unsigned long long)logv[i]); printf("\n");
    fflush(stdout);
    _exit(code);
}
static void die(const char *kind, const char *msg) { fail(kind, msg); finish(10); }
void rt_fail(const char *kind) { die(kind, "escaped the harness"); }
static void onsig(int s) {
    // Not async-signal-safe, but this process is about to end.
    tracking = 0;
    die(s == SIGABRT ? "abort" : "memory", s == SIGABRT ? "the process aborted" : "invalid access (signal)");
}

// ---- allocator

typedef struct { u64 a, size, align; int live, tracked; } Block;
static u8 *arena; static u64 atop, acap = 8ull << 30;
static Block *blk; static u64 nblk; static u64 nlive;

static void arena_init(void) {
    if (arena) return;
    arena = mmap(0, acap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blk = mmap(0, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void shadow_clear(u64 a, u64 n);
void *rt_alloc(u64 size, u64 align, int zero) {
    arena_init();
    if (size > (1u << 30)) { printf("CANNOT allocate\n"); finish(21); }
    u64 a = (atop + 32 + (align < 16 ? 16 : align) - 1) & ~((align < 16 ? 16ull : align) - 1);
    if (a + size + 64 > acap) { printf("CANNOT allocate\n"); finish(21); }
    atop = a + size;
    if (!zero) memset(arena + a, 0xA5, size);
    blk[nblk].a = (u64)(arena + a); blk[nblk].size = size; blk[nblk].align = align; blk[nblk].live = 1; blk[nblk].tracked = tracking;
    nblk++;
    if (tracking) nlive++;
    return arena + a;
}
static Block *find(u64 p) {
    u64 lo = 0, hi = nblk;
    while (lo < hi) { u64 m = (lo + hi) / 2; if (blk[m].a <= p) lo = m + 1; else hi = m; }
    return lo ? &blk[lo - 1] : 0;
}
void rt_free(void *p, u64 size, u64 align) {
    Block *b = find((u64)p);
    if (!b || b->a != (u64)p) { die("memory", "free of a pointer that is not an allocation"); }
    if (!b->live) die("double-free", "double free");
    if (b->size != size || b->align != align) die("memory", "free with the wrong layout");
    if (tracking) { extern void rt_range(u64 a, u64 n, int w); rt_range(b->a, b->size, 1); }
    b->live = 0;
    if (b->tracked) nlive--;
    memset(p, 0x5A, size);
    shadow_clear(b->a, b->size);
}
static int in_arena(u64 p) { return arena && p >= (u64)arena && p < (u64)arena + acap; }
static void check_access(u64 p, u64 n, int w) {
    if (!tracking || !n) return;
    if (p < 4096) die("memory", "null or dangling pointer");
    if (!in_arena(p)) return;
    Block *b = find(p);
    if (!b || p + n > b->a + b->size) die("memory", w ? "out-of-bounds write" : "out-of-bounds read");
    if (!b->live) die("use-after-free", w ? "write of freed memory" : "read of freed memory");
}

// ---- happens-before

#define NLOC 512
// Clocks, and for each atomic location the number of the latest write that may not be gone behind.
typedef struct { u64 v[MAXT]; u32 w[NLOC]; } Vc;
static Vc vc[MAXT], acq[MAXT], rel[MAXT], scv; static int nthreads = 1, weak; static u32 nloc; static u64 back;
static void vjoin(Vc *a, Vc *b) { for (int i = 0; i < MAXT; i++) if (b->v[i] > a->v[i]) a->v[i] = b->v[i]; for (u32 i = 0; i < nloc; i++) if (b->w[i] > a->w[i]) a->w[i] = b->w[i]; }
static int le(u64 *a, int t) { for (int j = 0; j < MAXT; j++) if (j != t && a[j] > vc[t].v[j]) return 0; return 1; }

typedef struct { u64 key; u64 r[MAXT], w[MAXT], ar[MAXT], aw[MAXT]; u8 atm; } Sh;
typedef struct { u64 val; Vc v; } Msg;
typedef struct { u64 key; Vc v; u32 loc, base, n, cap; Msg *m; } Sy;
#define NSH (1 << 17)
static Sh *shad; static Sy *syn;
static Sh *shadow(u64 a, int make) {
    if (!shad) shad = mmap(0, sizeof(Sh) * NSH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 k = (a >> 3) + 1, h = (k * 0x9E3779B97F4A7C15ull) >> 47;
    for (u64 i = 0; i < NSH; i++, h = (h + 1) & (NSH - 1)) {
        if (shad[h].key == k) return &shad[h];
        if (!shad[h].key) { if (!make) return 0; shad[h].key = k; return &shad[h]; }
    }
    return 0;
}
static Sy *sync_of(u64 a) {
    if (!syn) syn = mmap(0, sizeof(Sy) * NSH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 k = a + 1, h = (k * 0x9E3779B97F4A7C15ull) >> 47;
    for (;; h = (h + 1) & (NSH - 1)) {
        if (syn[h].key == k) return &syn[h];
        if (!syn[h].key) {
            if (nloc == NLOC) { printf("CANNOT track so many atomic locations\n"); finish(21); }
            syn[h].key = k; syn[h].loc = nloc++; return &syn[h];
        }
    }
}
// The writes to an atomic location, the latest last; now: the value it has if there is none yet.
static Sy *hist(u64 a, u64 now) {
    Sy *s = sync_of(a);
    if (!s->n) {
        if (!s->cap) { s->cap = 16; s->m = malloc(s->cap * sizeof(Msg)); }
        memset(&s->m[0], 0, sizeof(Msg)); s->m[0].val = now; s->n = 1;
    }
    return s;
}
static Msg *told(Sy *s, u64 val) {
    if (s->n == s->cap) { s->cap *= 2; s->m = realloc(s->m, s->cap * sizeof(Msg)); }
    Msg *m = &s->m[s->n++];
    memset(m, 0, sizeof *m); m->val = val;
    return m;
}
static void shadow_clear(u64 a, u64 n) {
    if (nthreads < 2 || !n) return;
    for (u64 p = a & ~7ull; p < a + n; p += 8) { Sh *s = shadow(p, 0); if (s) { u64 k = s->key; memset(s, 0, sizeof *s); s->key = k; } }
}
static void race(u64 a, u64 n, int w, int atomic) {
    if (nthreads < 2 || !n || !tracking) return;
    int t = me;
    for (u64 p = a & ~7ull; p < a + n; p += 8) {
        Sh *s = shadow(p, 1);
        if (!s) return;
        int bad = 0; u64 now = vc[t].v[t];
        if (atomic) s->atm = 1;
        else if (w && weak && s->atm) for (u64 q = p < a ? a : p; q < p + 8 && q < a + n; q++) { Sy *y = sync_of(q); y->base += y->n; y->n = 0; }
        if (!w && !atomic) { bad = !(le(s->w, t) && le(s->aw, t)); s->r[t] = now; }
        else if (w && !atomic) { bad = !(le(s->w, t) && le(s->r, t) && le(s->aw, t) && le(s->ar, t)); s->w[t] = now; }
        else if (!w) { bad = !le(s->w, t); s->ar[t] = now; }
        else { bad = !(le(s->w, t) && le(s->r, t)); s->aw[t] = now; }
        if (bad) die("data-race", w ? "unsynchronised write" : "unsynchronised read");
    }
}
void rt_range(u64 a, u64 n, int w) { race(a, n, w, 0); }
static void plain(u64 a, u64 n, int w) { check_access(a, n, w); race(a, n, w, 0); }

// ---- scheduler

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int cur; static int state[MAXT]; // 0 unused, 1 running, 2 joining, 3 done
static int joining[MAXT]; static pthread_t th[MAXT]; static u64 nops, after;

static int runnable(int t) { return t < nthreads && state[t] == 1; }
static void wait_turn(void) { while (cur != me) pthread_cond_wait(&cv, &mu); }
static void give(int t) { cur = t; pthread_cond_broadcast(&cv); }
static void skip_done(void) { while (segi < nsched && segleft == 0) { segi++; segleft = segi < nsched ? sched[segi].n : 0; } }
static int pick_next(void) {
    skip_done();
    if (segi < nsched && runnable(sched[segi].t)) return sched[segi].t;
    for (int i = 1; i <= nthreads; i++) { int t = (cur + i) % nthreads; if (runnable(t)) return t; }
    return -1;
}
// Called by the running thread before each atomic operation.
static void point(void) {
    if (nthreads < 2 || !tracking) return;
    pthread_mutex_lock(&mu);
    if (++nops > 400000) die("deadlock", "the threads spin for ever");
    for (;;) {
        skip_done();
        if (segi < nsched) {
            int t = sched[segi].t;
            if (t == me) {
                if (--segleft == 0 && segi + 1 < nsched && sched[segi + 1].t == 200) { back = sched[++segi].n; segleft = 0; }
                break;
            }
            if (!runnable(t)) { printf("DIVERGED schedule\n"); segi = nsched; segleft = 0; break; }
            give(t); wait_turn();
        } else {
            // Past the recorded schedule: stay, but let others run if this thread seems to spin.
            if (++after % 2000 == 0) { int t = pick_next(); if (t >= 0 && t != me) { give(t); wait_turn(); } }
            break;
        }
    }
    pthread_mutex_unlock(&mu);
}
struct start { void (*f)(u8 *); u8 *p; int id; };
extern u32 rs_call(void (*f)(u8 *), u8 *p);
static void *body(void *x) {
    struct start *s = x;
    me = s->id;
    pthread_mutex_lock(&mu); wait_turn(); pthread_mutex_unlock(&mu);
    if (rs_call(s->f, s->p)) die("panic", "escaped a thread");
    pthread_mutex_lock(&mu);
    state[me] = 3;
    for (int i = 0; i < nthreads; i++) if (state[i] == 2 && joining[i] == me) { state[i] = 1; vjoin(&vc[i], &vc[me]); }
    int t = pick_next();
    if (t < 0) die("deadlock", "no thread can run");
    give(t);
    pthread_mutex_unlock(&mu);
    return 0;
}
u32 __sym_spawn(void (*f)(u8 *), u8 *p) {
    int t = nthreads;
    if (t >= MAXT) { printf("CANNOT spawn\n"); finish(21); }
    struct start *s = malloc(sizeof *s); s->f = f; s->p = p; s->id = t;
    vc[t] = vc[me]; vc[t].v[t] = 1; vc[me].v[me]++;
    memset(&acq[t], 0, sizeof(Vc)); memset(&rel[t], 0, sizeof(Vc));
    state[t] = 1; nthreads++;
    pthread_create(&th[t], 0, body, s);
    return t;
}
void __sym_join(u32 t) {
    pthread_mutex_lock(&mu);
    if (state[t] == 3) vjoin(&vc[me], &vc[t]);
    else {
        state[me] = 2; joining[me] = t;
        int n = pick_next();
        if (n < 0) die("deadlock", "no thread can run");
        give(n); wait_turn();
    }
    pthread_mutex_unlock(&mu);
}

// ---- the instrumentation's runtime

void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
 void __tsan_read##n(void *p) { plain((u64)p, n, 0); } void __tsan_write##n(void *p) { plain((u64)p, n, 1); } void __tsan_read_write##n(void *p) { plain((u64)p, n, 0); plain((u64)p, n, 1); } \
 void __tsan_unaligned_read##n(void *p) { plain((u64)p, n, 0); } void __tsan_unaligned_write##n(void *p) { plain((u64)p, n, 1); } void __tsan_unaligned_read_write##n(void *p) { plain((u64)p, n, 1); } \
 void __tsan_volatile_read##n(void *p) { plain((u64)p, n, 0); } void __tsan_volatile_write##n(void *p) { plain((u64)p, n, 1); } \
 void __tsan_unaligned_volatile_read##n(void *p) { plain((u64)p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { plain((u64)p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void *p) { plain((u64)p, 8, 0); }
void __tsan_vptr_update(void *p, void *q) { plain((u64)p, 8, 1); }
void __tsan_read_range(void *p, u64 n) { plain((u64)p, n, 0); }
void __tsan_write_range(void *p, u64 n) { plain((u64)p, n, 1); }
void *__tsan_memcpy(void *d, void *s, u64 n) { plain((u64)s, n, 0); plain((u64)d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, void *s, u64 n) { plain((u64)s, n, 0); plain((u64)d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { plain((u64)d, n, 1); return memset(d, c, n); }

// Orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst.
static int is_acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static int is_rel(int o) { return o == 3 || o == 4 || o == 5; }
static void s_load(u64 a, int o) { Sy *s = sync_of(a); vjoin(is_acq(o) ? &vc[me] : &acq[me], &s->v); }
static void s_store(u64 a, int o, int rmw) {
    Sy *s = sync_of(a);
    if (!rmw) memset(&s->v, 0, sizeof(Vc));
    vjoin(&s->v, is_rel(o) ? &vc[me] : &rel[me]);
    vc[me].v[me]++;
}
static void diverged(const char *what) { printf("DIVERGED %s\n", what); finish(22); }
static void got(Sy *s, u32 i, int o) {
    u32 k = s->base + i;
    vjoin(is_acq(o) ? &vc[me] : &acq[me], &s->m[i].v);
    if (vc[me].w[s->loc] < k) vc[me].w[s->loc] = k;
    if (o == 5 && scv.w[s->loc] < k) scv.w[s->loc] = k;
}
// A load (or a failed compare-exchange): the value it reads.
static u64 do_load(u64 a, u64 now, int o) {
    if (nthreads < 2 || !tracking) return now;
    if (!weak) { s_load(a, o); return now; }
    Sy *s = hist(a, now);
    u32 i = s->n - 1;
    if (back) {
        u32 floor = vc[me].w[s->loc];
        if (o == 5 && scv.w[s->loc] > floor) floor = scv.w[s->loc];
        if (back > i || s->base + i - back < floor) diverged("old value");
        i -= back; back = 0;
        now = s->m[i].val;
    }
    got(s, i, o);
    return now;
}
static void do_store(u64 a, u64 now, u64 val, int o, int rmw) {
    if (nthreads < 2 || !tracking) return;
    if (back) diverged("old value of a store");
    if (!weak) { if (rmw) s_load(a, o); s_store(a, o, rmw); return; }
    Sy *s = hist(a, now);
    if (rmw) got(s, s->n - 1, o);
    u32 k = s->base + s->n;
    vc[me].w[s->loc] = k;
    Msg *m = told(s, val);
    if (rmw) m->v = m[-1].v;
    vjoin(&m->v, is_rel(o) ? &vc[me] : &rel[me]);
    vc[me].v[me]++;
    if (o == 5 && scv.w[s->loc] < k) scv.w[s->loc] = k;
}
#define RMW(B, T, NAME, NEW) T __tsan_atomic##B##_##NAME(T *p, T v, int o) { \
   point(); check_access((u64)p, sizeof(T), 1); race((u64)p, sizeof(T), 0, 1); race((u64)p, sizeof(T), 1, 1); \
   T x = *(volatile T *)p, y = NEW; do_store((u64)p, x, y, o, 1); *(volatile T *)p = y; return x; }
#define ATOMIC(B, T) \
 T __tsan_atomic##B##_load(T *p, int o) { point(); check_access((u64)p, sizeof(T), 0); race((u64)p, sizeof(T), 0, 1); return do_load((u64)p, *(volatile T *)p, o); } \
 void __tsan_atomic##B##_store(T *p, T v, int o) { point(); check_access((u64)p, sizeof(T), 1); race((u64)p, sizeof(T), 1, 1); do_store((u64)p, *(volatile T *)p, v, o, 0); *(volatile T *)p = v; } \
 RMW(B, T, exchange, v) RMW(B, T, fetch_add, x + v) RMW(B, T, fetch_sub, x - v) RMW(B, T, fetch_and, x & v) RMW(B, T, fetch_or, x | v) RMW(B, T, fetch_xor, x ^ v) RMW(B, T, fetch_nand, ~(x & v)) \
 T __tsan_atomic##B##_compare_exchange_val(T *p, T e, T v, int o, int fo) { \
   point(); check_access((u64)p, sizeof(T), 1); race((u64)p, sizeof(T), 0, 1); T x = *(volatile T *)p; \
   if (x == e && !back) { race((u64)p, sizeof(T), 1, 1); do_store((u64)p, x, v, o, 1); *(volatile T *)p = v; return x; } \
   x = do_load((u64)p, x, fo); \
   if (x == e) diverged("old value of a compare-exchange"); \
   return x; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int o) {
    if (nthreads < 2) return;
    if (o == 5) point();
    if (is_acq(o)) vjoin(&vc[me], &acq[me]);
    if (o == 5) for (u32 i = 0; i < nloc; i++) { if (scv.w[i] > vc[me].w[i]) vc[me].w[i] = scv.w[i]; scv.w[i] = vc[me].w[i]; }
    if (is_rel(o)) { rel[me] = vc[me]; vc[me].v[me]++; }
}
void __tsan_atomic_signal_fence(int o) {}

// ---- the harness interface

typedef struct { u64 start, n, zst; u8 *dropped; } LVec;
static LVec lv[8]; static int nlv; static u64 ndropped;

u64 __sym_range(u64 lo, u64 hi) {
    u64 x = inpos < ninputs ? inputs[inpos] : lo;
    inpos++;
    if (x < lo || x > hi) { printf("DIVERGED input %llu not in %llu..=%llu\n", (unsigned long long)x, (unsigned long long)lo, (unsigned long long)hi); finish(22); }
    return x;
}
void __sym_assume(u8 c) { if (!(c & 1)) { printf("ASSUME\n"); finish(20); } }
void __sym_assert(u8 c, u32 id) { if (!(c & 1)) { char b[40]; sprintf(b, "assertion %u", id); fail("assert", b); } }
void __sym_cover(u32 id) {}
void __sym_tag(u32 id) {}
u64 __sym_param(u64 i) { return i < nparams ? params[i] : 0; }
u64 __sym_concrete(u64 x) { return x; }
void __sym_log(u64 v) { if (nlog < 4096) logv[nlog++] = v; }
void *__sym_vec(u64 n, u64 size, u64 align, u64 start) {
    LVec *l = &lv[nlv++];
    if (n > (1u << 22)) { printf("CANNOT make %llu items\n", (unsigned long long)n); finish(21); }
    l->start = start; l->n = n; l->zst = size == 0;
    if (size == 0) return (void *)align;
    l->dropped = calloc(n + 1, 1);
    if (n == 0) return (void *)align;
    u8 *p = rt_alloc(n * size, align, 1);
    for (u64 i = 0; i < n; i++) { u64 x = start + i; memcpy(p + i * size, &x, size < 8 ? size : 8); }
    return p;
}
static LVec *lvec(u64 v) { for (int i = 0; i < nlv; i++) if (!lv[i].zst && lv[i].start >> 56 == v >> 56) return &lv[i]; return 0; }
void __sym_drop(u64 v) {
    LVec *l = lvec(v);
    if (!l || v - l->start >= l->n) die("drop", "drop of something that is not an item");
    if (l->dropped[v - l->start]++) die("drop", "an item is dropped twice");
    ndropped++;
}
void __sym_zdrop(void) {
    u64 t = 0; for (int i = 0; i < nlv; i++) if (lv[i].zst) t += lv[i].n;
    static u64 z; if (++z > t) die("drop", "more zero-size items are dropped than exist");
    ndropped++;
}
u8 __sym_undropped(u64 lo, u64 len) {
    LVec *l = lvec(lo);
    if (!l) return 1;
    for (u64 i = lo - l->start; i < lo - l->start + len; i++) if (i < l->n && l->dropped[i]) return 0;
    return 1;
}
u64 __sym_dropped_total(void) { return ndropped; }
u64 __sym_live_heap(void) { return nlive; }
u8 __sym_freed(u8 *p) { if (!in_arena((u64)p)) return 0; Block *b = find((u64)p); return b && !b->live; }

void rt_list(int which, u64 v, u64 w) {
    if (which == 0) params[nparams++] = v;
    else if (which == 1) { inputs = realloc(inputs, (ninputs + 1) * 8); inputs[ninputs++] = v; }
    else { sched = realloc(sched, (nsched + 1) * sizeof *sched); sched[nsched].t = v; sched[nsched].n = w; nsched++; if (v == 200) weak = 1; }
}
void rt_begin(void) {
    logv = calloc(4096, 8);
    signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig); signal(SIGFPE, onsig);
    vc[0].v[0] = 1; state[0] = 1; segleft = nsched ? sched[0].n : 0;
    tracking = 1;
}
int rt_end(void) { tracking = 0; printf("%s\n", nfail ? "FAILED" : "PASSED"); finish(nfail ? 10 : 0); }
