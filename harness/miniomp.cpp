// A small OpenMP runtime (the entry points clang generates) on top of pthreads, used by replays so
// that thread sanitizer sees all synchronisation.
#include "../shim_omp/omp.h"
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <pthread.h>
#include <vector>
typedef void ident;
struct Loop { int64_t lb, ub, st, chunk; uint64_t n; };
struct Team {
    int n;
    pthread_barrier_t bar;
    std::mutex mu;
    std::vector<Loop> loops;
    std::vector<char> single;
    std::mutex crit;
    std::mutex own[4];            // held by whoever runs as thread i
    std::atomic<int> taskCount{0};
    std::vector<pthread_t> tasks; // not waited for yet
    void joinAll() {
        for (;;) {
            pthread_t t;
            { std::lock_guard<std::mutex> g(mu); if (tasks.empty()) return; t = tasks.back(); tasks.pop_back(); }
            pthread_join(t, nullptr);
        }
    }
};
struct Self {
    Team *team = nullptr;
    int tid = 0, level = 0, loopIdx = 0, singleIdx = 0;
    uint64_t pos = 0;
    bool started = false;
    std::vector<Loop> solo;
    std::vector<uint64_t> soloPos;
    std::vector<pthread_t> kids;
    // children not waited for become the team's
    void hand() { if (kids.empty()) return; std::lock_guard<std::mutex> g(team->mu); for (auto k : kids) team->tasks.push_back(k); kids.clear(); }
};
static thread_local Self me;
static int nthreads = 1, levels = 1;
static thread_local int pushed = 0;
extern "C" {
int omp_get_max_active_levels(void) { return levels; }
void omp_set_max_active_levels(int l) { levels = l; }
int omp_get_level(void) { return me.level; }
int omp_get_max_threads(void) { return nthreads; }
int omp_get_num_threads(void) { return me.team && me.level == 1 ? me.team->n : 1; }
int omp_get_thread_num(void) { return me.level <= 1 ? me.tid : 0; }
int omp_in_parallel(void) { return me.team != nullptr; }
void omp_set_num_threads(int n) { nthreads = n < 1 ? 1 : n > 4 ? 4 : n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_num_procs(void) { return nthreads; }
double omp_get_wtime(void) { return 0; }
void omp_init_lock(omp_lock_t *l) { l->p = new std::mutex(); }
void omp_destroy_lock(omp_lock_t *l) { delete (std::mutex *)l->p; }
void omp_set_lock(omp_lock_t *l) { ((std::mutex *)l->p)->lock(); }
void omp_unset_lock(omp_lock_t *l) { ((std::mutex *)l->p)->unlock(); }
int omp_test_lock(omp_lock_t *l) { return ((std::mutex *)l->p)->try_lock(); }

int __kmpc_global_thread_num(ident *) { return me.tid; }
void __kmpc_push_num_threads(ident *, int, int n) { pushed = n < 1 ? 1 : n; }
typedef void (*micro)(int *, int *, ...);
struct Start { Team *t; int tid; void (*fn)(); int argc; void **a; };
static void invoke(void (*fn)(), int tid, int argc, void **a) {
    int g = tid, b = 0;
    void *x[24] = {};
    for (int i = 0; i < argc; i++) x[i] = a[i];
    typedef void (*F)(int *, int *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
    ((F)fn)(&g, &b, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19], x[20], x[21], x[22], x[23]);
}
static void *threadMain(void *p) {
    Start *s = (Start *)p;
    me = Self();
    me.team = s->t;
    me.tid = s->tid;
    me.level = 1;
    me.team->own[me.tid].lock();
    invoke(s->fn, s->tid, s->argc, s->a);
    me.hand();
    me.team->own[me.tid].unlock();
    pthread_barrier_wait(&me.team->bar);
    return nullptr;
}
void __kmpc_fork_call(ident *, int argc, void (*fn)(), ...) {
    if (argc > 24) abort();
    void *a[24];
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < argc; i++) a[i] = va_arg(ap, void *);
    va_end(ap);
    int n = pushed ? pushed : nthreads;
    pushed = 0;
    if (n > 4) n = 4;
    if (me.team) n = 1;
    if (n == 1) {
        me.level++;
        invoke(fn, me.tid, argc, a);
        me.level--;
        return;
    }
    Team t;
    t.n = n;
    pthread_barrier_init(&t.bar, nullptr, n);
    std::vector<Start> st(n);
    std::vector<pthread_t> th(n);
    for (int i = 1; i < n; i++) { st[i] = Start{&t, i, fn, argc, a}; pthread_create(&th[i], nullptr, threadMain, &st[i]); }
    Self saved = me;
    me = Self();
    me.team = &t;
    me.level = 1;
    t.own[0].lock();
    invoke(fn, 0, argc, a);
    me.hand();
    t.own[0].unlock();
    pthread_barrier_wait(&t.bar);
    t.joinAll();
    me = saved;
    for (int i = 1; i < n; i++) pthread_join(th[i], nullptr);
    pthread_barrier_destroy(&t.bar);
}
#define PAR (me.team && me.level == 1)
void __kmpc_serialized_parallel(ident *, int) { me.level++; }
void __kmpc_end_serialized_parallel(ident *, int) { me.level--; }
void __kmpc_barrier(ident *, int) {
    if (!PAR) return;
    me.hand();
    me.team->own[me.tid].unlock();
    pthread_barrier_wait(&me.team->bar);
    me.team->joinAll();
    pthread_barrier_wait(&me.team->bar);
    me.team->own[me.tid].lock();
}
int __kmpc_single(ident *, int) {
    if (!PAR) return 1;
    std::lock_guard<std::mutex> g(me.team->mu);
    size_t i = me.singleIdx++;
    if (me.team->single.size() <= i) { me.team->single.push_back(1); return 1; }
    return 0;
}
void __kmpc_end_single(ident *, int) {}
int __kmpc_master(ident *, int) { return !PAR || me.tid == 0; }
int __kmpc_masked(ident *, int, int) { return !PAR || me.tid == 0; }
void __kmpc_end_master(ident *, int) {}
void __kmpc_end_masked(ident *, int) {}
void __kmpc_flush(ident *) {}
static std::mutex critMapMu;
static std::map<void *, std::mutex *> critMap;
static std::mutex *critOf(void *k) { std::lock_guard<std::mutex> g(critMapMu); auto &m = critMap[k]; if (!m) m = new std::mutex(); return m; }
void __kmpc_critical(ident *, int, void *k) { critOf(k)->lock(); }
void __kmpc_critical_with_hint(ident *, int, void *k, unsigned) { critOf(k)->lock(); }
void __kmpc_end_critical(ident *, int, void *k) { critOf(k)->unlock(); }
int __kmpc_reduce_nowait(ident *, int, int, size_t, void *, void (*)(void *, void *), void *k) { critOf(k)->lock(); return 1; }
int __kmpc_reduce(ident *, int, int, size_t, void *, void (*)(void *, void *), void *k) { critOf(k)->lock(); return 1; }
void __kmpc_end_reduce_nowait(ident *, int, void *k) { critOf(k)->unlock(); }
void __kmpc_end_reduce(ident *l, int g, void *k) { critOf(k)->unlock(); __kmpc_barrier(l, g); }
}
template <class T> static uint64_t tripOf(T lb, T ub, int64_t st) { return st > 0 ? (ub < lb ? 0 : (uint64_t)(ub - lb) / st + 1) : (lb < ub ? 0 : (uint64_t)(lb - ub) / (-st) + 1); }
template <class T, class S> static void staticInit(int sched, int *last, T *lo, T *hi, S *str, S inc, S chunk) {
    int64_t Tn = PAR ? me.team->n : 1, tid = PAR ? me.tid : 0;
    int64_t trip = (int64_t)tripOf<int64_t>(*lo, *hi, inc);
    if (Tn == 1) { *last = 1; *str = (S)(inc > 0 ? *hi - *lo + 1 : -(*lo - *hi + 1)); return; }
    if ((sched & 0xffff) == 33) {
        if (chunk < 1) chunk = 1;
        *last = trip && ((trip - 1) / chunk) % Tn == tid;
        *lo = *lo + (T)(tid * chunk * inc);
        *hi = *lo + (T)(chunk * inc - inc);
        *str = (S)(chunk * inc * Tn);
        return;
    }
    int64_t q = trip / Tn, r = trip % Tn, cnt = q + (tid < r), st = tid * q + (tid < r ? tid : r);
    T base = *lo;
    *lo = base + (T)(st * inc);
    *hi = base + (T)((st + cnt - 1) * inc);
    *str = (S)(trip * inc);
    *last = cnt > 0 && st + cnt == trip;
}
template <class T, class S> static void dispInit(T lb, T ub, S st, S chunk) {
    Loop l{(int64_t)lb, (int64_t)ub, (int64_t)st, (int64_t)(chunk < 1 ? 1 : chunk), tripOf<int64_t>(lb, ub, st)};
    if (!PAR) { me.solo.push_back(l); me.soloPos.push_back(0); return; }
    std::lock_guard<std::mutex> g(me.team->mu);
    if ((int)me.team->loops.size() <= me.loopIdx) me.team->loops.push_back(l);
    if (!me.started) { me.pos = me.tid; me.started = true; }
}
template <class T, class S> static int dispNext(int *last, T *plb, T *pub, S *pst) {
    Loop l;
    uint64_t *pos;
    if (PAR) {
        std::lock_guard<std::mutex> g(me.team->mu);
        l = me.team->loops[me.loopIdx];
        pos = &me.pos;
    } else { l = me.solo.back(); pos = &me.soloPos.back(); }
    uint64_t first = *pos * l.chunk;
    if (first >= l.n) {
        if (PAR) { me.loopIdx++; me.started = false; } else { me.solo.pop_back(); me.soloPos.pop_back(); }
        return 0;
    }
    uint64_t lst = first + l.chunk < l.n ? first + l.chunk - 1 : l.n - 1;
    *pos += PAR ? me.team->n : 1;
    *plb = (T)(l.lb + (int64_t)first * l.st);
    *pub = (T)(l.lb + (int64_t)lst * l.st);
    *pst = (S)l.st;
    *last = lst == l.n - 1;
    return 1;
}
struct Task { void *shareds; int (*fn)(int, void *); };
extern "C" {
#define LOOPS(sfx, T, S)                                                                                              \
    void __kmpc_for_static_init_##sfx(ident *, int, int sched, int *last, T *lo, T *hi, S *str, S inc, S chunk) { staticInit<T, S>(sched, last, lo, hi, str, inc, chunk); } \
    void __kmpc_dispatch_init_##sfx(ident *, int, int, T lb, T ub, S st, S chunk) { dispInit<T, S>(lb, ub, st, chunk); } \
    int __kmpc_dispatch_next_##sfx(ident *, int, int *last, T *lb, T *ub, S *st) { return dispNext<T, S>(last, lb, ub, st); } \
    void __kmpc_dispatch_fini_##sfx(ident *, int) {}
LOOPS(4, int32_t, int32_t)
LOOPS(4u, uint32_t, int32_t)
LOOPS(8, int64_t, int64_t)
LOOPS(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(ident *, int) {}
void __kmpc_dispatch_deinit(ident *, int) {}
void *__kmpc_omp_task_alloc(ident *, int, int, size_t sz, size_t sh, int (*fn)(int, void *)) {
    size_t off = (sz + 15) / 16 * 16;
    char *p = (char *)calloc(1, off + sh + 16);
    ((Task *)p)->shareds = p + off;
    ((Task *)p)->fn = fn;
    return p;
}
struct TStart { Team *t; int tid; Task *task; };
static void *taskMain(void *p) {
    TStart *s = (TStart *)p;
    me = Self();
    me.team = s->t;
    me.tid = s->tid;
    me.level = 1;
    me.team->own[me.tid].lock();
    s->task->fn(s->tid, s->task);
    me.hand();
    me.team->own[me.tid].unlock();
    delete s;
    return nullptr;
}
int __kmpc_omp_task(ident *, int g, void *t) {
    if (!PAR) return ((Task *)t)->fn(g, t);
    pthread_t th;
    if (pthread_create(&th, nullptr, taskMain, new TStart{me.team, (me.tid + 1 + me.team->taskCount++) % me.team->n, (Task *)t})) return ((Task *)t)->fn(g, t);
    me.kids.push_back(th);
    return 0;
}
int __kmpc_omp_taskwait(ident *, int) {
    if (!PAR || me.kids.empty()) return 0;
    me.team->own[me.tid].unlock();
    for (auto k : me.kids) pthread_join(k, nullptr);
    me.kids.clear();
    me.team->own[me.tid].lock();
    return 0;
}
void __kmpc_taskgroup(ident *, int) {}
void __kmpc_end_taskgroup(ident *, int) {}
void __kmpc_omp_task_begin_if0(ident *, int, void *) {}
void __kmpc_omp_task_complete_if0(ident *, int, void *) {}
}
