// A small OpenMP run time on pthreads, instrumented together with the code under test, so that the
// thread sanitizer sees every ordering the program relies on (libgomp's own futexes are invisible to it).
// GOMP_SHIM_ORDER=k starts the threads of each region in a k-dependent order.
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <ctime>
#include <vector>
#include <map>
#include <atomic>

static std::atomic<int> races{0};
extern "C" int racelog_count(){ return races.load(); }
extern "C" const char* __tsan_default_options(){ return "exitcode=0:report_signal_unsafe=0:history_size=2"; }
extern "C" void __tsan_on_report(void*){ races++; }

namespace {
struct Work { long next, end, incr, chunk; bool guided; int arrived = 0; long left = 0; int secs = 0; bool single = false; void* copy = nullptr; bool st = false; long start = 0; long cursor = 0; };
struct Team {
    int n; pthread_mutex_t m; pthread_cond_t c; int waiting = 0; long gen = 0;
    std::map<long, Work> works;
    long iters_ordered = 0;
    Team(int n_) : n(n_) { pthread_mutex_init(&m, nullptr); pthread_cond_init(&c, nullptr); }
    ~Team(){ pthread_mutex_destroy(&m); pthread_cond_destroy(&c); }
};
struct Me { Team* t = nullptr; int id = 0; long ws = 0; Work* w = nullptr; long turn = 0; bool ordered = false, have = false; long my_lo = 0, my_hi = 0; };
thread_local Me me;
int g_threads = 4;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
struct Arg { void (*fn)(void*); void* data; Team* t; int id; };
void* body(void* a_){
    Arg* a = (Arg*)a_;
    me = Me(); me.t = a->t; me.id = a->id;
    a->fn(a->data);
    return nullptr;
}
void barrier(Team* t){
    if (!t) return;
    pthread_mutex_lock(&t->m);
    long g = t->gen;
    if (++t->waiting == t->n){ t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->c); }
    else while (t->gen == g) pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
}
unsigned order_seed(){ static unsigned s = getenv("GOMP_SHIM_ORDER") ? atoi(getenv("GOMP_SHIM_ORDER")) : 1; s = s * 1103515245u + 12345u; return s >> 8; }
bool loop_start(long s, long e, long inc, long chunk, bool guided, bool is_static, long* lo, long* hi);
bool loop_next(long* lo, long* hi);
}

extern "C" {
int omp_get_thread_num(){ return me.id; }
int omp_get_num_threads(){ return me.t ? me.t->n : 1; }
int omp_get_max_threads(){ return g_threads; }
int omp_get_num_procs(){ return 8; }
int omp_in_parallel(){ return me.t != nullptr && me.t->n > 1; }
void omp_set_num_threads(int n){ g_threads = n; }
void omp_set_dynamic(int){}
void omp_set_nested(int){}
double omp_get_wtime(){ timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_init_lock(pthread_mutex_t** l){ *l = new pthread_mutex_t; pthread_mutex_init(*l, nullptr); }
void omp_destroy_lock(pthread_mutex_t** l){ pthread_mutex_destroy(*l); delete *l; }
void omp_set_lock(pthread_mutex_t** l){ pthread_mutex_lock(*l); }
void omp_unset_lock(pthread_mutex_t** l){ pthread_mutex_unlock(*l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned){
    Me saved = me;
    int k = n ? (int)n : (me.t ? 1 : g_threads);
    Team team(k);
    std::vector<Arg> args(k); std::vector<pthread_t> th(k);
    std::vector<int> ord; for (int i = 1; i < k; i++) ord.push_back(i);
    for (int i = (int)ord.size() - 1; i > 0; i--){ int j = order_seed() % (i + 1); std::swap(ord[i], ord[j]); }
    for (int i = 0; i < k; i++) args[i] = {fn, data, &team, i};
    bool first = k > 1 && (order_seed() & 1);
    auto own = [&]{ body(&args[0]); };
    if (first){ // the calling thread goes first
        for (int i : ord) pthread_create(&th[i], nullptr, body, &args[i]);
        own();
    } else {
        for (int i : ord) pthread_create(&th[i], nullptr, body, &args[i]);
        if (k > 2) sched_yield();
        own();
    }
    for (int i : ord) pthread_join(th[i], nullptr);
    me = saved;
}
void GOMP_barrier(){ barrier(me.t); }
void GOMP_critical_start(){ pthread_mutex_lock(&crit); }
void GOMP_critical_end(){ pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p){
    pthread_mutex_lock(&named);
    if (!*p){ auto* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; }
    pthread_mutex_t* m = (pthread_mutex_t*)*p;
    pthread_mutex_unlock(&named);
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p){ pthread_mutex_unlock((pthread_mutex_t*)*p); }
void GOMP_atomic_start(){ pthread_mutex_lock(&atom); }
void GOMP_atomic_end(){ pthread_mutex_unlock(&atom); }
bool GOMP_single_start(){
    if (!me.t) return true;
    long w = me.ws++;
    pthread_mutex_lock(&me.t->m);
    bool mine = !me.t->works[w].single; me.t->works[w].single = true;
    pthread_mutex_unlock(&me.t->m);
    return mine;
}
}

namespace {
bool grab(Work* w, int n, long* lo, long* hi){
    if (w->st){ // chunk number turn*n + id belongs to thread id
        long c = w->chunk < 1 ? 1 : w->chunk;
        long total = w->incr > 0 ? (w->end - w->start + w->incr - 1) / w->incr : (w->start - w->end - w->incr - 1) / (-w->incr);
        long b = (me.turn++ * n + me.id) * c;
        if (b >= total) return false;
        long e = b + c < total ? b + c : total;
        *lo = w->start + b * w->incr; *hi = w->start + e * w->incr;
        return true;
    }
    long left = (w->incr > 0) ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / (-w->incr);
    if (left <= 0) return false;
    long c = w->chunk; if (c < 1) c = 1;
    if (w->guided){ long q = (left + n - 1) / n; if (q > c) c = q; }
    if (c > left) c = left;
    *lo = w->next; *hi = w->next + c * w->incr; w->next = *hi;
    return true;
}
bool loop_start(long s, long e, long inc, long chunk, bool guided, bool is_static, long* lo, long* hi){
    if (is_static && chunk < 1){
        int n = me.t ? me.t->n : 1; me.ws++;
        long total = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / (-inc); if (total < 0) total = 0;
        long per = total / n, ex = total % n;
        long b = me.id * per + (me.id < ex ? me.id : ex), cnt = per + (me.id < ex ? 1 : 0);
        me.w = nullptr;
        if (!cnt) return false;
        *lo = s + b * inc; *hi = s + (b + cnt) * inc;
        return true;
    }
    if (!me.t){ me.w = nullptr; *lo = s; *hi = e; return inc > 0 ? s < e : s > e; }
    long k = me.ws++;
    pthread_mutex_lock(&me.t->m);
    auto it = me.t->works.find(k);
    if (it == me.t->works.end()){ Work w{}; w.next = w.start = w.cursor = s; w.end = e; w.incr = inc; w.chunk = chunk; w.guided = guided; w.st = is_static; it = me.t->works.emplace(k, w).first; }
    me.w = &it->second; me.turn = 0;
    bool r = grab(me.w, me.t->n, lo, hi);
    pthread_mutex_unlock(&me.t->m);
    return r;
}
bool loop_next(long* lo, long* hi){
    if (!me.w) return false;
    pthread_mutex_lock(&me.t->m);
    bool r = grab(me.w, me.t->n, lo, hi);
    pthread_mutex_unlock(&me.t->m);
    return r;
}
struct PL { void (*fn)(void*); void* data; long s, e, i, c; bool g, st; };
}
#define LOOP(NAME, G, ST) \
extern "C" bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* lo, long* hi){ return loop_start(s, e, i, c, G, ST, lo, hi); } \
extern "C" bool GOMP_loop_##NAME##_next(long* lo, long* hi){ return loop_next(lo, hi); } \
extern "C" void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f){ \
    /* compiled bodies call only _next: give each thread its work share by starting it here */ \
    static thread_local PL pl; (void)pl; \
    PL* a = new PL{fn, data, s, e, i, c, G, ST}; \
    GOMP_parallel([](void* p){ PL* q = (PL*)p; long k = me.ws++; \
        pthread_mutex_lock(&me.t->m); auto it = me.t->works.find(k); \
        if (it == me.t->works.end()){ Work w{}; w.next = w.start = w.cursor = q->s; w.end = q->e; w.incr = q->i; w.chunk = q->st && q->c < 1 ? (q->e - q->s) / me.t->n + 1 : q->c; w.guided = q->g; w.st = q->st; it = me.t->works.emplace(k, w).first; } \
        me.w = &it->second; me.turn = 0; pthread_mutex_unlock(&me.t->m); q->fn(q->data); }, a, n, f); \
    delete a; }
LOOP(static, false, true)
LOOP(dynamic, false, false)
LOOP(guided, true, false)
LOOP(nonmonotonic_dynamic, false, false)
LOOP(nonmonotonic_guided, true, false)
extern "C" bool GOMP_loop_runtime_start(long s, long e, long i, long* lo, long* hi){ return loop_start(s, e, i, 1, false, false, lo, hi); }
extern "C" bool GOMP_loop_runtime_next(long* lo, long* hi){ return loop_next(lo, hi); }
extern "C" bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* lo, long* hi){ return loop_start(s, e, i, 1, false, false, lo, hi); }
extern "C" bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* lo, long* hi){ return loop_next(lo, hi); }
namespace { void ord_done(); }
extern "C" void GOMP_loop_end(){ ord_done(); me.w = nullptr; barrier(me.t); }
extern "C" void GOMP_loop_end_nowait(){ ord_done(); me.w = nullptr; }
extern "C" unsigned GOMP_sections_start(unsigned n){ long lo, hi; if (loop_start(1, (long)n + 1, 1, 1, false, false, &lo, &hi)) return (unsigned)lo; return 0; }
extern "C" unsigned GOMP_sections_next(){ long lo, hi; return loop_next(&lo, &hi) ? (unsigned)lo : 0; }
extern "C" void GOMP_sections_end(){ me.w = nullptr; barrier(me.t); }
extern "C" void GOMP_sections_end_nowait(){ me.w = nullptr; }
extern "C" void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned f){
    struct S { void (*fn)(void*); void* d; unsigned c; } a{fn, data, count};
    GOMP_parallel([](void* p){ S* q = (S*)p; long k = me.ws++;
        pthread_mutex_lock(&me.t->m); auto it = me.t->works.find(k);
        if (it == me.t->works.end()){ Work w{}; w.next = 1; w.end = (long)q->c + 1; w.incr = 1; w.chunk = 1; it = me.t->works.emplace(k, w).first; }
        me.w = &it->second; pthread_mutex_unlock(&me.t->m); q->fn(q->d); }, &a, n, f);
}

// ordered loops: the ordered parts of chunks run in the order of the chunks
namespace {
bool ord_begin(bool r, long lo, long hi){ me.have = r; me.my_lo = lo; me.my_hi = hi; return r; }
void ord_wait(){ if (!me.t || !me.w || !me.have) return; pthread_mutex_lock(&me.t->m); while (me.w->cursor != me.my_lo) pthread_cond_wait(&me.t->c, &me.t->m); pthread_mutex_unlock(&me.t->m); }
void ord_done(){ if (!me.t || !me.w || !me.have) return; ord_wait(); pthread_mutex_lock(&me.t->m); me.w->cursor = me.my_hi; pthread_cond_broadcast(&me.t->c); pthread_mutex_unlock(&me.t->m); me.have = false; }
bool ostart(long s, long e, long i, long c, bool g, bool st, long* lo, long* hi){
    if (st && c < 1 && me.t){ long total = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / (-i); c = total > 0 ? (total + me.t->n - 1) / me.t->n : 1; }
    bool r = loop_start(s, e, i, c, g, st, lo, hi); return ord_begin(r, *lo, *hi); }
bool onext(long* lo, long* hi){ ord_done(); bool r = loop_next(lo, hi); return ord_begin(r, *lo, *hi); }
}
extern "C" void GOMP_ordered_start(){ ord_wait(); }
extern "C" void GOMP_ordered_end(){}
#define OLOOP(NAME, G, ST) \
extern "C" bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long* lo, long* hi){ return ostart(s, e, i, c, G, ST, lo, hi); } \
extern "C" bool GOMP_loop_ordered_##NAME##_next(long* lo, long* hi){ return onext(lo, hi); }
OLOOP(static, false, true)
OLOOP(dynamic, false, false)
OLOOP(guided, true, false)
extern "C" bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* lo, long* hi){ return ostart(s, e, i, 1, false, false, lo, hi); }
extern "C" bool GOMP_loop_ordered_runtime_next(long* lo, long* hi){ return onext(lo, hi); }
// unsigned loops (upward or downward), as signed ones: the ranges of this program fit
typedef unsigned long long ull;
#define ULOOP(NAME, G, ST) \
extern "C" bool GOMP_loop_ull_##NAME##_start(bool, ull s, ull e, ull i, ull c, ull* lo, ull* hi){ long a, b; bool r = loop_start((long)s, (long)e, (long)i, (long)c, G, ST, &a, &b); if (r){ *lo = a; *hi = b; } return r; } \
extern "C" bool GOMP_loop_ull_##NAME##_next(ull* lo, ull* hi){ long a, b; bool r = loop_next(&a, &b); if (r){ *lo = a; *hi = b; } return r; }
ULOOP(static, false, true)
ULOOP(dynamic, false, false)
ULOOP(guided, true, false)
ULOOP(nonmonotonic_dynamic, false, false)
ULOOP(nonmonotonic_guided, true, false)
// tasks are carried out at once by the thread that meets them
extern "C" void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*){
    if (cpy){ std::vector<char> buf(size + align); char* a = (char*)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1)); cpy(a, data); fn(a); }
    else fn(data);
}
extern "C" void GOMP_taskwait(){}
extern "C" void GOMP_taskyield(){}
extern "C" void GOMP_taskgroup_start(){}
extern "C" void GOMP_taskgroup_end(){}
extern "C" bool GOMP_cancel(int, bool){ return false; }
extern "C" bool GOMP_cancellation_point(int){ return false; }
extern "C" void* GOMP_single_copy_start(){
    if (!me.t) return nullptr;
    long w = me.ws++; Team* t = me.t;
    pthread_mutex_lock(&t->m);
    bool mine = !t->works[w].single; t->works[w].single = true;
    pthread_mutex_unlock(&t->m);
    if (mine){ me.w = &t->works[w]; return nullptr; }
    barrier(t);
    return t->works[w].copy;
}
extern "C" void GOMP_single_copy_end(void* d){ if (!me.t) return; me.w->copy = d; me.w = nullptr; barrier(me.t); }
extern "C" int omp_get_level(){ return me.t ? 1 : 0; }
extern "C" int omp_get_thread_limit(){ return 64; }
extern "C" int omp_get_dynamic(){ return 0; }
extern "C" double omp_get_wtick(){ return 1e-9; }
extern "C" int omp_test_lock(pthread_mutex_t** l){ return pthread_mutex_trylock(*l) == 0; }
// schedule(runtime) on a combined parallel loop: handed out dynamically, an iteration at a time
extern "C" void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f){ GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f); }
extern "C" void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f){ GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f); }
extern "C" void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f){ GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f); }
