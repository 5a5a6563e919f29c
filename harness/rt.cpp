// Runtime linked into every harness: owned randomness and an OpenMP runtime whose threads are
// fibers under a controlled scheduler (no OS threads: executions are deterministic and fork-safe).
//
// Default mode: the team's threads run one after another in a chosen order (forward / reverse /
// rotated), switching only where OpenMP itself blocks (barrier, critical, locks).  The schedule
// explorer (sched.cpp) additionally preempts at memory accesses.
#include "mc.hpp"
#include "rt.hpp"
#include <stdexcept>

// ------------------------------------------------------------------ random_device
std::random_device::result_type std::random_device::_M_getval() { return mc::rd_val(); }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}

// ------------------------------------------------------------------ fibers
extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

namespace rt {
Team* team = nullptr;
Fiber* cur = nullptr;
int default_threads = 8;
int order = 0, team_override = 0;
uint64_t regions = 0, multi_regions = 0;
Hooks* hooks = nullptr;
static const size_t STACK = 8u << 20;
static std::vector<Fiber*> pool;

static void fiber_main()
{
    Fiber* f = cur;
    f->team->fn(f->team->data);
    f->done = true;
    f->team->live--;
    void* dummy;
    mc_switch(&dummy, f->team->main_sp);   // never returns
    abort();
}
static void prepare(Fiber* f)
{
    if (!f->stack) {
        f->stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->stack == (char*)MAP_FAILED) { perror("mmap"); abort(); }
    }
    uint64_t* sp = (uint64_t*)(f->stack + STACK);
    *--sp = 0;                      // alignment / fake return address
    *--sp = (uint64_t)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    f->done = false; f->blocked = false; f->sect = 0; f->work = 0; f->crit = nullptr;
}
void yield_to_main()
{
    Fiber* f = cur;
    mc_switch(&f->sp, f->team->main_sp);
}
static void resume(Fiber* f)
{
    cur = f;
    mc_switch(&f->team->main_sp, f->sp);
    cur = nullptr;
}
static int pick_default(Team* t)
{
    // continue the running fiber while it can run; otherwise first runnable in the chosen order
    int n = t->n;
    if (t->last >= 0 && !t->fib[t->last]->done && !t->fib[t->last]->blocked) return t->last;
    for (int k = 0; k < n; k++) {
        int i = order == 0 ? k : order == 1 ? n - 1 - k : (k + order) % n;
        if (!t->fib[i]->done && !t->fib[i]->blocked) return i;
    }
    return -1;
}
// dynamic loops: one shared work descriptor per (team, encounter index)
struct Loop { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; };
static std::map<std::pair<Team*, uint64_t>, Loop> loops;
// sections: the same, with the number of the last section handed out
static std::map<std::pair<Team*, uint64_t>, std::pair<unsigned, unsigned>> shares;   // handed out, in all
static void drop_loops(Team* t)   // work shares do not outlive their team (the address is used again)
{
    auto it = loops.lower_bound({t, 0});
    while (it != loops.end() && it->first.first == t) it = loops.erase(it);
    auto is = shares.lower_bound({t, 0});
    while (is != shares.end() && is->first.first == t) is = shares.erase(is);
}
void run_team(void (*fn)(void*), void* data, unsigned num, unsigned nsections)
{
    regions++;
    if (team) {     // nested region: serialised with a team of one, as libgomp does by default
        Team* outer = team; Fiber* oc = cur;
        Team t; Fiber f; t.fn = fn; t.data = data; t.n = 1; t.live = 1; t.nested_in = outer; t.nsections = nsections; f.team = &t; f.id = 0;
        t.fib.push_back(&f);
        f.sect = 0; f.work = 0;
        f.parent = oc;
        team = &t; cur = &f;
        f.inline_run = true;
        drop_loops(&t);
        fn(data);
        drop_loops(&t);
        team = outer; cur = oc;
        return;
    }
    unsigned n = num ? num : (unsigned)default_threads;
    if (team_override > 0) n = (unsigned)team_override;
    if (n > 1) multi_regions++;
    Team t; t.fn = fn; t.data = data; t.n = n; t.live = n; t.nsections = nsections; t.last = -1;
    drop_loops(&t);
    while (pool.size() < n) pool.push_back(new Fiber);
    for (unsigned i = 0; i < n; i++) { Fiber* f = pool[i]; f->id = i; f->team = &t; prepare(f); t.fib.push_back(f); }
    team = &t;
    if (hooks && hooks->region_begin) hooks->region_begin(&t);
    while (t.live) {
        int k = (hooks && hooks->pick) ? hooks->pick(&t) : pick_default(&t);
        if (k < 0) { fprintf(stderr, "deadlock in team\n"); abort(); }
        t.last = k;
        resume(t.fib[k]);
    }
    team = nullptr; cur = nullptr;
    drop_loops(&t);
    if (hooks && hooks->region_end) hooks->region_end(&t);
}
static Fiber* leaf() { return cur; }
static Fiber* top(Fiber* f) { while (f && f->inline_run) f = f->parent; return f; }
// block the current (top-level) fiber; the caller re-checks its condition afterwards
static void block_here()
{
    Fiber* f = top(leaf());
    Team* st = team; Fiber* sc = cur;     // nested bookkeeping is per fiber
    Team* real = f->team;
    team = real; cur = f;
    f->blocked = true;
    yield_to_main();
    team = st; cur = sc;
}
static void unblock_all(Team* t) { for (auto* f : t->fib) f->blocked = false; }
static Team* topteam() { Fiber* f = top(leaf()); return f ? f->team : nullptr; }
static std::map<void*, Fiber*> owners;
void acquire(void* key)
{
    if (!team) return;
    Fiber* me = top(leaf());
    if (hooks && hooks->sync) hooks->sync(key, 0);
    while (owners.count(key) && owners[key] != me) block_here();
    owners[key] = me;
}
void release(void* key)
{
    if (!team) return;
    owners.erase(key);
    unblock_all(topteam());
    if (hooks && hooks->sync) hooks->sync(key, 1);
}
static void barrier()
{
    if (!team || team->n == 1) return;
    Team* t = team;
    uint64_t gen = t->bar_gen;
    if (hooks && hooks->sync) hooks->sync(t, 2);
    if (++t->bar_count == (int)t->n) { t->bar_count = 0; t->bar_gen++; unblock_all(t); if (hooks && hooks->barrier_done) hooks->barrier_done(t); return; }
    while (t->bar_gen == gen) block_here();
}
static bool loop_next(Loop& l, long* s, long* e)
{
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    long b = l.next, ed = b + l.chunk * l.incr;
    if (l.incr > 0 ? ed > l.end : ed < l.end) ed = l.end;
    l.next = ed; *s = b; *e = ed; return true;
}
static bool loop_start(long s, long e, long inc, long chunk, long* is, long* ie)
{
    static Loop solo;
    Team* t = team;
    if (!t) { solo = Loop(); solo.next = s; solo.end = e; solo.incr = inc; solo.chunk = chunk ? chunk : 1; t = nullptr; loops[{nullptr, 0}] = solo; return loop_next(loops[{nullptr, 0}], is, ie); }
    Loop& l = loops[{t, ++cur->work}];
    if (!l.init) { l.init = true; l.next = s; l.end = e; l.incr = inc; l.chunk = chunk > 0 ? chunk : 1; }
    return loop_next(l, is, ie);
}
static bool loop_cont(long* is, long* ie)
{
    if (!team) return loop_next(loops[{nullptr, 0}], is, ie);
    return loop_next(loops[{team, cur->work}], is, ie);
}
struct ParLoop { void (*fn)(void*); void* data; long s, e, inc, chunk; };
} // namespace rt

using namespace rt;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n, 0); }
void GOMP_parallel_start(void (*fn)(void*), void* data, unsigned n) { run_team(fn, data, n, 0); }
void GOMP_parallel_end(void) {}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n, 0); return n; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
    // the outlined function starts directly with GOMP_sections_next on its first work share
    struct D { void (*fn)(void*); void* d; unsigned c; } dd{fn, data, count};
    run_team([](void* p) { D* q = (D*)p; shares[{team, ++cur->work}].second = q->c; q->fn(q->d); }, &dd, n, count);
}
static unsigned solo_section = 0, solo_sections = 0;
unsigned GOMP_sections_next(void)
{
    if (!team) return solo_section < solo_sections ? ++solo_section : 0;
    auto& k = shares[{team, cur->work}];
    return k.first < k.second ? ++k.first : 0;
}
unsigned GOMP_sections_start(unsigned count)
{
    if (!team) { solo_section = 0; solo_sections = count; return GOMP_sections_next(); }
    shares[{team, ++cur->work}].second = count;
    return GOMP_sections_next();
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
static int g_crit, g_atom;
void GOMP_critical_start(void) { acquire(&g_crit); }
void GOMP_critical_end(void) { release(&g_crit); }
void GOMP_critical_name_start(void** p) { acquire(p); }
void GOMP_critical_name_end(void** p) { release(p); }
void GOMP_atomic_start(void) { acquire(&g_atom); }
void GOMP_atomic_end(void) { release(&g_atom); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
bool GOMP_single_start(void)
{
    if (!team) return true;
    uint64_t k = ++cur->work;
    return team->singles.insert(k).second;
}
static std::map<std::pair<Team*, uint64_t>, void*> copies;
void* GOMP_single_copy_start(void)
{
    if (!team) return nullptr;
    uint64_t k = ++cur->work;
    if (team->singles.insert(k).second) return nullptr;
    barrier();
    void* r = copies[{team, k}];
    barrier();
    return r;
}
void GOMP_single_copy_end(void* data)
{
    if (!team) return;
    copies[{team, cur->work}] = data;
    barrier(); barrier();
}
#define LOOPV(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_cont(is, ie); } \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
  { par_loop(fn, d, n, s, e, i, c); }
static void par_loop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c)
{
    // the outlined function starts directly with GOMP_loop_*_next on work share 1
    struct D { void (*fn)(void*); void* d; long s, e, i, c; } dd{fn, d, s, e, i, c > 0 ? c : 1};
    run_team([](void* p) {
        D* q = (D*)p;
        Loop& l = loops[{team, ++cur->work}];
        if (!l.init) { l.init = true; l.next = q->s; l.end = q->e; l.incr = q->i; l.chunk = q->c; }
        q->fn(q->d);
    }, &dd, n, 0);
}
LOOPV(static) LOOPV(dynamic) LOOPV(guided) LOOPV(nonmonotonic_dynamic) LOOPV(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return loop_cont(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return loop_cont(is, ie); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1); }
// unsigned long long flavour (size_t loop variables)
#define LOOPU(name) \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return loop_start((long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return loop_cont((long*)is, (long*)ie); }
LOOPU(static) LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
bool GOMP_loop_ull_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return loop_start((long)s, (long)e, (long)i, 1, (long*)is, (long*)ie); }
bool GOMP_loop_ull_runtime_next(unsigned long long* is, unsigned long long* ie) { return loop_cont((long*)is, (long*)ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return loop_start((long)s, (long)e, (long)i, 1, (long*)is, (long*)ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* is, unsigned long long* ie) { return loop_cont((long*)is, (long*)ie); }
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
// tasks: executed immediately by the encountering thread
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long asz, long aal, bool, unsigned, void**, int, void*)
{
    if (cpyfn) {
        std::vector<char> b(asz + aal);
        char* p = (char*)(((uintptr_t)b.data() + aal - 1) & ~(uintptr_t)(aal - 1));
        cpyfn(p, data); fn(p);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_thread_num(void) { return cur ? cur->id : 0; }
int omp_get_num_threads(void) { return team ? (int)team->n : 1; }
int omp_get_max_threads(void) { return team ? 1 : default_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team && team->n > 1; }
int omp_get_level(void) { int l = 0; for (Team* t = team; t; t = t->nested_in) l++; return l; }
void omp_set_num_threads(int n) { if (n > 0 && !team) default_threads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return 1 << 20; }
double omp_get_wtime(void) { return mc::elapsed(); }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void* l) { memset(l, 0, 4); }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { acquire(l); }
void omp_unset_lock(void* l) { release(l); }
int omp_test_lock(void* l) { if (!team) return 1; Fiber* me = top(leaf()); if (owners.count(l) && owners[l] != me) return 0; owners[l] = me; return 1; }
}
