// The parallel regions of the code under test are compiled with memory-access instrumentation whose callbacks
// are these: every access of a team member is attributed to its thread, conflicts between threads are found
// exactly (per byte, within one barrier phase), and a thread can be preempted right before any access to a
// conflicting location.  Calls into OpenSSL go through trampolines that attribute the objects they use.
#include "mc.hpp"
#include "rt.hpp"
#include "tsan.hpp"
#include <new>
#include <unordered_map>
#include <execinfo.h>
using namespace rt;

namespace ts {
static const Plan* P = nullptr; static Report* R = nullptr; static bool on = false, tracking = false, busy = false;
static uint32_t region = 0; static uint64_t ord[64]; static uint32_t epoch = 1;
static int held = -1, target = -2, preempts = 0;
static Fiber* top(Fiber* f) { while (f && f->inline_run) f = f->parent; return f; }

// ---- shadow: granule of 8 bytes -> bytes read / written by each member in this phase
struct Cell { uint64_t key; uint32_t epoch; uint8_t r[16], w[16], a[16]; uint8_t kind; };
static Cell* tab = nullptr; static size_t cap = 1 << 16, used = 0; static uint64_t allw_dummy;
static Cell* mk(size_t n) { void* p = mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(90); return (Cell*)p; }
static Cell* find(uint64_t g);
static void grow() { Cell* o = tab; size_t oc = cap; cap *= 2; tab = mk(cap); used = 0; for (size_t i = 0; i < oc; i++) if (o[i].key && o[i].epoch == epoch) { Cell* c = find(o[i].key); *c = o[i]; } munmap(o, oc * sizeof(Cell)); }
static Cell* find(uint64_t g) {
    for (size_t i = mc::mix(g) & (cap - 1);; i = (i + 1) & (cap - 1)) {
        Cell& c = tab[i];
        if (c.key == g) { if (c.epoch != epoch) { memset(&c, 0, sizeof c); c.key = g; c.epoch = epoch; } return &c; }
        if (!c.key) { if (used * 2 > cap) { grow(); return find(g); } used++; c.key = g; c.epoch = epoch; return &c; }
    }
}
// ---- planned conflicting granules
static uint64_t hot[8192]; static bool anyhot = false;
static bool is_hot(uint64_t g) { if (!anyhot) return false; for (size_t i = mc::mix(g) & 8191; hot[i]; i = (i + 1) & 8191) if (hot[i] == g) return true; return false; }
static void add_hot(uint64_t g) { anyhot = true; size_t i = mc::mix(g) & 8191; for (; hot[i]; i = (i + 1) & 8191) if (hot[i] == g) return; hot[i] = g; }
static uint64_t fresh[8192];
static void conflict(uint64_t g) {
    if (is_hot(g)) return;
    size_t i = mc::mix(g) & 8191; for (; fresh[i]; i = (i + 1) & 8191) if (fresh[i] == g) return;
    if (R->newgran >= 4096) { R->truncated = 1; return; }
    fresh[i] = g; R->gran[R->newgran++] = g; if (getenv("MC_CONFLICTS")) { fprintf(stderr, "conflict at %lx region %u thread %d\n", (unsigned long)(g << 3), region, top(cur)->id); void* bt[24]; int k = backtrace(bt, 24); backtrace_symbols_fd(bt, k, 2); }
}
static void bad(const char* what) { if (R && !R->bad[0]) { strncpy(R->bad, what, sizeof R->bad - 1); } }

static void switch_away() { Fiber* f = top(cur); Team* st = team; Fiber* sc = cur; team = f->team; cur = f; rt::yield_to_main(); team = st; cur = sc; }
static void maybe_preempt(bool hotacc, Fiber* f)
{
    int t = f->id; uint64_t o = ord[t];
    if (!hotacc) return;
    bool past = preempts >= (int)P->npoints;
    if (!past) {
        const Point& p = P->p[preempts];
        if (p.region == region && p.fiber == (uint32_t)t && p.ord == o) { preempts++; held = t; target = p.target; switch_away(); }
    } else if (R->npoints < 20000) R->p[R->npoints++] = { region, (uint32_t)t, o, -1 };
    else R->truncated = 1;
}
// kind: 0 plain, else a commutative atomic update (updates of one kind commute with each other)
static inline void access(uint64_t a, size_t n, bool w, int kind = 0)
{
    if (!tracking || busy || !cur) return;
    Fiber* f = top(cur); if (!f || f->team->n < 2) return;
    if (f->stack && a - (uint64_t)f->stack < (8u << 20)) return;      // its own stack
    busy = true; int t = f->id; ord[t]++; R->accesses++;
    uint64_t g0 = a >> 3, g1 = (a + (n ? n - 1 : 0)) >> 3; bool h = false;
    if (anyhot) for (uint64_t g = g0; g <= g1 && !h; g++) h = is_hot(g);
    if (h) { busy = false; maybe_preempt(true, f); busy = true; }
    for (uint64_t g = g0; g <= g1; g++) {
        uint8_t m = 0xff; if (g == g0) m &= 0xff << (a & 7); if (g == g1) m &= 0xff >> (7 - ((a + n - 1) & 7));
        Cell* c = find(g); bool com = kind && P->commute && (!c->kind || c->kind == kind); if (com) c->kind = kind;
        uint8_t& mine = com ? c->a[t] : w ? c->w[t] : c->r[t];
        if ((mine & m) == m) continue;
        mine |= m; bool k = false;
        for (unsigned u = 0; u < f->team->n && u < 16; u++) if ((int)u != t && ((c->w[u] & m) || (w && (c->r[u] & m)) || (!com && (c->a[u] & m)))) k = true;
        if (k) conflict(g);
    }
    busy = false;
}

// ---- objects of OpenSSL: which member used them in this phase, holding which locks
struct Use { int t; bool w; std::vector<void*> locks; };
static std::unordered_map<void*, std::vector<Use>>* objs; static std::vector<void*> locks[64];
static void object(void* p, bool w, bool ctx)
{
    if (!tracking || busy || !cur || !p) return;
    Fiber* f = top(cur); if (!f || f->team->n < 2) return;
    access((uint64_t)p, 8, w);
    busy = true; auto& v = (*objs)[p]; bool have = false;
    for (auto& u : v) { if (u.t == f->id) { if (u.w == w && u.locks == locks[f->id]) have = true; continue; } if (!u.w && !w) continue;
        bool common = false; for (void* l : u.locks) for (void* m : locks[f->id]) if (l == m) common = true;
        if (!common) bad(ctx ? "two threads use one bignum context at the same time" : "an OpenSSL object is modified by one thread while another uses it"); }
    if (!have) v.push_back({ f->id, w, locks[f->id] });
    busy = false;
}
static void forget(void* p) { if (tracking && !busy && p && objs) { busy = true; objs->erase(p); for (int i = 0; i < 2; i++) { Cell* c = find(((uint64_t)p >> 3) + i); uint64_t k = c->key; uint32_t e = c->epoch; memset(c, 0, sizeof *c); c->key = k; c->epoch = e; } busy = false; } }

// ---- scheduling
static int pick(Team* t)
{
    auto run = [&](int i) { return i >= 0 && i < (int)t->n && !t->fib[i]->done && !t->fib[i]->blocked; };
    int n = t->n;
    auto first = [&](int except) { for (int k = 0; k < n; k++) { int o = P->order, i = o == 0 ? k : o == 1 ? n - 1 - k : (k + o) % n; if (i != except && run(i)) return i; } return -1; };
    if (held >= 0) {
        if (target >= 0) { if (run(target)) return target; }
        else { if (t->last >= 0 && t->last != held && run(t->last)) return t->last; int i = first(held); if (i >= 0) return i; }
        int h = held; held = -1; if (run(h)) return h;
    }
    if (t->last >= 0 && run(t->last)) return t->last;
    return first(-1);
}
static void phase() { epoch++; if (objs) { busy = true; objs->clear(); busy = false; } }
static mc::Rng lane[64]; static uint64_t lanekey;
static void region_begin(Team* t) { region++; R->regions++; for (auto& o : ord) o = 0; for (auto& l : locks) l.clear(); phase(); held = -1; lanekey = mc::sysrng().next(); for (int i = 0; i < 64; i++) lane[i].s = mc::mix(lanekey + i); tracking = t->n > 1 && t->n <= 16; }
static void flush();
static void region_end(Team*) { tracking = false; flush(); }
static void sync(void* k, int what)
{
    if (what == 2) return;
    Fiber* f = top(cur); if (!f) return;
    if (what == 0) { access((uint64_t)k, 8, true); locks[f->id].push_back(k); }
    else { auto& l = locks[f->id]; for (size_t i = l.size(); i--;) if (l[i] == k) { l.erase(l.begin() + i); break; } }
}
static void bar(Team*) { phase(); }
static Hooks H;
static mc::Rng* pick_rng() { if (!tracking || !cur) return nullptr; Fiber* f = top(cur); return f ? &lane[f->id & 63] : nullptr; }
void enable(const Plan* p, Report* r)
{
    P = p; R = r; memset(r, 0, offsetof(Report, gran)); r->bad[0] = 0; if (!tab) tab = mk(cap); objs = new std::unordered_map<void*, std::vector<Use>>;
    for (uint64_t i = 0; i < p->ngran; i++) add_hot(p->gran[i]);
    H.region_begin = region_begin; H.region_end = region_end; H.pick = pick; H.sync = sync; H.barrier_done = bar; rt::hooks = &H; rt::team_override = p->team; mc::rng_override = pick_rng; on = true;
}
void disable() { rt::hooks = nullptr; rt::team_override = 0; on = tracking = false; mc::rng_override = nullptr; }

// ---- memory freed inside a region is not handed to another thread before the region ends
static void* dead[1 << 20]; static size_t ndead = 0;
static void flush() { size_t n = ndead; ndead = 0; for (size_t i = 0; i < n; i++) free(dead[i]); }
static bool keep(void* p) { if (!tracking || !p || ndead >= (1 << 20)) return false; dead[ndead++] = p; return true; }
}
using namespace ts;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!keep(p)) free(p); }
void operator delete[](void* p) noexcept { if (!keep(p)) free(p); }
void operator delete(void* p, size_t) noexcept { if (!keep(p)) free(p); }
void operator delete[](void* p, size_t) noexcept { if (!keep(p)) free(p); }
void* operator new(size_t n, std::align_val_t a) { void* p = nullptr; if (posix_memalign(&p, std::max((size_t)a, sizeof(void*)), n ? n : 1)) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { if (!keep(p)) free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { if (!keep(p)) free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (!keep(p)) free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if (!keep(p)) free(p); }

extern "C" {
void ts_free(void* p) { if (!keep(p)) free(p); }
void CRYPTO_free(void*, const char*, int); void ts_CRYPTO_free(void* p, const char* f, int l) { if (!keep(p)) CRYPTO_free(p, f, l); }
void* ts_memcpy(void* d, const void* s, size_t n) { if (tracking) { access((uint64_t)s, n, false); access((uint64_t)d, n, true); } return memcpy(d, s, n); }
void* ts_memmove(void* d, const void* s, size_t n) { if (tracking) { access((uint64_t)s, n, false); access((uint64_t)d, n, true); } return memmove(d, s, n); }
void* ts_memset(void* d, int c, size_t n) { if (tracking) access((uint64_t)d, n, true); return memset(d, c, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access((uint64_t)p, 8, true); }
void __tsan_vptr_read(void** p) { access((uint64_t)p, 8, false); }
#define RW(n) void __tsan_read##n(void* p) { access((uint64_t)p, n, false); } void __tsan_write##n(void* p) { access((uint64_t)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access((uint64_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { access((uint64_t)p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access((uint64_t)p, n, false); } void __tsan_volatile_write##n(void* p) { access((uint64_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access((uint64_t)p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access((uint64_t)p, n, true); } \
  void __tsan_read##n##_pc(void* p, void*) { access((uint64_t)p, n, false); } void __tsan_write##n##_pc(void* p, void*) { access((uint64_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uint64_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { access((uint64_t)p, n, true); }
// atomics: indivisible, so the preemption point lies before the operation
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T* a, int) { access((uint64_t)a, sizeof(T), false); return *a; } \
 void __tsan_atomic##B##_store(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true); T o = *a; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true, 1); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true, 1); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true, 3); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true, 4); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true, 5); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { access((uint64_t)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((uint64_t)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((uint64_t)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((uint64_t)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- OpenSSL: one letter per argument: w/r object written/read, c context, m/n raw memory written/read, - nothing, x object released
void ts_call(const char* spec, void** a)
{
    if (!tracking || busy) return;
    for (int i = 0; spec[i]; i++) switch (spec[i]) {
        case 'w': object(a[i], true, false); break; case 'r': object(a[i], false, false); break; case 'c': object(a[i], true, true); break;
        case 'm': if (a[i]) access((uint64_t)a[i], 8, true); break; case 'n': if (a[i]) access((uint64_t)a[i], 8, false); break;
        case 'x': object(a[i], true, false); forget(a[i]); break; }
}
}
#define TR(fn, spec) asm(".text\n.globl __wrap_" #fn "\n.type __wrap_" #fn ",@function\n__wrap_" #fn ":\n" \
  "pushq %rbp\nmovq %rsp,%rbp\nsubq $64,%rsp\nmovq %rdi,0(%rsp)\nmovq %rsi,8(%rsp)\nmovq %rdx,16(%rsp)\nmovq %rcx,24(%rsp)\nmovq %r8,32(%rsp)\nmovq %r9,40(%rsp)\n" \
  "leaq 9f(%rip),%rdi\nmovq %rsp,%rsi\ncall ts_call@PLT\n" \
  "movq 0(%rsp),%rdi\nmovq 8(%rsp),%rsi\nmovq 16(%rsp),%rdx\nmovq 24(%rsp),%rcx\nmovq 32(%rsp),%r8\nmovq 40(%rsp),%r9\nmovq %rbp,%rsp\npopq %rbp\nxorl %eax,%eax\njmp __real_" #fn "@PLT\n" \
  ".section .rodata\n9: .asciz \"" spec "\"\n.text\n");
#define TRAMPOLINES \
 TR(BN_CTX_start, "c") TR(BN_CTX_get, "c") TR(BN_CTX_free, "x") TR(BN_free, "x") TR(BN_clear_free, "x") TR(EC_POINT_free, "x") TR(EC_POINT_clear_free, "x") TR(EVP_MD_CTX_free, "x") \
 TR(BN_add, "wrr") TR(BN_sub, "wrr") TR(BN_mul, "wrr-") TR(BN_sqr, "wr-") TR(BN_div, "wwrr-") TR(BN_exp, "wrr-") TR(BN_gcd, "wrr-") TR(BN_nnmod, "wrr-") \
 TR(BN_mod_add, "wrrr-") TR(BN_mod_sub, "wrrr-") TR(BN_mod_mul, "wrrr-") TR(BN_mod_exp, "wrrr-") TR(BN_mod_sqr, "wrr-") TR(BN_mod_sqrt, "wrr-") TR(BN_mod_inverse, "wrr-") \
 TR(BN_bin2bn, "n-w") TR(BN_bn2bin, "rm") TR(BN_bn2binpad, "rm-") TR(BN_bn2dec, "r") TR(BN_bn2hex, "r") TR(BN_cmp, "rr") TR(BN_copy, "wr") TR(BN_get_word, "r") TR(BN_is_bit_set, "r-") TR(BN_is_negative, "r") TR(BN_is_one, "r") TR(BN_is_zero, "r") \
 TR(BN_lshift, "wr-") TR(BN_rshift, "wr-") TR(BN_mask_bits, "w-") TR(BN_num_bits, "r") TR(BN_rand_range, "wr") TR(BN_set_negative, "w-") TR(BN_set_word, "w-") \
 TR(EC_POINT_add, "-wrr-") TR(EC_POINT_dbl, "-wr-") TR(EC_POINT_cmp, "-rr-") TR(EC_POINT_copy, "wr") TR(EC_POINT_invert, "-w-") TR(EC_POINT_is_at_infinity, "-r") TR(EC_POINT_is_on_curve, "-r-") TR(EC_POINT_mul, "-wrrr-") TR(EC_POINT_oct2point, "-wn--") TR(EC_POINT_point2oct, "-r-m--") TR(EC_POINT_point2hex, "-r--") \
 TR(EC_POINT_set_affine_coordinates_GFp, "-wrr-") TR(EC_POINT_set_compressed_coordinates, "-wr--") TR(EC_POINT_set_to_infinity, "-w") TR(EC_POINTs_mul, "-wr---") \
 TR(EVP_DigestInit_ex, "w--") TR(EVP_DigestUpdate, "wn-") TR(EVP_DigestFinal_ex, "wm-") TR(SHA256, "n-m") TR(x25519_scalar_mulx, "mnn")
TRAMPOLINES
// locks of the code under test: the scheduler has to see them, or a preempted holder would block the process
extern "C" {
int __real_pthread_mutex_lock(void*); int __real_pthread_mutex_trylock(void*); int __real_pthread_mutex_unlock(void*);
int __wrap_pthread_mutex_lock(void* m) { if (!team) return __real_pthread_mutex_lock(m); acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(void* m) { if (!team) return __real_pthread_mutex_trylock(m); acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(void* m) { if (!team) return __real_pthread_mutex_unlock(m); release(m); return 0; }
}
