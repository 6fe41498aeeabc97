// Native replay of a schedule: one real thread runs at a time; the harness is compiled with the
// ThreadSanitizer instrumentation, whose hooks are provided here, so that every atomic access is a
// scheduling point exactly as in the symbolic executor. Freed memory is kept and accesses to it, as
// well as unordered accesses, are reported.
#include "vf.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <new>
#include <thread>
#include <time.h>
extern "C" void vf_fin(const char* what, const char* msg, int code);
struct Ev { unsigned long ev; int tid; };
static Ev trace[65536]; static unsigned ntrace, ptrace; static unsigned long nev;
enum { MT = 16 };
struct Th { int status; void* waitOn; int waitTid; bool yielded; unsigned vc[MT]; struct { u64 a; int n; } seen[64]; int nseen; void (*fn)(void*); void* arg; pthread_t pt; };
static Th th[MT]; static int nth = 1, cur = 0;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int me = 0; static bool on = false;
struct Own { void* m; int t; }; static Own own[64]; static int nown;
struct Sync { u64 a; unsigned vc[MT]; }; static Sync sy[4096]; static int nsy;
static int spins;
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); }
void vf_trace(u64 v) { if (ntrace < 65536) trace[ntrace++] = {(unsigned long)(v >> 8), (int)(v & 255)}; }
static int owner(void* m) { for (int i = 0; i < nown; ++i) if (own[i].m == m) return own[i].t; return -1; }
static void progress() { spins = 0; for (int i = 0; i < nth; ++i) { th[i].yielded = false; th[i].nseen = 0; } }
static Sync* sync(u64 a, bool mk) { for (int i = 0; i < nsy; ++i) if (sy[i].a == a) return &sy[i]; if (!mk || nsy == 4096) return 0; sy[nsy].a = a; return &sy[nsy++]; }
static void acquire(u64 a) { if (nth <= 1) return; Sync* s = sync(a, false); if (s) for (int i = 0; i < MT; ++i) if (th[cur].vc[i] < s->vc[i]) th[cur].vc[i] = s->vc[i]; }
static void rel(u64 a) { if (nth <= 1) return; Sync* s = sync(a, true); if (s) for (int i = 0; i < MT; ++i) if (s->vc[i] < th[cur].vc[i]) s->vc[i] = th[cur].vc[i]; th[cur].vc[cur]++; }
static void give(int t) { // hand the baton to thread t and wait until it comes back
    int m = me; if (t == m) return;
    __real_pthread_mutex_lock(&big); cur = t; pthread_cond_broadcast(&cv);
    if (th[m].status != 9) while (cur != m) pthread_cond_wait(&cv, &big);
    __real_pthread_mutex_unlock(&big);
}
static bool enabled(int t) { if (th[t].status == 9) return false; if (th[t].status == 1) return owner(th[t].waitOn) < 0; if (th[t].status == 2) return th[th[t].waitTid].status == 9; return true; }
static void to(int t) { th[t].status = 0; give(t); }
static void schedPoint() {
    if (nth <= 1) return;
    nev++;
    if (ptrace < ntrace && trace[ptrace].ev == nev) { int t = trace[ptrace++].tid; if (t >= nth || !enabled(t)) vf_fin("DIVERGED", "preempt", 20); to(t); }
}
static void switchFrom(bool blocked) {
    nev++;
    if (ptrace < ntrace && trace[ptrace].ev == nev) { int t = trace[ptrace++].tid; if (t >= nth || !enabled(t)) vf_fin("DIVERGED", "switch", 20);
        bool all = true; for (int i = 0; i < nth; ++i) if (i != cur && enabled(i) && !th[i].yielded) all = false;
        if (all) for (int i = 0; i < nth; ++i) th[i].yielded = false;
        to(t); return; }
    if (ptrace < ntrace) vf_fin("DIVERGED", "schedule", 20);
    bool any = false; for (int i = 0; i < nth; ++i) if (enabled(i) && !(i == cur && blocked)) any = true;
    if (!any) vf_fin("DEADLOCK", "no thread can make progress", 13);
    if (++spins > 1000) vf_fin("LIVELOCK", "every thread keeps waiting", 13);
    // past the end of the recorded schedule: round robin
    for (int k = 1; k <= nth; ++k) { int t = (cur + k) % nth; if (enabled(t) && !(t == cur && blocked)) { to(t); return; } }
}
static void* body(void* p) {
    int t = (int)(long)p; me = t;
    __real_pthread_mutex_lock(&big); while (cur != t) pthread_cond_wait(&cv, &big); __real_pthread_mutex_unlock(&big);
    th[t].fn(th[t].arg);
    th[t].status = 9; rel(0x9000000000ull + t); progress(); switchFrom(true);
    return 0;
}
extern "C" {
int vf_spawn(void (*f)(void*), void* a) {
    schedPoint(); if (nth >= MT) abort(); on = true;
    int t = nth++; th[t] = Th(); th[t].fn = f; th[t].arg = a; for (int i = 0; i < MT; ++i) th[t].vc[i] = th[cur].vc[i]; th[t].vc[t] = 1; th[cur].vc[cur]++;
    progress();
    pthread_create(&th[t].pt, 0, body, (void*)(long)t); return t;
}
void vf_join(int t) { while (th[t].status != 9) { th[cur].status = 2; th[cur].waitTid = t; switchFrom(true); } th[cur].status = 0; acquire(0x9000000000ull + t); }
void vf_yield() { if (nth <= 1) return; th[cur].yielded = true; switchFrom(false); }
int vf_tid() { return cur; }
int vf_nthreads() { return nth; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    for (;;) { schedPoint(); int o = owner(m); if (o < 0) break; if (o == cur) vf_fin("DEADLOCK", "mutex locked twice", 13); th[cur].status = 1; th[cur].waitOn = m; switchFrom(true); }
    own[nown++] = {m, cur}; acquire((u64)m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int i = 0; while (i < nown && !(own[i].m == m && own[i].t == cur)) ++i;
    if (i == nown) vf_fin("CRASH", "unlock of a mutex the thread does not hold", 13);
    own[i] = own[--nown]; rel((u64)m); progress(); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { schedPoint(); if (owner(m) >= 0) return 16; own[nown++] = {m, cur}; acquire((u64)m); return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { vf_yield(); return 0; }
int __wrap_sched_yield() { vf_yield(); return 0; }
}
// ---- memory: never reused, freed blocks are remembered
struct Blk { u64 a, n; bool live; }; static Blk blk[1 << 16]; static int nblk;
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xBE, n); if (nblk < (1 << 16)) blk[nblk++] = {(u64)p, n, true}; return p; }
static void put(void* p) { if (!p) return; for (int i = nblk - 1; i >= 0; --i) if (blk[i].a == (u64)p) { if (!blk[i].live) vf_fin("MEMORY-ERROR", "double free", 14); blk[i].live = false; memset(p, 0xDD, blk[i].n); return; } }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
struct Sh { u64 a; int wt; unsigned wc; unsigned rc[MT], aw[MT], ar[MT]; }; static Sh* shd[1 << 16]; static Sh pool[1 << 17]; static int npool;
static void acc(u64 a, u64 n, bool wr, bool at = false) {
    for (int i = nblk - 1; i >= 0; --i) if (!blk[i].live && a < blk[i].a + blk[i].n && a + n > blk[i].a) vf_fin("MEMORY-ERROR", "use after free", 14);
    if (nth <= 1) return;
    unsigned* v = th[cur].vc;
    for (u64 x = a; x < a + n; ++x) {
        u64 h = (x * 0x9E3779B97F4A7C15ull) >> 48; Sh* s; for (; (s = shd[h]) && s->a != x; h = (h + 1) & 0xffff) ;
        if (!s) { if (npool == 60000) return; s = shd[h] = &pool[npool++]; s->a = x; }
        bool bad = s->wc && s->wt != cur && v[s->wt] < s->wc;
        if (wr) for (int i = 0; i < MT; ++i) if (s->rc[i] && i != cur && v[i] < s->rc[i]) bad = true;
        if (!at) for (int i = 0; i < MT; ++i) if (i != cur && ((s->aw[i] && v[i] < s->aw[i]) || (wr && s->ar[i] && v[i] < s->ar[i]))) bad = true;
        if (bad) vf_fin("DATA-RACE", wr ? "write" : "read", 15);
        if (at) (wr ? s->aw : s->ar)[cur] = v[cur] ? v[cur] : 1;
        else if (wr) { s->wt = cur; s->wc = v[cur] ? v[cur] : 1; memset(s->rc, 0, sizeof s->rc); } else s->rc[cur] = v[cur] ? v[cur] : 1;
    }
}
static void spin(u64 a) {
    if (nth <= 1) return; Th& t = th[cur]; int i = 0; while (i < t.nseen && t.seen[i].a != a) ++i;
    if (i == t.nseen) { if (i == 64) return; t.seen[i].a = a; t.seen[i].n = 0; t.nseen++; }
    if (++t.seen[i].n <= 3) return;
    t.nseen = 0; t.yielded = true; switchFrom(false);
    // the engine executes the load again
    t.nseen = 0; t.seen[0].a = a; t.seen[0].n = 1; t.nseen = 1;
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define RW(N) void __tsan_read##N(void* p) { acc((u64)p, N, false); } void __tsan_write##N(void* p) { acc((u64)p, N, true); } void __tsan_unaligned_read##N(void* p) { acc((u64)p, N, false); } void __tsan_unaligned_write##N(void* p) { acc((u64)p, N, true); } \
  void __tsan_read_write##N(void* p) { acc((u64)p, N, false); acc((u64)p, N, true); } void __tsan_unaligned_read_write##N(void* p) { acc((u64)p, N, false); acc((u64)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((u64)s, n, false); acc((u64)d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((u64)s, n, false); acc((u64)d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc((u64)d, n, true); return memset(d, c, n); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int) { spin((u64)p); schedPoint(); acc((u64)p, sizeof(T), false, true); T v = *p; acquire((u64)p); return v; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); *p = v; rel((u64)p); progress(); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; *p = v; acquire((u64)p); rel((u64)p); progress(); return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; *p = o + v; acquire((u64)p); rel((u64)p); progress(); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; *p = o - v; acquire((u64)p); rel((u64)p); progress(); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; *p = o | v; acquire((u64)p); rel((u64)p); progress(); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; *p = o & v; acquire((u64)p); rel((u64)p); progress(); return o; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; acquire((u64)p); if (o == c) { *p = v; rel((u64)p); progress(); } return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { schedPoint(); acc((u64)p, sizeof(T), true, true); T o = *p; acquire((u64)p); if (o == *c) { *p = v; rel((u64)p); progress(); return 1; } *c = o; return 0; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)()) { _State* p = st.release(); _M_id = id((unsigned long)vf_spawn([](void* q) { _State* s = (_State*)q; s->_M_run(); delete s; }, p) + 1); }
void thread::join() { vf_join((int)(native_handle() - 1)); _M_id = id(); }
}
