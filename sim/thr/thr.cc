// Fibers, scheduler, happens-before race detector and memory model.
#include "thr.h"
#include <stdio.h>
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>

extern "C" void* __real_mmap(void*, size_t, int, int, int, long);
extern "C" void* __cxa_get_globals(void);
extern void (*g_memhook)(const void* p, size_t n, bool write);
extern void (*g_freehook)(void* p, size_t n);

uint64_t g_switches, g_points, g_stales;
typedef unsigned __int128 u128;

//---------------------------------------------------------------- fibers
struct EhGlobals { void* caught; unsigned uncaught; };
struct VC { uint32_t c [MAXTHR]; };
struct SimSave { const Step* step; int stepno, sysidx, allocidx, ctoridx, clkidx; int64_t budget; bool on, allocfaults; int allocfailed; Vec<SysRec> trace; };
struct Fiber {
    void* sp; char* stk; bool done; int pos; int hold; int pt;
    SimSave s; EhGlobals eh; int err;
    VC vc, vis, relf, pend;	// clock; what stale loads must respect; at the last release fence; gathered by relaxed loads
};
static const size_t STK = 256*1024;
static Fiber* F;	// MAXTHR of them
static Fiber g_main;
static int g_cur = -1, g_n;
static const Plan* g_plan; static ThrConfig g_cfg; static void (*g_dostep)(int,int);
static uint64_t g_yields, g_now;

int thr_self(void) { return g_cur; }
uint64_t thr_now(void) { return ++g_now; }
static inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXTHR; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }
static inline Fiber& me(void) { return F[g_cur]; }
static inline void tickvc(void) { Fiber& f = me(); ++f.vc.c[g_cur]; f.vis.c[g_cur] = f.vc.c[g_cur]; }
void thr_release(ThrSync& s) { if (g_cur < 0) return; for (int i = 0; i < MAXTHR; ++i) if (s.vc[i] < me().vc.c[i]) s.vc[i] = me().vc.c[i]; tickvc(); }
void thr_acquire(const ThrSync& s) { if (g_cur < 0) return; VC v; memcpy(&v,&s,sizeof(v)); join(me().vc,v); join(me().vis,v); }

extern "C" void thr_switch(void** from, void* to);
asm(".text\n.globl thr_switch\n.type thr_switch,@function\nthr_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size thr_switch,.-thr_switch\n");

static void savesim(Fiber& f)
{
    SimSave& s = f.s;
    s.step = sim.step; s.stepno = sim.stepno; s.sysidx = sim.sysidx; s.allocidx = sim.allocidx; s.ctoridx = sim.ctoridx; s.clkidx = sim.clkidx;
    s.budget = sim.stepbudget; s.on = sim.on; s.allocfaults = sim.allocfaults; s.allocfailed = sim.allocfailed; s.trace.swap(sim.trace);
    memcpy(&f.eh,__cxa_get_globals(),sizeof(f.eh)); f.err = errno;
}
static void loadsim(Fiber& f)
{
    SimSave& s = f.s;
    sim.step = s.step; sim.stepno = s.stepno; sim.sysidx = s.sysidx; sim.allocidx = s.allocidx; sim.ctoridx = s.ctoridx; sim.clkidx = s.clkidx;
    sim.stepbudget = s.budget; sim.on = s.on; sim.allocfaults = s.allocfaults; sim.allocfailed = s.allocfailed; s.trace.swap(sim.trace);
    memcpy(__cxa_get_globals(),&f.eh,sizeof(f.eh)); errno = f.err;
}
static void go(int to)	// -1: the main program
{
    if (to == g_cur) return;
    Fiber& a = g_cur < 0 ? g_main : F[g_cur]; Fiber& b = to < 0 ? g_main : F[to];
    savesim(a); ++g_switches;
    sim_mix(0x7000+to); sim_sig(0x7000+to);
    if (sim.verbose) { char s [64]; int n = snprintf(s,sizeof(s),"   thread %d -> %d at access %d\n",g_cur,to,a.pt); long rv = syscall(SYS_write,1,s,n); (void)rv; }
    g_cur = to; loadsim(b);
    thr_switch(&a.sp,b.sp);
}
static int nextstep(int t, int from) { for (int i = from; i < (int)g_plan->steps.size(); ++i) if ((int)((uint64_t)g_plan->steps[i].a[0] % g_n) == t) return i; return 1<<30; }
static uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { uint64_t z = a*0x9E3779B97F4A7C15ull ^ (b+1)*0xC2B2AE3D27D4EB4Full ^ c*0x165667B19E3779F9ull; z ^= z>>31; z *= 0xff51afd7ed558ccdull; z ^= z>>33; return z; }
static uint64_t salt(void) { return sim.step ? (uint64_t)sim.step->a[7] : 0; }
static bool roll(int permille, int what) { return permille && (int)(hash3(salt(),me().pt,what) % 1000) < permille; }
static int other(int want)	// a runnable thread, wanted one if possible, not this one
{
    for (int k = 0; k < g_n; ++k) { int t = (int)(((unsigned)want + k) % g_n); if (t != g_cur && !F[t].done) return t; }
    return -1;
}
static void boundary(void)
{
    int best = -1, any = -1;
    if (!me().done && g_cfg.brate && (int)(hash3(salt(),me().pos,99) % 1000) < g_cfg.brate) { int t = other((int)(hash3(salt(),me().pos,98) % g_n)); if (t >= 0) { fired(F_PREEMPT); go(t); return; } }
    for (int t = 0; t < g_n; ++t) if (!F[t].done) {
	if (any < 0 || F[t].pos < F[any].pos) any = t;
	if (!F[t].hold && (best < 0 || F[t].pos < F[best].pos)) best = t;
	if (F[t].hold) --F[t].hold;
    }
    go(best >= 0 ? best : any);
}
void thr_yield(void)
{
    if (g_cur < 0) return;
    if (++g_yields > 20000) sim_fail("","no-progress","every thread waits and none makes progress");
    int t = other(g_cur+1); if (t >= 0) go(t);
}
static void fiber_main(void)
{
    for (int i = nextstep(g_cur,0); i < (1<<30); i = nextstep(g_cur,i+1)) {
	me().pos = i; me().pt = 0;
	step_begin(*g_plan,i);
	sim_mix(0x6000+g_cur); sim_sig(0x6000+g_cur);
	g_dostep(g_cur,i);
	sim.on = false; g_yields = 0;
	me().pos = nextstep(g_cur,i+1);
	if (me().pos < (1<<30)) boundary();
    }
    sim.step = 0; me().done = true; me().pos = 1<<30;
    int left = 0; for (int t = 0; t < g_n; ++t) left += !F[t].done;
    if (left) boundary(); else go(-1);
    __builtin_trap();
}
static void memaccess(const void* p, size_t n, bool w);
static void memfree(void* p, size_t n);
extern "C" void asm_static_start(void);
void thr_run(const Plan& p, const ThrConfig& c, void (*dostep)(int,int))
{
    g_plan = &p; g_cfg = c; g_n = c.n < 1 ? 1 : c.n > MAXTHR ? MAXTHR : c.n; g_dostep = dostep;
    F = (Fiber*)hx_alloc(sizeof(Fiber)*MAXTHR); memset((void*)F,0,sizeof(Fiber)*MAXTHR);
    g_memhook = memaccess; g_freehook = memfree; sim.on = false; asm_static_start();
    int first = -1;
    for (int t = 0; t < g_n; ++t) {
	Fiber& f = F[t];
	f.stk = (char*)__real_mmap(0,STK+8192,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	mprotect(f.stk+4096,STK,PROT_READ|PROT_WRITE);
	void** sp = (void**)(f.stk+4096+STK-64);
	*--sp = 0; *--sp = (void*)fiber_main; for (int k = 0; k < 6; ++k) *--sp = 0;
	f.sp = sp; f.vc.c[t] = f.vis.c[t] = 1; f.s.budget = 1000000;
	f.pos = nextstep(t,0); f.done = f.pos == 1<<30;
	if (!f.done && (first < 0 || f.pos < F[first].pos)) first = t;
    }
    if (first >= 0) go(first);
    g_memhook = 0; g_freehook = 0;
}

//---------------------------------------------------------------- scheduling points
static inline bool active(void) { return sim.on && g_cur >= 0; }
static void point(void)
{
    Fiber& f = me(); const int idx = f.pt++;
    if (++g_points > 4000000) sim_fail("","no-progress","4000000 memory accesses without finishing");
    Fault fl;
    if (fault_at(F_PREEMPT,idx,&fl)) {
	int t = other((int)((uint64_t)fl.arg & 3));
	if (t >= 0) { fired(F_PREEMPT); f.hold = (int)((uint64_t)fl.arg>>2 & 7); go(t); }
    } else if (g_cfg.rate && (int)(hash3(salt(),idx,1) % 1000) < g_cfg.rate) {
	uint64_t h = hash3(salt(),idx,2); int t = other((int)(h & 3));
	if (t >= 0) { fired(F_PREEMPT); f.hold = (int)(h>>8 & 3); go(t); }
    }
}

//---------------------------------------------------------------- race detector
enum { A_READ, A_WRITE, A_AREAD, A_AWRITE, A_N };
static const char* const anames [A_N] = { "read", "write", "atomic load", "atomic store" };
struct ByteShadow { uint32_t clk [A_N][MAXTHR]; uint16_t step [A_N][MAXTHR]; };
struct Gran { uint64_t key; uint8_t touched; ByteShadow b [8]; };
static const size_t NGRAN = 1<<15;
static Gran* g_gran; static size_t g_ngran;
static Gran* gran(uint64_t key, bool make)
{
    if (!g_gran) { if (!make) return 0; g_gran = (Gran*)__real_mmap(0,NGRAN*sizeof(Gran),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
    size_t h = (key*0x9E3779B97F4A7C15ull >> 40) & (NGRAN-1);
    for (;; h = (h+1) & (NGRAN-1)) {
	if (g_gran[h].key == key) return &g_gran[h];
	if (!g_gran[h].key) { if (!make || g_ngran > NGRAN*3/4) return 0; ++g_ngran; g_gran[h].key = key; return &g_gran[h]; }
    }
}
static void racecheck(uint64_t a, size_t n, int kind, bool record = true)
{
    const Fiber& f = me();
    const unsigned against = kind == A_WRITE ? 15 : kind == A_READ ? 1u<<A_WRITE|1u<<A_AWRITE : kind == A_AREAD ? 1u<<A_WRITE : 1u<<A_READ|1u<<A_WRITE;
    for (uint64_t e = a + n; a < e;) {
	Gran* g = gran(a>>3,record);
	const uint64_t ge = (a|7)+1;
	if (g) for (; a < e && a < ge; ++a) {
	    ByteShadow& b = g->b[a&7];
	    if (g->touched) for (int k = 0; k < A_N; ++k) if (against>>k & 1) for (int t = 0; t < g_n; ++t)
		if (t != g_cur && b.clk[k][t] > f.vc.c[t]) {
		    const int os = b.step[k][t];
		    if (sim.verbose) { char m [64]; int l = snprintf(m,sizeof(m),"   race at address %llx\n",(unsigned long long)a); long rv = syscall(SYS_write,1,m,l); (void)rv; }
		    sim_fail("","data-race","%s by thread %d is not ordered with %s by thread %d in step %d (%s)",anames[kind],g_cur,anames[k],t,os,os < (int)g_plan->steps.size() ? g_plan->scn->ops[g_plan->steps[os].op] : "");
		}
	    if (record) { b.clk[kind][g_cur] = f.vc.c[g_cur]; b.step[kind][g_cur] = (uint16_t)sim.stepno; }
	}
	if (g && record) g->touched = 1;
	a = ge < e ? ge : e;
    }
}
static void forget(uint64_t a, size_t n)
{
    for (uint64_t k = a>>3; k <= (a+n-1)>>3; ++k) { Gran* g = gran(k,false); if (g) { g->touched = 0; memset(g->b,0,sizeof(g->b)); } }
}
static inline bool ownstack(const void* p)	// or the switch between harness and library, or errno, which every thread has of its own
{ const char* s = me().stk; return p == &sim.on || p == &errno || ((const char*)p >= s && (const char*)p < s + STK + 8192); }
static inline void access(const void* p, size_t n, bool w)
{
    if (!active() || ownstack(p)) return;
    point();
    racecheck((uint64_t)p,n,w);
}
static void range(const void* p, size_t n, bool w)	// one scheduling point for the start of a block transfer
{
    if (!active() || !n || ownstack(p)) return;
    point();
    racecheck((uint64_t)p,n,w);
}
static void memaccess(const void* p, size_t n, bool w) { range(p,n,w); }
static void memfree(void* p, size_t n) { if (active()) racecheck((uint64_t)p,n,A_WRITE,false); }

//---------------------------------------------------------------- memory model
// Every atomic object remembers the values stored in it, in order.  A load
// weaker than seq_cst may return any of them that the C++11 rules do not hide.
struct AEnt { uint64_t val; int tid; uint32_t clk; VC rel; bool sc; };
struct ASeen { uint32_t clk; int idx; };
struct ALoc { uint64_t addr; Vec<AEnt> e; int lastsc; Vec<ASeen> seen [MAXTHR]; };
static const size_t NLOC = 4096;
static ALoc* g_loc; static size_t g_nloc; static VC g_scfence;
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static ALoc* loc(uint64_t a, uint64_t now)
{
    if (!g_loc) { g_loc = (ALoc*)hx_alloc(NLOC*sizeof(ALoc)); memset((void*)g_loc,0,NLOC*sizeof(ALoc)); }
    size_t h = (a*0x9E3779B97F4A7C15ull >> 40) & (NLOC-1);
    while (g_loc[h].addr && g_loc[h].addr != a) h = (h+1) & (NLOC-1);
    ALoc& l = g_loc[h];
    if (!l.addr) { if (g_nloc > NLOC*3/4) sim_fail("","hang","too many atomic objects"); ++g_nloc; l.addr = a; }
    if (l.e.empty() || l.e.back().val != now) {	// first use, or changed without atomic access
	AEnt i; memset(&i,0,sizeof(i)); i.val = now; i.tid = -1; l.e.clear(); l.e.push(i); l.lastsc = 0;
	for (int t = 0; t < MAXTHR; ++t) l.seen[t].clear();
    }
    return &l;
}
static void saw(ALoc* l, int idx)
{
    Vec<ASeen>& s = l->seen[g_cur];
    if (s.empty() || s.back().idx < idx) { ASeen n = { me().vc.c[g_cur], idx }; s.push(n); }
}
static void acquire_from(const AEnt& e, int mo) { Fiber& f = me(); join(f.pend,e.rel); if (acq(mo)) { join(f.vc,e.rel); join(f.vis,e.rel); } }
static int choose(ALoc* l, int mo)	// which value a load returns
{
    Fiber& f = me();
    const int last = (int)l->e.size()-1;
    int lo = 0;
    for (int i = last; i > 0; --i) if (l->e[i].tid < 0 || f.vis.c[l->e[i].tid] >= l->e[i].clk) { lo = i; break; }	// its store happened before
    for (int t = 0; t < g_n; ++t) {	// read before, by us or by someone before us
	Vec<ASeen>& s = l->seen[t];
	for (int k = (int)s.size()-1; k >= 0; --k) if (s[k].clk <= f.vis.c[t]) { if (s[k].idx > lo) lo = s[k].idx; break; }
    }
    if (mo == __ATOMIC_SEQ_CST && l->lastsc > lo) lo = l->lastsc;
    if (lo >= last) return last;
    Fault fl;
    if (fault_at(F_STALE,f.pt-1,&fl) || roll(g_cfg.stale,3)) { fired(F_STALE); ++g_stales; return lo + (int)(hash3(salt(),f.pt,4) % (last-lo)); }
    return last;
}
static void put(ALoc* l, uint64_t v, int mo, bool rmw)
{
    Fiber& f = me();
    AEnt e; memset(&e,0,sizeof(e)); e.val = v; e.tid = g_cur; e.clk = f.vc.c[g_cur]; e.sc = mo == __ATOMIC_SEQ_CST;
    e.rel = rel(mo) ? f.vc : f.relf;
    if (rmw) join(e.rel,l->e.back().rel);
    l->e.push(e);
    if (e.sc) l->lastsc = (int)l->e.size()-1;
    saw(l,(int)l->e.size()-1);
    tickvc();
}
template <typename T> static T aload(const volatile T* p, int mo)
{
    if (!active() || ownstack((const void*)p)) return *p;
    point(); racecheck((uint64_t)p,sizeof(T),A_AREAD);
    ALoc* l = loc((uint64_t)p,(uint64_t)*p);
    int i = choose(l,mo);
    acquire_from(l->e[i],mo); saw(l,i); tickvc();
    return (T)l->e[i].val;
}
template <typename T> static void astore(volatile T* p, T v, int mo)
{
    if (!active() || ownstack((const void*)p)) { *p = v; return; }
    point(); racecheck((uint64_t)p,sizeof(T),A_AWRITE);
    ALoc* l = loc((uint64_t)p,(uint64_t)*p);
    *p = v; put(l,(uint64_t)v,mo,false);
}
template <typename T, typename Fn> static T armw(volatile T* p, int mo, Fn fn)
{
    if (!active() || ownstack((const void*)p)) { T o = *p; *p = fn(o); return o; }
    point(); racecheck((uint64_t)p,sizeof(T),A_AREAD); racecheck((uint64_t)p,sizeof(T),A_AWRITE);
    ALoc* l = loc((uint64_t)p,(uint64_t)*p);
    T o = *p, n = fn(o);
    acquire_from(l->e.back(),mo);
    *p = n; put(l,(uint64_t)n,mo,true);
    return o;
}
template <typename T> static bool acas(volatile T* p, T* exp, T v, int mo, int fmo, bool weak)
{
    if (!active() || ownstack((const void*)p)) { T o = *p; if (o == *exp) { *p = v; return true; } *exp = o; return false; }
    point(); racecheck((uint64_t)p,sizeof(T),A_AREAD);
    if (!ownstack(exp)) racecheck((uint64_t)exp,sizeof(T),A_READ);
    ALoc* l = loc((uint64_t)p,(uint64_t)*p);
    T o = *p;
    bool spur = false;
    if (o == *exp && weak && (fault_at(F_SPUR,me().pt-1) || roll(g_cfg.spur,5))) { fired(F_SPUR); spur = true; }
    if (o == *exp && !spur) {
	racecheck((uint64_t)p,sizeof(T),A_AWRITE);
	acquire_from(l->e.back(),mo); *p = v; put(l,(uint64_t)v,mo,true); return true;
    }
    acquire_from(l->e.back(),fmo); saw(l,(int)l->e.size()-1); tickvc();
    if (!ownstack(exp)) racecheck((uint64_t)exp,sizeof(T),A_WRITE);
    *exp = o; return false;
}
static void fence(int mo)
{
    if (!active()) return;
    point();
    Fiber& f = me();
    if (acq(mo)) { join(f.vc,f.pend); join(f.vis,f.pend); }
    if (rel(mo)) f.relf = f.vc;
    if (mo == __ATOMIC_SEQ_CST) { join(g_scfence,f.vis); join(f.vis,g_scfence); }
    tickvc();
}

//---------------------------------------------------------------- what the compiler calls
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p,n,false); } \
    void __tsan_write##n(void* p) { access(p,n,true); } \
    void __tsan_unaligned_read##n(void* p) { access(p,n,false); } \
    void __tsan_unaligned_write##n(void* p) { access(p,n,true); } \
    void __tsan_volatile_read##n(void* p) { access(p,n,false); } \
    void __tsan_volatile_write##n(void* p) { access(p,n,true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p,n,false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p,n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { range(p,n,false); }
void __tsan_write_range(void* p, size_t n) { range(p,n,true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p,8,true); }
void __tsan_vptr_read(void** p) { access(p,8,false); }
#define AT(bits,T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return aload(p,mo); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { astore(p,v,mo); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return armw(p,mo,[=](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return armw(p,mo,[=](T o) { return (T)(o+v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return armw(p,mo,[=](T o) { return (T)(o-v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return armw(p,mo,[=](T o) { return (T)(o&v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return armw(p,mo,[=](T o) { return (T)(o|v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return armw(p,mo,[=](T o) { return (T)(o^v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return armw(p,mo,[=](T o) { return (T)~(o&v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return acas(p,e,v,mo,fmo,false); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return acas(p,e,v,mo,fmo,true); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { acas(p,&e,v,mo,fmo,false); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// Block operations; the simulator's own are renamed to hx_ ones at build time
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { range(s,n,false); range(d,n,true); return __real_memcpy(d,s,n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { range(s,n,false); range(d,n,true); return __real_memmove(d,s,n); }
void* __wrap_memset(void* d, int c, size_t n) { range(d,n,true); return __real_memset(d,c,n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { range(a,n,false); range(b,n,false); return __real_memcmp(a,b,n); }
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); range(a,n+1,false); return n; }
int __real_vsnprintf(char*, size_t, const char*, va_list);
void* hxm_cpy(void* d, const void* s, size_t n) __asm__("hx_memcpy"); void* hxm_cpy(void* d, const void* s, size_t n) { return __real_memcpy(d,s,n); }
void* hxm_move(void* d, const void* s, size_t n) __asm__("hx_memmove"); void* hxm_move(void* d, const void* s, size_t n) { return __real_memmove(d,s,n); }
void* hxm_set(void* d, int c, size_t n) __asm__("hx_memset"); void* hxm_set(void* d, int c, size_t n) { return __real_memset(d,c,n); }
int hxm_cmp(const void* a, const void* b, size_t n) __asm__("hx_memcmp"); int hxm_cmp(const void* a, const void* b, size_t n) { return __real_memcmp(a,b,n); }
size_t hxm_len(const char* a) __asm__("hx_strlen"); size_t hxm_len(const char* a) { return __real_strlen(a); }
int hxm_vsn(char* b, size_t n, const char* f, va_list a) __asm__("hx_vsnprintf"); int hxm_vsn(char* b, size_t n, const char* f, va_list a) { return __real_vsnprintf(b,n,f,a); }
int hxm_sn(char* b, size_t n, const char* f, ...) __asm__("hx_snprintf"); int hxm_sn(char* b, size_t n, const char* f, ...) { va_list a; va_start(a,f); int r = __real_vsnprintf(b,n,f,a); va_end(a); return r; }
int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list a) { range(f,__real_strlen(f)+1,false); int r = __real_vsnprintf(b,n,f,a); if (r >= 0 && n) range(b,(size_t)r < n ? (size_t)r+1 : n,true); return r; }
int __wrap_snprintf(char* b, size_t n, const char* f, ...) { va_list a; va_start(a,f); int r = __wrap_vsnprintf(b,n,f,a); va_end(a); return r; }
// Exceptions thrown when memory is out live in the runtime's own locked pool, which uses their memory again
void* __real___cxa_allocate_exception(size_t);
void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); if (p) forget((uint64_t)p,n); return p; }
char* __real___cxa_demangle(const char*, char*, size_t*, int*);
char* __wrap___cxa_demangle(const char* m, char* b, size_t* n, int* st) { range(m,__real_strlen(m)+1,false); char* r = __real___cxa_demangle(m,b,n,st); if (r && r == b) range(b,__real_strlen(b)+1,true); return r; }
// The library's own assembly.  What it keeps in static memory is seen by comparing that memory with a copy.
__attribute__((weak)) extern uint8_t __start_ualgo_bss[], __stop_ualgo_bss[], __start_ualgo_data[], __stop_ualgo_data[];
static struct AsmStatic { uint8_t *a, *e; uint8_t first [8192], was [8192]; bool known;
    void start(uint8_t* s, uint8_t* t) { if (!s || t <= s) return; if (t-s > 8192) t = s+8192; if (!known) { a = s; e = t; __real_memcpy(first,s,t-s); known = true; } __real_memcpy(a,first,e-a); __real_memcpy(was,first,e-a); }
    void look(void) { for (size_t i = 0, n = e-a; i < n; ++i) { if (a[i] == was[i]) continue; const size_t b = i; while (i < n && a[i] != was[i]) { was[i] = a[i]; ++i; } range(a+b,i-b,true); } }
} g_asmstatic [2];
void asm_static_start(void) { g_asmstatic[0].start(__start_ualgo_bss,__stop_ualgo_bss); g_asmstatic[1].start(__start_ualgo_data,__stop_ualgo_data); }
static void asmlook(void) { if (active()) for (int i = 0; i < 2; ++i) if (g_asmstatic[i].known) g_asmstatic[i].look(); }
__attribute__((weak)) void __real_copy_n_fast(const void*, size_t, void*); __attribute__((weak)) void __real_copy_backward_fast(const void*, const void*, void*);
__attribute__((weak)) void __real_fill_n8_fast(uint8_t*, size_t, uint8_t); __attribute__((weak)) void __real_fill_n16_fast(uint16_t*, size_t, uint16_t); __attribute__((weak)) void __real_fill_n32_fast(uint32_t*, size_t, uint32_t);
__attribute__((weak)) void __real_rotate_fast(void*, void*, void*);
void __wrap_copy_n_fast(const void* s, size_t n, void* d) { range(s,n,false); range(d,n,true); __real_copy_n_fast(s,n,d); asmlook(); }
void __wrap_copy_backward_fast(const void* f, const void* l, void* r) { size_t n = (const char*)l-(const char*)f; range(f,n,false); range((char*)r-n,n,true); __real_copy_backward_fast(f,l,r); asmlook(); }
void __wrap_fill_n8_fast(uint8_t* d, size_t n, uint8_t v) { range(d,n,true); __real_fill_n8_fast(d,n,v); asmlook(); }
void __wrap_fill_n16_fast(uint16_t* d, size_t n, uint16_t v) { range(d,n*2,true); __real_fill_n16_fast(d,n,v); asmlook(); }
void __wrap_fill_n32_fast(uint32_t* d, size_t n, uint32_t v) { range(d,n*4,true); __real_fill_n32_fast(d,n,v); asmlook(); }
void __wrap_rotate_fast(void* f, void* m, void* l) { range(f,(char*)l-(char*)f,true); __real_rotate_fast(f,m,l); asmlook(); }
}
