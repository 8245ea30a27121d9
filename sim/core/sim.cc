// Core of the simulator: plans, allocator seam, violation reporting, driver.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, long); int __real_clock_gettime(clockid_t, struct timespec*);
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t); size_t __real_malloc_usable_size(void*);
void* hx_alloc(size_t n) { void* p = __real_malloc(n); if (!p) abort(); return p; }
void* hx_realloc(void* p, size_t n) { p = __real_realloc(p,n); if (!p) abort(); return p; }
void hx_free(void* p) { __real_free(p); }
}

const char* const g_faultNames [F_NKINDS] = { "short_transfer", "eintr", "eagain", "io_error", "zero_transfer", "alloc_failure", "element_throw", "crash", "preempt", "rand", "clock", "flip", "stale_load", "spurious_cas" };

Sim sim;
void (*g_memhook)(const void* p, size_t n, bool write); void (*g_freehook)(void* p, size_t n);	// for simulated threads
jmp_buf g_crashjmp; bool g_crasharmed;

//---------------------------------------------------------------- results shared with the parent
struct Result {
    int state;			// 0 running, 1 ok, 2 violation
    char cls [48];
    char msg [600];
    int step;
    uint64_t hash, sig, nsys, nalloc, simns, nsteps;
    uint64_t fired [F_NKINDS];
    uint64_t probes [64];
};
static Result* R;

void sim_mix(uint64_t v) { sim.hash = (sim.hash ^ v) * 0x100000001b3ull; sim.hash ^= sim.hash >> 29; }
void sim_sig(uint64_t v) { sim.sig = (sim.sig ^ v) * 0x9E3779B97F4A7C15ull; sim.sig ^= sim.sig >> 31; }
void sim_tick(int64_t ns) { sim.clock += ns; R->simns += ns > 0 ? ns : 0; }
void fired(int kind) { ++R->fired[kind]; sim_mix(0x1000+kind); sim_sig(0x1000+kind); }
void probe(int n) { ++R->probes[n]; }
bool judging(const char* prop) { return !*prop || !strcmp(prop, sim.plan->prop); }

void sim_log(const char* fmt, ...)
{
    char buf [512];
    va_list ap; va_start(ap,fmt); int n = vsnprintf(buf,sizeof(buf),fmt,ap); va_end(ap);
    if (n > (int)sizeof(buf)-1) n = sizeof(buf)-1;
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; ++i) h = (h ^ (uint8_t)buf[i]) * 0x100000001b3ull;
    sim_mix(h);
    if (sim.verbose) { buf[n] = '\n'; long rv = syscall(SYS_write, 1, buf, n+1); (void)rv; }
}

[[noreturn]] static void finish(int state)
{
    R->hash = sim.hash; R->sig = sim.sig; R->nsys = sim.nsys; R->nalloc = sim.nalloc;
    R->state = state; R->step = sim.stepno;
    syscall(SYS_exit_group, state == 1 ? 0 : 3);
    __builtin_unreachable();
}
[[noreturn]] void sim_exit_run(void) { finish(1); }

static void vfail(const char* cls, const char* fmt, va_list ap)
{
    snprintf(R->cls, sizeof(R->cls), "%s", cls);
    int n = 0;
    if (sim.stepno >= 0 && sim.plan && sim.stepno < (int)sim.plan->steps.size())
	n = snprintf(R->msg, sizeof(R->msg), "step %d (%s): ", sim.stepno, sim.plan->scn->ops[sim.plan->steps[sim.stepno].op]);
    vsnprintf(R->msg+n, sizeof(R->msg)-n, fmt, ap);
    for (char* c = R->msg; *c; ++c) if (*c == '\n') *c = ' ';
    uint64_t h = 7; for (const char* c = cls; *c; ++c) h = h*131 + (uint8_t)*c;
    sim_mix(h);
    finish(2);
}
void sim_fail(const char* prop, const char* cls, const char* fmt, ...)
{
    if (!judging(prop)) return;
    sim.on = false;
    va_list ap; va_start(ap,fmt); vfail(cls,fmt,ap); va_end(ap);
}

//---------------------------------------------------------------- plan execution helpers
void step_begin(const Plan& p, int i)
{
    sim.plan = &p; sim.stepno = i; sim.step = &p.steps[i];
    sim.sysidx = sim.allocidx = sim.ctoridx = sim.clkidx = 0; g_nclk = 0; sim.stepbudget = 20000; sim.allocfailed = 0;
    sim.trace.clear();
    sim.allocfaults = false;
    for (int k = 0; k < sim.step->nf; ++k) if (sim.step->f[k].kind == F_ALLOC) sim.allocfaults = true;
    sim_mix(0x5000 + sim.step->op); sim_sig(0x5000 + sim.step->op);
    ++R->nsteps;
    if (sim.verbose) {
	char b [256]; int n = snprintf(b,sizeof(b),"-- step %d %s", i, p.scn->ops[sim.step->op]);
	for (int k = 0; k < sim.step->na; ++k) n += snprintf(b+n,sizeof(b)-n," %lld",(long long)sim.step->a[k]);
	b[n++]='\n'; long rv = syscall(SYS_write,1,b,n); (void)rv;
    }
}
bool fault_at(int kind, int idx, Fault* out)
{
    if (!sim.step) return false;
    for (int k = 0; k < sim.step->nf; ++k) {
	const Fault& f = sim.step->f[k];
	if (f.kind == kind && idx >= f.idx && idx < f.idx + f.cnt) { if (out) *out = f; return true; }
    }
    return false;
}

//---------------------------------------------------------------- allocator seam
// Every block ends at an inaccessible page; blocks are never reused within a
// run and become inaccessible when freed; realloc always moves.
static const size_t PG = 4096;
static const size_t ARENA_PAGES = 512*1024;
static char* const ARENA = (char*)0x100000000000ull;
struct Meta { uint32_t pages; uint8_t state; uint64_t size; void* site; };	// state: 1 live 2 freed 3 forgotten 4 placed
static Meta g_meta [ARENA_PAGES];
static size_t g_apos = 1, g_live, g_liveb, g_peak, g_limit = 96u<<20;

static bool in_arena(const void* p) { return (const char*)p >= ARENA && (const char*)p < ARENA + ARENA_PAGES*PG; }
static void* araw(size_t n, size_t align, int state, void* site)
{
    size_t r = (n + align-1) & ~(align-1);
    size_t pages = (r + PG-1) / PG; if (!pages) pages = 1;
    if (g_apos + pages + 1 >= ARENA_PAGES) sim_fail("", "arena-exhausted", "run used up the simulated address space");
    char* b = ARENA + g_apos*PG;
    if (mprotect(b, pages*PG, PROT_READ|PROT_WRITE)) { fprintf(stderr,"mprotect failed\n"); syscall(SYS_exit_group,9); }
    Meta& m = g_meta[g_apos]; m.pages = pages; m.state = state; m.size = n; m.site = site;
    g_apos += pages + 1;
    char* p = b + pages*PG - r;
    memset(b, 0xA5, pages*PG > 65536 ? 65536 : pages*PG);
    memset(p + n, 0xCB, r - n);
    return p;
}
static Meta* ameta(const void* p)
{
    size_t pg = ((const char*)p - ARENA)/PG;
    Meta* m = &g_meta[pg];
    if (!m->state) return 0;
    size_t r = (m->size + 15) & ~15ull;
    if (m->state == 4) r = m->size;
    char* q = ARENA + pg*PG + m->pages*PG - r;
    return q == p || (m->size == 0) ? m : 0;
}
static void* aalloc(size_t n, void* site)
{
    void* p = araw(n, 16, 1, site);
    // a zero sized block still needs an address of its own; it sits right at the guard page
    ++g_live; g_liveb += n; if (g_liveb > g_peak) g_peak = g_liveb;
    return p;
}
static bool alloc_allowed(size_t n)
{
    int idx = sim.allocidx++;
    ++sim.nalloc;
    if (sim.nalloc > 200000) sim_fail("", "hang", "more than 200000 allocations in one run");
    if (fault_at(F_ALLOC, idx)) { fired(F_ALLOC); ++sim.allocfailed; errno = ENOMEM; return false; }
    if (n > g_limit || g_liveb + n > g_limit) { ++sim.allocfailed; errno = ENOMEM; sim_mix(0xE0E); return false; }
    return true;
}
static void afree(void* p, const char* what)
{
    if (p == ARENA + (((char*)p - ARENA)/PG)*PG && ((char*)p - ARENA)/PG && g_meta[((char*)p-ARENA)/PG].state == 0) {
	// a zero sized block's address is the guard page after its data page
	Meta& z = g_meta[((char*)p - ARENA)/PG - 1];
	if (z.state && z.size == 0) p = (char*)p - PG;
    }
    Meta* m = ameta(p);
    if (!m) { sim_fail("", "bad-free", "%s of a pointer that was never returned by the allocator", what); return; }
    if (m->state == 2) { sim_fail("", "double-free", "%s of a block of %llu bytes that is already free", what, (unsigned long long)m->size); return; }
    if (m->state == 4) { sim_fail("", "bad-free", "%s of memory the library does not own (%llu bytes)", what, (unsigned long long)m->size); return; }
    if (m->state == 3) return;
    size_t pg = m - g_meta;
    char* b = ARENA + pg*PG;
    size_t r = (m->size + 15) & ~15ull;
    for (size_t i = m->size; i < r; ++i)
	if ((uint8_t)b[m->pages*PG - r + i] != 0xCB) sim_fail("", "heap-overflow", "write past the end of a block of %llu bytes", (unsigned long long)m->size);
    for (size_t i = 0, e = m->pages*PG - r; i < e && i < 64; ++i)
	if ((uint8_t)b[e-1-i] != 0xA5 && m->pages*PG <= 65536) sim_fail("", "heap-underflow", "write before the start of a block of %llu bytes", (unsigned long long)m->size);
    if (g_freehook) g_freehook(p, m->size);
    m->state = 2; --g_live; g_liveb -= m->size;
    mprotect(b, m->pages*PG, PROT_NONE);
    if (m->pages > 16) madvise(b, m->pages*PG, MADV_DONTNEED);
}
static size_t asize(void* p)
{
    if (((uintptr_t)p & (PG-1)) == 0) { size_t pg = ((char*)p-ARENA)/PG; if (!g_meta[pg].state && pg && g_meta[pg-1].state && g_meta[pg-1].size == 0) return 0; }
    Meta* m = ameta(p); return m && m->state == 1 ? m->size : 0;
}

size_t arena_live_blocks(void) { return g_live; }
size_t arena_live_bytes(void) { return g_liveb; }
size_t arena_peak_bytes(void) { return g_peak; }
void arena_reset_peak(void) { g_peak = g_liveb; }
void arena_set_limit(size_t n) { g_limit = n; }
size_t arena_block_size(const void* p) { return in_arena(p) ? asize((void*)p) : 0; }
void* arena_place(size_t n, const void* src) { void* p = araw(n, 1, 4, 0); if (src && n) memcpy(p, src, n); return p; }
void arena_protect_ro(void* p) { size_t pg = ((char*)p - ARENA)/PG; while (pg && !g_meta[pg].state) --pg; mprotect(ARENA+pg*PG, g_meta[pg].pages*PG, PROT_READ); }
void arena_forget_all(void) { for (size_t i = 1; i < g_apos; ++i) if (g_meta[i].state == 1) g_meta[i].state = 3; g_live = 0; g_liveb = 0; }
void arena_check_leaks(const char* prop, const char* what)
{
    if (!g_live) return;
    for (size_t i = 1; i < g_apos; ++i) if (g_meta[i].state == 1) {
	sim_fail(prop, "leak", "%s: %llu block(s) never freed, first of %llu bytes", what, (unsigned long long)g_live, (unsigned long long)g_meta[i].size);
	return;
    }
}

extern "C" {
void* __wrap_malloc(size_t n)
{
    if (!sim.on) return __real_malloc(n);
    return alloc_allowed(n) ? aalloc(n, __builtin_return_address(0)) : 0;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (!sim.on) return __real_calloc(a,b);
    size_t n; if (__builtin_mul_overflow(a,b,&n)) { errno = ENOMEM; return 0; }
    if (!alloc_allowed(n)) return 0;
    void* p = aalloc(n, __builtin_return_address(0)); memset(p,0,n); return p;
}
void __wrap_free(void* p)
{
    if (!p) return;
    if (!in_arena(p)) { __real_free(p); return; }
    int e = errno; afree(p, "free"); errno = e;
}
void* __wrap_realloc(void* p, size_t n)
{
    if (p && !in_arena(p)) {
	if (!sim.on) return __real_realloc(p,n);
	// a block from before the run began (global streams): move it into the arena
	const size_t o = __real_malloc_usable_size(p);
	if (!alloc_allowed(n)) return 0;
	void* q = aalloc(n, __builtin_return_address(0));
	memcpy(q, p, o < n ? o : n);
	__real_free(p);
	return q;
    }
    if (!p) return __wrap_malloc(n);
    if (!n) { afree(p, "realloc"); return 0; }
    Meta* m0 = 0; size_t o = asize(p);
    (void)m0;
    if (!alloc_allowed(n)) return 0;
    if (!o && ameta(p) && ameta(p)->state == 2) sim_fail("", "double-free", "realloc of a freed block");
    void* q = aalloc(n, __builtin_return_address(0));
    memcpy(q, p, o < n ? o : n);
    afree(p, "realloc");
    return q;
}
void* __wrap_reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a,b,&n)) { errno = ENOMEM; return 0; } return __wrap_realloc(p,n); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s)+1; char* p = (char*)__wrap_malloc(n); if (p) memcpy(p,s,n); return p; }
char* __wrap_strndup(const char* s, size_t k) { size_t n = strnlen(s,k); char* p = (char*)__wrap_malloc(n+1); if (p) { memcpy(p,s,n); p[n]=0; } return p; }
void* __wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }
int __wrap_posix_memalign(void** pp, size_t, size_t n) { void* p = __wrap_malloc(n); if (!p) return ENOMEM; *pp = p; return 0; }
size_t __wrap_malloc_usable_size(void* p) { return in_arena(p) ? asize(p) : __real_malloc_usable_size(p); }
}

//---------------------------------------------------------------- crash handling
static void on_signal(int sig, siginfo_t* si, void*)
{
    sim.on = false;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGABRT ? "abort" : "hang";
    if (sig == SIGPROF || sig == SIGALRM) { sim_fail("", "hang", "no progress: CPU budget of the step exhausted"); }
    if (sig == SIGSEGV && in_arena(si->si_addr)) {
	size_t pg = ((char*)si->si_addr - ARENA)/PG, q = pg;
	while (q && !g_meta[q].state) --q;
	const Meta& m = g_meta[q];
	const bool inside = pg < q + m.pages;
	long over = (char*)si->si_addr - (ARENA + (q+m.pages)*PG);
	if (inside && (m.state == 2)) sim_fail("", "use-after-free", "access to a freed block of %llu bytes", (unsigned long long)m.size);
	if (inside) sim_fail("", "bad-write", "write to a read only block of %llu bytes", (unsigned long long)m.size);
	sim_fail("", "out-of-bounds", "access %ld bytes past the end of a block of %llu bytes", over, (unsigned long long)m.size);
    }
    char c [32]; snprintf(c,sizeof(c),"crash-%s",n);
    sim_fail("", c, "%s (%s)", sig == SIGABRT ? "abort(): unhandled exception or failed assertion" : "fatal signal", n);
    finish(2);
}
static char g_altstack [65536];
static void install_handlers()
{
    stack_t ss; ss.ss_sp = g_altstack; ss.ss_size = sizeof(g_altstack); ss.ss_flags = 0; sigaltstack(&ss,0);
    struct sigaction sa; memset(&sa,0,sizeof(sa)); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
    const int sigs [] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGPROF };
    for (unsigned i = 0; i < sizeof(sigs)/sizeof(sigs[0]); ++i) sigaction(sigs[i],&sa,0);
}

//---------------------------------------------------------------- scenarios
static const Scenario* g_scn [64]; static int g_nscn;
void register_scenario(const Scenario* s) { g_scn[g_nscn++] = s; }
static bool hasword(const char* list, const char* w)
{
    size_t n = strlen(w);
    for (const char* p = list; (p = strstr(p,w)); p += n)
	if ((p == list || p[-1] == ' ') && (!p[n] || p[n] == ' ')) return true;
    return false;
}
static const Scenario* scn_for(const char* prop, int idx) { int k = 0; for (int i = 0; i < g_nscn; ++i) if (hasword(g_scn[i]->props,prop) && k++ == idx) return g_scn[i]; return 0; }
static int nscn_for(const char* prop) { int k = 0; for (int i = 0; i < g_nscn; ++i) k += hasword(g_scn[i]->props,prop); return k; }
static const Scenario* scn_named(const char* n) { for (int i = 0; i < g_nscn; ++i) if (!strcmp(g_scn[i]->name,n)) return g_scn[i]; return 0; }

static uint64_t mix64(uint64_t z) { z ^= z>>33; z *= 0xff51afd7ed558ccdull; z ^= z>>33; z *= 0xc4ceb9fe1a85ec53ull; return z ^ (z>>33); }

static void gen_plan(const char* prop, uint64_t seed, Plan& p)
{
    int ns = nscn_for(prop);
    if (!ns) { fprintf(stderr,"no scenario for %s\n",prop); exit(2); }
    p.scn = scn_for(prop, (int)(mix64(seed*2+1) % ns));
    snprintf(p.prop,sizeof(p.prop),"%s",prop);
    Rng r (mix64(seed));
    p.scn->gen(r, p, mix64(seed+77) % 4 != 0);
}
static void print_plan(FILE* o, const Plan& p)
{
    fprintf(o,"plan 1\nprop %s\nscn %s\n", p.prop, p.scn->name);
    for (int i = 0; i < p.scn->ncfgs; ++i) fprintf(o,"cfg %s %lld\n",p.scn->cfgs[i],(long long)p.cfg[i]);
    for (size_t i = 0; i < p.steps.size(); ++i) {
	const Step& s = p.steps[i];
	fprintf(o,"s %s",p.scn->ops[s.op]);
	for (int k = 0; k < s.na; ++k) fprintf(o," %lld",(long long)s.a[k]);
	fprintf(o,"\n");
	for (int k = 0; k < s.nf; ++k) fprintf(o,"f %s %d %d %lld\n",g_faultNames[s.f[k].kind],s.f[k].idx,s.f[k].cnt,(long long)s.f[k].arg);
    }
    fprintf(o,"end\n");
}
static bool read_plan(FILE* in, Plan& p)
{
    char line [1024], w [64];
    bool ended = false;
    while (fgets(line,sizeof(line),in)) {
	if (line[0] == '#' || line[0] == '\n') continue;
	if (!strncmp(line,"end",3)) { ended = true; break; }
	if (!strncmp(line,"plan",4)) continue;
	if (sscanf(line,"prop %63s",w) == 1) { snprintf(p.prop,sizeof(p.prop),"%.7s",w); continue; }
	if (sscanf(line,"scn %63s",w) == 1) { p.scn = scn_named(w); if (!p.scn) return false; continue; }
	if (!strncmp(line,"cfg ",4)) {
	    long long v; if (sscanf(line,"cfg %63s %lld",w,&v) != 2 || !p.scn) return false;
	    for (int i = 0; i < p.scn->ncfgs; ++i) if (!strcmp(p.scn->cfgs[i],w)) p.cfg[i] = v;
	    continue;
	}
	if (line[0] == 's') {
	    int n = 0; if (sscanf(line,"s %63s%n",w,&n) != 1 || !p.scn) return false;
	    Step s; memset(&s,0,sizeof(s)); s.op = -1;
	    for (int i = 0; i < p.scn->nops; ++i) if (!strcmp(p.scn->ops[i],w)) s.op = i;
	    if (s.op < 0) return false;
	    for (char* c = line+n; s.na < MAXARGS;) { char* e; long long v = strtoll(c,&e,10); if (e == c) break; s.a[s.na++] = v; c = e; }
	    p.steps.push(s);
	    continue;
	}
	if (line[0] == 'f') {
	    int idx, cnt; long long arg; if (sscanf(line,"f %63s %d %d %lld",w,&idx,&cnt,&arg) != 4 || p.steps.empty()) return false;
	    for (int k = 0; k < F_NKINDS; ++k) if (!strcmp(g_faultNames[k],w)) addfault(p.steps.back(),k,idx,cnt,arg);
	    continue;
	}
	return false;
    }
    return ended && p.scn;
}

//---------------------------------------------------------------- driver
static void run_child(const Plan& p)
{
    // g_apos etc. are pristine: each run happens in a forked image
    struct itimerval it; memset(&it,0,sizeof(it)); it.it_value.tv_sec = 8; setitimer(ITIMER_PROF,&it,0);
    sim.plan = &p; sim.step = 0; sim.stepno = -1;
    sim.hash = 0xcbf29ce484222325ull; sim.sig = 1; sim.clock = 1000000000ll*1700000000ll;
    sim.on = false; sim.stepbudget = 1000000;
    fs_reset();
    p.scn->exec(p);
    sim.on = false;
    finish(1);
}
static void run_forked(const Plan& p, bool verbose)
{
    memset(R,0,sizeof(*R));
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (!pid) { sim.verbose = verbose; install_handlers(); run_child(p); }
    int st = 0;
    while (waitpid(pid,&st,0) < 0 && errno == EINTR) {}
    if (R->state == 0) {
	snprintf(R->cls,sizeof(R->cls),"died"); snprintf(R->msg,sizeof(R->msg),"simulated process ended without a verdict, status 0x%x",st);
	R->state = 2; R->step = -1;
    }
}

static double now() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + t.tv_nsec*1e-9; }

// batch PROP BASESEED FIRST N STRIDE MAXSECONDS OUTPREFIX
static int cmd_batch(int argc, char** argv)
{
    if (argc < 9) return 2;
    const char* prop = argv[2];
    uint64_t base = strtoull(argv[3],0,0), first = strtoull(argv[4],0,0), n = strtoull(argv[5],0,0), stride = strtoull(argv[6],0,0);
    double maxs = atof(argv[7]);
    char path [512];
    snprintf(path,sizeof(path),"%s.sig",argv[8]); FILE* sigf = fopen(path,"wb"); if (!sigf) return 2;
    snprintf(path,sizeof(path),"%s.hash",argv[8]); FILE* hashf = fopen(path,"wb"); if (!hashf) return 2;
    uint64_t runs = 0, faultless = 0, nviol = 0, tot [5] = {0,0,0,0,0}, fk [F_NKINDS], fr [F_NKINDS];
    static uint64_t pr [64][64]; memset(fk,0,sizeof(fk)); memset(fr,0,sizeof(fr));
    double t0 = now();
    for (uint64_t i = first; runs < n && nviol < 12; i += stride) {
	if (maxs > 0 && (runs & 15) == 0 && now() - t0 > maxs) break;
	uint64_t seed = base + i;
	Plan p; gen_plan(prop,seed,p);
	run_forked(p,false);
	++runs;
	bool any = false;
	tot[0] += R->nsteps; tot[1] += R->nsys; tot[2] += R->nalloc; tot[3] += R->simns;
	for (int k = 0; k < F_NKINDS; ++k) { fk[k] += R->fired[k]; fr[k] += R->fired[k] != 0; any |= R->fired[k] != 0; }
	faultless += !any;
	int si = 0; for (; si < g_nscn; ++si) if (g_scn[si] == p.scn) break;
	for (int k = 0; k < p.scn->nprobes; ++k) pr[si][k] += R->probes[k];
	fwrite(&R->sig,8,1,sigf);
	uint64_t hr [2] = { seed, R->hash }; fwrite(hr,16,1,hashf);
	if (R->state == 2) { ++nviol; printf("V %llu %s %s\n",(unsigned long long)seed,R->cls,R->msg); }
    }
    printf("STAT runs %llu faultless %llu steps %llu syscalls %llu allocs %llu simns %llu violations %llu secs %.3f\n",
	(unsigned long long)runs,(unsigned long long)faultless,(unsigned long long)tot[0],(unsigned long long)tot[1],(unsigned long long)tot[2],(unsigned long long)tot[3],(unsigned long long)nviol,now()-t0);
    for (int k = 0; k < F_NKINDS; ++k) if (fk[k]) printf("FAULT %s %llu %llu\n",g_faultNames[k],(unsigned long long)fk[k],(unsigned long long)fr[k]);
    for (int i = 0; i < g_nscn; ++i) if (hasword(g_scn[i]->props,prop)) for (int k = 0; k < g_scn[i]->nprobes; ++k) printf("PROBE %s.%s %llu\n",g_scn[i]->name,g_scn[i]->probes[k],(unsigned long long)pr[i][k]);
    fclose(sigf); fclose(hashf);
    return 0;
}
// hashes PROP BASESEED FIRST N STRIDE : seed hash
static int cmd_hashes(int argc, char** argv)
{
    if (argc < 7) return 2;
    uint64_t base = strtoull(argv[3],0,0), first = strtoull(argv[4],0,0), n = strtoull(argv[5],0,0), stride = strtoull(argv[6],0,0);
    for (uint64_t k = 0, i = first; k < n; ++k, i += stride) {
	Plan p; gen_plan(argv[2],base+i,p); run_forked(p,false);
	printf("H %llu %llu\n",(unsigned long long)(base+i),(unsigned long long)R->hash);
    }
    return 0;
}
static void print_result()
{
    if (R->state == 1) printf("RESULT OK %016llx\n",(unsigned long long)R->hash);
    else printf("RESULT VIOL %016llx %s %s\n",(unsigned long long)R->hash,R->cls,R->msg);
}
static int driver(int argc, char** argv)
{
    // a fixed address space layout keeps even wild reads repeatable
    if (!getenv("SIM_NOASLR")) {
	setenv("SIM_NOASLR","1",1);
	if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe",argv);
    }
    void* a = __real_mmap(ARENA,ARENA_PAGES*PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if (a != ARENA) { perror("arena"); return 2; }
    R = (Result*)__real_mmap(0,sizeof(Result),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (R == MAP_FAILED) return 2;
    const char* c = argc > 1 ? argv[1] : "";
    if (!strcmp(c,"batch")) return cmd_batch(argc,argv);
    if (!strcmp(c,"hashes")) return cmd_hashes(argc,argv);
    if (!strcmp(c,"plan") && argc >= 4) { Plan p; gen_plan(argv[2],strtoull(argv[3],0,0),p); print_plan(stdout,p); return 0; }
    if (!strcmp(c,"exec") && argc >= 3) {
	FILE* f = fopen(argv[2],"r"); if (!f) { perror(argv[2]); return 2; }
	Plan p; if (!read_plan(f,p)) { fprintf(stderr,"bad plan\n"); return 2; }
	fclose(f);
	run_forked(p, argc > 3 && !strcmp(argv[3],"-v")); print_result(); return 0;
    }
    if (!strcmp(c,"execmany")) {	// plans on stdin, one result line each
	for (;;) { Plan p; int ch = fgetc(stdin); if (ch == EOF) return 0; ungetc(ch,stdin); if (!read_plan(stdin,p)) { printf("RESULT BAD\n"); fflush(stdout); return 2; } run_forked(p,false); print_result(); fflush(stdout); }
    }
    if (!strcmp(c,"inproc") && argc >= 3) {	// for debugging: run without forking
	FILE* f = fopen(argv[2],"r"); static Plan p; if (!f || !read_plan(f,p)) return 2; sim.verbose = true; run_child(p);
    }
    if (!strcmp(c,"list")) { for (int i = 0; i < g_nscn; ++i) printf("%s: %s\n",g_scn[i]->name,g_scn[i]->props); return 0; }
    fprintf(stderr,"usage: batch|hashes|plan|exec|execmany|list\n");
    return 2;
}
// The library's static streams must not be destroyed here: no kernel is being simulated.
int main(int argc, char** argv) { int rv = driver(argc,argv); fflush(stdout); syscall(SYS_exit_group,rv); }
