// T03: atomic_flag as a lock, a try-lock, a once flag and a signal.
#include "thr.h"
#include "common.h"
using namespace ustl;

namespace {
#define OPLIST(X) X(lock) X(trylock) X(claim) X(claim_all) X(rearm) X(post) X(poll)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_THREADS, C_RATE, C_BRATE, C_STALE, C_FOCUS, C_SET, N_CFG };
const char* const CFG [N_CFG] = { "threads", "preempt_permille", "switch_permille", "stale_permille", "focus", "flags_set_at_the_start" };
enum { P_CONTENDED, P_TRYFAIL, P_TRYOK, P_LOST, P_WON, P_HANDOVER, P_TAKEN, P_EMPTY, N_PROBES };
const char* const PROBES [N_PROBES] = { "lock_was_taken", "trylock_failed", "trylock_succeeded", "claim_lost", "claim_won", "holder_changed", "signal_received", "signal_not_yet" };
enum { NL = 2, NCLAIM = 24, NBOX = 4 };
struct Lock { atomic_flag f; int counter; int last; char text [24]; int* heap; };
Lock* g_l; int g_holder [NL], g_count [NL], g_lastholder [NL], g_len [NL];
atomic_flag* g_c; int g_winner [NCLAIM];
// A slot handed over: the flag is set while the slot is free to be written by the consumer's leave
struct Box { atomic_flag empty; int data; };
Box* g_b;
int g_boxdata [NBOX]; bool g_boxfull [NBOX]; bool g_boxwriter [NBOX];

void gen(Rng& r, Plan& p, bool faults)
{
    const int n = 2 + (int)r.below(3);
    p.cfg[C_THREADS] = n;
    const bool explicitly = r.chance(300);
    p.cfg[C_RATE] = explicitly ? 0 : (int)(r.chance(500) ? 50 + r.below(400) : 5 + r.below(50));
    p.cfg[C_BRATE] = explicitly ? 0 : (int)r.below(700);
    p.cfg[C_STALE] = faults ? (int)r.below(500) : 0;
    const int f = (int)(p.cfg[C_FOCUS] = r.below(4));
    p.cfg[C_SET] = r.below(2);
    const int steps = 2 + (int)r.below(24);
    for (int i = 0; i < steps; ++i) {
	int op = f == 0 ? (int)r.below(N_OPS) : f == 1 ? (r.chance(700) ? OP_lock : OP_trylock) : f == 2 ? (r.chance(600) ? OP_claim : r.chance(500) ? OP_claim_all : OP_rearm) : r.chance(500) ? OP_post : OP_poll;
	Step& st = p.add(op,r.below(n),f == 2 ? r.below(4) : r.below(NCLAIM),r.below(8),r.below(3),r.below(1000));
	st.na = 8; st.a[6] = 0; st.a[7] = (int64_t)(r.next()>>40);
	const int np = explicitly ? (int)r.below(4) : 0;
	for (int k = 0; k < np; ++k) addfault(st,F_PREEMPT,(int)r.skewed(20),1,(int64_t)r.below(32));
    }
}
bool tas(atomic_flag& f, int how) { return how % 3 == 0 ? f.test_and_set() : how % 3 == 1 ? f.test_and_set(memory_order_acquire) : f.test_and_set(memory_order_acq_rel); }
void clr(atomic_flag& f, int how) { if (how / 3 % 2) f.clear (memory_order_release); else f.clear(); }
void critical(int k, int tid, int how)
{
    Lock& l = g_l[k];
    { HxScope hx; if (g_holder[k] >= 0) sim_fail("T03","two-holders","threads %d and %d hold lock %d at once",g_holder[k],tid,k); g_holder[k] = tid; if (g_lastholder[k] != tid) probe(P_HANDOVER); g_lastholder[k] = tid; }
    // plain data, touched only by the holder
    int c = l.counter; l.last = tid;
    for (int i = 0; i < 3; ++i) l.text[c % 20 + i] = (char)('a' + tid);
    free (l.heap); l.heap = (int*) malloc (sizeof(int)); if (l.heap) *l.heap = c;
    l.counter = c+1;
    { HxScope hx; if (c != g_count[k]) sim_fail("T03","lost-write","the counter is %d after %d increments",c,g_count[k]); ++g_count[k]; g_holder[k] = -1; }
    (void) how;
}
void dostep(int tid, int si)
{
    const Step& st = sim.plan->steps[si];
    const int k = (uint64_t)st.a[1] % NL, how = (int)((uint64_t)st.a[2] % 6);
    switch (st.op) {
	case OP_lock: {
	    bool first = true; int spins = 0;
	    LIB(while (tas(g_l[k].f,how)) { HxScope hx; if (first) probe(P_CONTENDED); first = false; if (++spins > 3000) sim_fail("T03","no-progress","the lock is never released"); thr_yield(); }
		critical(k,tid,how); clr(g_l[k].f,how));
	    break; }
	case OP_trylock: {
	    bool got; LIB(got = !tas(g_l[k].f,how); if (got) { critical(k,tid,how); clr(g_l[k].f,how); });
	    probe(got ? P_TRYOK : P_TRYFAIL);
	    break; }
	case OP_claim: case OP_claim_all: {
	    const int n = st.op == OP_claim ? 1 : 4;
	    for (int i = 0; i < n; ++i) {
		const int c = (int)(((uint64_t)st.a[1] + i) % NCLAIM);
		bool was; LIB(was = st.a[3] == 0 ? g_c[c].test_and_set() : tas(g_c[c],how));
		if (!was) { if (g_winner[c] >= 0) sim_fail("T03","two-winners","threads %d and %d both found flag %d clear",g_winner[c],tid,c); g_winner[c] = tid; probe(P_WON); }
		else { if (g_winner[c] == -2) sim_fail("T03","set-by-nobody","flag %d is set although nobody set it",c); probe(P_LOST); }
	    }
	    break; }
	case OP_rearm: {	// the winner clears it again
	    const int c = (int)((uint64_t)st.a[1] % NCLAIM);
	    if (g_winner[c] != tid) break;
	    g_winner[c] = -1; LIB(clr(g_c[c],how));
	    break; }
	case OP_post: {	// first writer of the box writes and signals by clearing the flag
	    const int b = (int)((uint64_t)st.a[1] % NBOX); if (g_boxwriter[b]) break;
	    g_boxwriter[b] = true; g_boxdata[b] = si*3+1;
	    LIB(g_b[b].data = si*3+1; clr(g_b[b].empty,how));
	    break; }
	case OP_poll: {
	    const int b = (int)((uint64_t)st.a[1] % NBOX);
	    bool e; LIB(e = tas(g_b[b].empty,how));
	    if (e) { probe(P_EMPTY); break; }
	    int d; LIB(d = g_b[b].data);
	    if (!g_boxwriter[b] || d != g_boxdata[b]) sim_fail("T03","lost-write","the signal was seen but the data is %d, not %d",d,g_boxdata[b]);
	    if (g_boxfull[b]) sim_fail("T03","two-winners","one signal received twice");
	    g_boxfull[b] = true; probe(P_TAKEN);
	    break; }
    }
}
void exec(const Plan& p)
{
    LIB(g_l = (Lock*) malloc (sizeof(Lock)*NL); g_c = (atomic_flag*) malloc (sizeof(atomic_flag)*NCLAIM); g_b = (Box*) malloc (sizeof(Box)*NBOX));
    for (int k = 0; k < NL; ++k) { LIB(memset (&g_l[k],0,sizeof(Lock)); new (&g_l[k].f) atomic_flag (false)); g_holder[k] = -1; g_count[k] = 0; g_lastholder[k] = -1; }
    for (int c = 0; c < NCLAIM; ++c) { LIB(new (&g_c[c]) atomic_flag (false)); g_winner[c] = -1; }
    for (int b = 0; b < NBOX; ++b) { LIB(new (&g_b[b].empty) atomic_flag (true); g_b[b].data = 0); g_boxwriter[b] = g_boxfull[b] = false; }
    ThrConfig c = { (int)p.cfg[C_THREADS], (int)p.cfg[C_RATE], (int)p.cfg[C_BRATE], (int)p.cfg[C_STALE], 0 };
    thr_run(p,c,dostep);
    sim.step = 0; sim.stepno = (int)p.steps.size();
    for (int k = 0; k < NL; ++k) {
	if (g_l[k].counter != g_count[k]) sim_fail("T03","lost-write","the counter is %d after %d increments",g_l[k].counter,g_count[k]);
	bool s; LIB(s = g_l[k].f.test_and_set()); if (s) sim_fail("T03","stuck","the lock is still taken after every holder released it");
	LIB(s = g_l[k].f.test_and_set()); if (!s) sim_fail("T03","two-winners","test_and_set found a set flag clear");
	LIB(g_l[k].f.clear(); s = g_l[k].f.test_and_set()); if (s) sim_fail("T03","stuck","the flag is set after clear");
	LIB(free (g_l[k].heap));
    }
    for (int c = 0; c < NCLAIM; ++c) { bool s; LIB(s = g_c[c].test_and_set()); if (s != (g_winner[c] >= 0)) sim_fail("T03","stuck","flag %d is %s at the end",c,s ? "set" : "clear"); }
    LIB(free (g_l); free (g_c); free (g_b));
    arena_check_leaks("T03","at the end");
}
const Scenario S = { "flag", "T03", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg R (&S);
}
