// T02: atomic<T> in threads: linearizability, coherence, publication, sequential consistency.
#include "thr.h"
#include "common.h"
using namespace ustl;

namespace {
#define OPLIST(X) X(store) X(load) X(exchange) X(cas_weak) X(cas_weak2) X(cas_strong) X(fetch_add) X(fetch_sub) X(fetch_and) X(fetch_or) X(fetch_xor) X(add_fetch) X(sub_fetch) X(and_fetch) X(or_fetch) X(xor_fetch) \
    X(convert) X(assign) X(post_inc) X(post_dec) X(pre_inc) X(pre_dec) X(add_assign) X(sub_assign) X(and_assign) X(or_assign) X(xor_assign) X(publish) X(observe) X(sb) X(push) X(popall)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { M_LIN, M_COH, M_PUB, M_SB, M_STACK, N_MODES };
enum { C_MODE, C_THREADS, C_RATE, C_BRATE, C_STALE, C_SPUR, C_INIT, N_CFG };
const char* const CFG [N_CFG] = { "mode", "threads", "preempt_permille", "switch_permille", "stale_permille", "spurious_permille", "initial" };
enum { P_OVERLAP, P_CASOK, P_CASFAIL, P_SPUR, P_STALE, P_PUBLISHED, P_NOTYET, P_SB01, P_SB11, P_PUSHRETRY, P_POPPED, N_PROBES };
const char* const PROBES [N_PROBES] = { "operations_overlapped", "cas_succeeded", "cas_failed", "cas_failed_spuriously", "stale_value_read", "published_data_seen", "not_yet_published", "store_buffering_one_saw", "store_buffering_both_saw", "push_retried", "popped" };
enum { NV = 5, NPUB = 32, NSB = 16, NPUBV = 19, NOBSV = 19 };

struct Vars { atomic<uint8_t> a8; atomic<int16_t> a16; atomic<uint32_t> a32; atomic<int64_t> a64; atomic<unsigned> ai; };
Vars* g_v;
const int g_bits [NV] = { 8, 16, 32, 64, 32 };
uint64_t maskv(int v, uint64_t x) { return g_bits[v] == 64 ? x : x & ((1ull<<g_bits[v])-1); }

struct Rec { int tid, op, var; uint64_t a, b, res, exp; bool ok; uint64_t inv, ret; };
Vec<Rec> g_h;

// The sequential meaning.  Returns false if op with its result cannot happen in state s.
bool apply(const Rec& r, uint64_t& s)
{
    const int v = r.var; uint64_t o = s, n = s, res = 0; const uint64_t a = maskv(v,r.a);
    switch (r.op) {
	case OP_store: s = a; return true;
	case OP_load: case OP_convert: return r.res == o;
	case OP_assign: s = a; return r.res == a;
	case OP_exchange: n = a; res = o; break;
	case OP_cas_weak: case OP_cas_weak2: case OP_cas_strong:
	    if (r.ok) { if (o != a || r.exp != a) return false; s = maskv(v,r.b); return true; }
	    if (r.exp != o) return false;
	    return o != a || r.op != OP_cas_strong;
	case OP_fetch_add: n = o+a; res = o; break;
	case OP_fetch_sub: n = o-a; res = o; break;
	case OP_fetch_and: n = o&a; res = o; break;
	case OP_fetch_or: n = o|a; res = o; break;
	case OP_fetch_xor: n = o^a; res = o; break;
	case OP_add_fetch: case OP_add_assign: res = n = o+a; break;
	case OP_sub_fetch: case OP_sub_assign: res = n = o-a; break;
	case OP_and_fetch: case OP_and_assign: res = n = o&a; break;
	case OP_or_fetch: case OP_or_assign: res = n = o|a; break;
	case OP_xor_fetch: case OP_xor_assign: res = n = o^a; break;
	case OP_post_inc: n = o+1; res = o; break;
	case OP_post_dec: n = o-1; res = o; break;
	case OP_pre_inc: res = n = o+1; break;
	case OP_pre_dec: res = n = o-1; break;
    }
    s = maskv(v,n);
    return maskv(v,res) == r.res;
}
const memory_order g_ld [] = { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_seq_cst };
const memory_order g_st [] = { memory_order_relaxed, memory_order_release, memory_order_seq_cst };
const memory_order g_rm [] = { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_release, memory_order_acq_rel, memory_order_seq_cst };
const memory_order g_weakest [] = { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_relaxed, memory_order_acquire, memory_order_seq_cst };	// failure order for a success order

template <typename T> void run_op(atomic<T>& v, Rec& r, bool def, unsigned o)
{
    const T a = (T)r.a, b = (T)r.b; T e = a, res = T();
    const memory_order L = g_ld[o%4], S = g_st[o%3], R = g_rm[o%6];
    r.ok = false;
    LIB(switch (r.op) {
	case OP_store: if (def) v.store(a); else v.store(a,S); break;
	case OP_load: res = def ? v.load() : v.load(L); break;
	case OP_exchange: res = def ? v.exchange(a) : v.exchange(a,R); break;
	case OP_cas_weak: r.ok = def ? v.compare_exchange_weak(e,b) : v.compare_exchange_weak(e,b,g_ld[o%4]); break;
	case OP_cas_weak2: r.ok = v.compare_exchange_weak(e,b,def ? memory_order_seq_cst : R,def ? memory_order_seq_cst : g_weakest[o%6]); break;
	case OP_cas_strong: r.ok = v.compare_exchange_strong(e,b,def ? memory_order_seq_cst : R,def ? memory_order_seq_cst : g_weakest[o%6]); break;
#define FO(n) case OP_##n: res = def ? v.n(a) : v.n(a,R); break;
	FO(fetch_add) FO(fetch_sub) FO(fetch_and) FO(fetch_or) FO(fetch_xor) FO(add_fetch) FO(sub_fetch) FO(and_fetch) FO(or_fetch) FO(xor_fetch)
	case OP_convert: res = v; break;
	case OP_assign: res = (v = a); break;
	case OP_post_inc: res = v++; break;
	case OP_post_dec: res = v--; break;
	case OP_pre_inc: res = ++v; break;
	case OP_pre_dec: res = --v; break;
	case OP_add_assign: res = (v += a); break;
	case OP_sub_assign: res = (v -= a); break;
	case OP_and_assign: res = (v &= a); break;
	case OP_or_assign: res = (v |= a); break;
	case OP_xor_assign: res = (v ^= a); break;
    });
    r.res = maskv(r.var,(uint64_t)res); r.exp = maskv(r.var,(uint64_t)e);
}

// publication
struct Pub { int data [2]; atomic<int> flag; };
Pub* g_pub; bool g_written [NPUB];
// store buffering
struct Sb { atomic<int> x, y; };
Sb* g_sb; int g_sbr [NSB][2];
// lock free stack
struct Node { int v; Node* next; };
atomic<Node*>* g_top; int g_pushed [64], g_popped [64], g_nnode;

void gen(Rng& r, Plan& p, bool faults)
{
    const int mode = (int)(p.cfg[C_MODE] = r.below(N_MODES)), n = 2 + (int)r.below(3);
    p.cfg[C_THREADS] = n;
    const bool explicitly = r.chance(300);
    p.cfg[C_RATE] = explicitly ? 0 : (int)(100 + r.below(500));
    p.cfg[C_BRATE] = explicitly ? 0 : (int)r.below(700);
    p.cfg[C_STALE] = faults ? (int)r.below(700) : 0;
    p.cfg[C_SPUR] = faults ? (int)r.below(500) : 0;
    p.cfg[C_INIT] = (int64_t)(r.chance(500) ? 0 : r.next());
    const int steps = 2 + (int)r.below(mode == M_LIN || mode == M_COH ? 18 : 30), vars = 1 + (int)r.below(3), v0 = (int)r.below(NV), few = (int)r.below(4);
    for (int i = 0; i < steps; ++i) {
	int op = (int)r.below(OP_publish);
	if (few == 1) { static const int some [] = { OP_load, OP_store, OP_convert, OP_assign, OP_exchange, OP_cas_strong }; op = some[r.below(6)]; }
	if (mode == M_PUB) op = r.chance(500) ? OP_publish : OP_observe;
	if (mode == M_SB) op = OP_sb;
	if (mode == M_STACK) op = r.chance(700) ? OP_push : OP_popall;
	const int64_t a = r.chance(600) ? (int64_t)r.below(4) : (int64_t)r.next()>>r.below(60), b = r.chance(600) ? (int64_t)r.below(4) : (int64_t)r.next()>>r.below(60);
	Step& st = p.add(op,mode == M_SB ? i/2%2 : r.below(n),mode == M_SB ? i%NSB : mode == M_PUB ? r.below(6) : (v0 + r.below(vars)) % NV,a,b,r.below(1000));
	if (mode == M_SB) st.a[0] = i%2, st.a[1] = i/2%NSB;
	st.na = 8; st.a[6] = 0; st.a[7] = (int64_t)(r.next()>>40);
	const int np = explicitly ? (int)r.below(3) : 0;
	for (int k = 0; k < np; ++k) addfault(st,F_PREEMPT,(int)r.below(4),1,(int64_t)r.below(32));
	if (explicitly && faults && r.chance(300)) addfault(st,r.chance(700) ? F_STALE : F_SPUR,(int)r.below(3),1,0);
    }
}
// Ways to set the flag so that whoever sees it also sees the data
void publish(Pub& u, int how)
{
    atomic<int>& f = u.flag; int e = 0;
    LIB(switch (how) {
	case 0: f.store(1); break;
	case 1: f.store(1,memory_order_release); break;
	case 2: f = 1; break;
	case 3: f.exchange(1); break;
	case 4: f.exchange(1,memory_order_release); break;
	case 5: f.fetch_add(1); break;
	case 6: f.fetch_or(1); break;
	case 7: f.fetch_xor(1); break;
	case 8: ++f; break;
	case 9: f++; break;
	case 10: f += 1; break;
	case 11: f |= 1; break;
	case 12: f ^= 1; break;
	case 13: f.add_fetch(1); break;
	case 14: f.compare_exchange_strong(e,1,memory_order_release,memory_order_relaxed); break;
	case 15: while (!f.compare_exchange_weak(e,1)) { e = 0; } break;
	case 16: ustl::atomic_thread_fence(memory_order_release); f.store(1,memory_order_relaxed); break;
	case 17: ustl::atomic_thread_fence(memory_order_seq_cst); f.store(1,memory_order_relaxed); break;
	case 18: f.fetch_sub(-1); break;
    });
}
int observe(Pub& u, int how)
{
    atomic<int>& f = u.flag; int e = 1, r = 0;
    LIB(switch (how) {
	case 0: r = f.load(); break;
	case 1: r = f.load(memory_order_acquire); break;
	case 2: r = ustl::kill_dependency(f.load(memory_order_consume)); break;
	case 3: r = f; break;
	case 4: r = f.fetch_add(0); break;
	case 5: r = f.fetch_or(0,memory_order_acquire); break;
	case 6: r = f.fetch_and(-1); break;
	case 7: r = (f |= 0); break;
	case 8: r = (f += 0); break;
	case 9: r = (f &= -1); break;
	case 10: r = (f ^= 0); break;
	case 11: r = (f -= 0); break;
	case 12: r = f.compare_exchange_strong(e,1,memory_order_acquire,memory_order_acquire); break;
	case 13: r = f.compare_exchange_weak(e,1); break;
	case 14: r = f.load(memory_order_relaxed); ustl::atomic_thread_fence(memory_order_acquire); break;
	case 15: r = f.load(memory_order_relaxed); ustl::atomic_thread_fence(memory_order_seq_cst); break;
	case 16: r = f.fetch_xor(0); break;
	case 17: r = f.fetch_sub(0); break;
	case 18: r = f.sub_fetch(0) | f.and_fetch(-1) | f.or_fetch(0) | f.xor_fetch(0) | f.add_fetch(0); break;
    });
    return r;
}
bool g_def; uint64_t g_lastseen [NV];	// a value one of the threads has seen lately
void dostep(int tid, int si)
{
    const Step& st = sim.plan->steps[si];
    const unsigned o = (unsigned)st.a[4];
    const uint64_t stales = g_stales;
    switch (st.op) {
	default: {
	    Rec r; memset(&r,0,sizeof(r)); r.tid = tid; r.op = st.op; r.var = (int)((uint64_t)st.a[1] % NV); r.a = maskv(r.var,st.a[2]); r.b = maskv(r.var,st.a[3]);
	    if ((o & 8) && (r.op == OP_cas_weak || r.op == OP_cas_weak2 || r.op == OP_cas_strong)) r.a = g_lastseen[r.var];
	    r.inv = thr_now();
	    switch (r.var) { case 0: run_op(g_v->a8,r,g_def,o); break; case 1: run_op(g_v->a16,r,g_def,o); break; case 2: run_op(g_v->a32,r,g_def,o); break; case 3: run_op(g_v->a64,r,g_def,o); break; case 4: run_op(g_v->ai,r,g_def,o); break; }
	    r.ret = thr_now();
	    if (r.op == OP_cas_weak || r.op == OP_cas_weak2 || r.op == OP_cas_strong) probe(r.ok ? P_CASOK : r.exp == r.a ? P_SPUR : P_CASFAIL);
	    if (r.ret != r.inv+1) probe(P_OVERLAP);
	    if (sim.verbose) sim_log("   var %d result %llx expected %llx ok %d",r.var,(unsigned long long)r.res,(unsigned long long)r.exp,r.ok);
	    g_h.push(r);
	    g_lastseen[r.var] = r.op == OP_store ? r.a : r.op >= OP_cas_weak && r.op <= OP_cas_strong ? (r.ok ? r.b : r.exp) : r.res;
	    break; }
	case OP_publish: {
	    const int k = (uint64_t)st.a[1] % NPUB; if (g_written[k]) break;
	    g_written[k] = true;
	    Pub& u = g_pub[k];
	    LIB(u.data[0] = si+1; u.data[1] = -si);
	    publish(u,o % NPUBV);
	    break; }
	case OP_observe: {
	    Pub& u = g_pub[(uint64_t)st.a[1] % NPUB];
	    if (observe(u,o % NOBSV)) {
		int d0, d1; LIB(d0 = u.data[0]; d1 = u.data[1]);
		if (!d0 || d1 != 1-d0) sim_fail("T02","unpublished-data","flag seen but the data written before it is %d and %d",d0,d1);
		probe(P_PUBLISHED);
	    } else probe(P_NOTYET);
	    break; }
	case OP_sb: {
	    if (tid > 1) break;
	    const int k = (uint64_t)st.a[1] % NSB; if (g_sbr[k][tid] >= 0) break;
	    atomic<int>& mine = tid ? g_sb[k].y : g_sb[k].x; atomic<int>& his = tid ? g_sb[k].x : g_sb[k].y;
	    int r = 0, e;
	    // either default order throughout, or relaxed with fences on both sides
	    const int w = k & 1 ? 7 : (uint64_t)st.a[2] % 7, q = (uint64_t)st.a[3] % 7;
	    LIB(switch (w) {
		case 0: case 1: mine.store(1); break;
		case 2: mine = 1; break;
		case 3: mine.exchange(1); break;
		case 4: ++mine; break;
		case 5: mine |= 1; break;
		case 6: e = 0; mine.compare_exchange_strong(e,1,memory_order_seq_cst,memory_order_seq_cst); break;
		case 7: mine.store(1,memory_order_relaxed); ustl::atomic_thread_fence(memory_order_seq_cst); break;
	    }
	    switch (w == 7 ? 7 : q) {
		case 0: case 1: case 2: r = his.load(); break;
		case 3: r = his; break;
		case 4: r = his.fetch_add(0); break;
		case 5: r = his.fetch_or(0); break;
		case 6: r = (his += 0); break;
		case 7: r = his.load(memory_order_relaxed); break;
	    });
	    g_sbr[k][tid] = r;
	    if (g_sbr[k][!tid] >= 0) { probe(g_sbr[k][0] && g_sbr[k][1] ? P_SB11 : P_SB01); if (!g_sbr[k][0] && !g_sbr[k][1]) sim_fail("T02","not-sequentially-consistent","each thread stored its flag and then read the other's as not set"); }
	    break; }
	case OP_push: {
	    if (g_nnode >= 64) break;
	    const int id = g_nnode++; Node* nd = 0; int tries = 0;
	    LIB(nd = (Node*) malloc (sizeof(Node)));
	    if (!nd) break;
	    LIB(nd->v = id; nd->next = g_top->load(o & 1 ? memory_order_relaxed : memory_order_seq_cst);
		while (o & 2 ? !g_top->compare_exchange_weak(nd->next,nd) : !g_top->compare_exchange_weak(nd->next,nd,memory_order_release,memory_order_relaxed)) { HxScope hx; if (++tries > 200) sim_fail("T02","no-progress","compare_exchange_weak fails forever"); });
	    if (tries) probe(P_PUSHRETRY);
	    g_pushed[id] = 1;
	    break; }
	case OP_popall: {
	    Node* nd = 0; LIB(nd = o & 1 ? g_top->exchange(0) : g_top->exchange(0,memory_order_acquire));
	    while (nd) {
		int v; Node* nx; LIB(v = nd->v; nx = nd->next; free (nd));
		if (v < 0 || v >= g_nnode || g_popped[v]++) sim_fail("T02","taken-twice","node %d taken from the stack again",v);
		probe(P_POPPED); nd = nx;
	    }
	    break; }
    }
    if (g_stales != stales) probe(P_STALE);
}

// Is there an order of the operations that explains every result?
struct Key { uint16_t pos [MAXTHR]; uint64_t s [NV]; };
Vec<Key> g_memo; Vec<int> g_hashv;
bool memo_add(const Key& k)
{
    uint64_t h = 1; const uint8_t* b = (const uint8_t*)&k; for (size_t i = 0; i < sizeof(k); ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    const size_t M = g_hashv.size();
    size_t i = (h ^ h>>29) & (M-1);
    for (; g_hashv[i]; i = (i+1) & (M-1)) if (!memcmp(&g_memo[g_hashv[i]-1],&k,sizeof(k))) return false;
    if (g_memo.size() > M/2) { sim_fail("","hang","linearizability search too large"); return false; }
    g_memo.push(k); g_hashv[i] = (int)g_memo.size();
    return true;
}
struct ThrOps { Vec<Rec> r; };
ThrOps g_t [MAXTHR];
const uint64_t* g_fin;
bool search(Key k, bool realtime, int onlyvar)
{
    bool done = true; uint64_t minret = ~0ull;
    for (int t = 0; t < MAXTHR; ++t) if (k.pos[t] < g_t[t].r.size()) { done = false; minret = hmin(minret,g_t[t].r[k.pos[t]].ret); }
    if (done) return onlyvar < 0 || k.s[onlyvar] == g_fin[onlyvar];
    if (!memo_add(k)) return false;
    for (int t = 0; t < MAXTHR; ++t) if (k.pos[t] < g_t[t].r.size()) {
	const Rec& r = g_t[t].r[k.pos[t]];
	if (realtime && r.inv > minret) continue;
	Key n = k; ++n.pos[t];
	if (apply(r,n.s[r.var]) && search(n,realtime,onlyvar)) return true;
    }
    return false;
}
void history(bool realtime, int onlyvar, const uint64_t* init)
{
    for (int t = 0; t < MAXTHR; ++t) g_t[t].r.clear();
    for (size_t i = 0; i < g_h.size(); ++i) if (onlyvar < 0 || g_h[i].var == onlyvar) g_t[g_h[i].tid].r.push(g_h[i]);
    g_memo.clear(); g_hashv.clear(); g_hashv.resize(1<<17);
    Key k; memset(&k,0,sizeof(k)); for (int v = 0; v < NV; ++v) k.s[v] = init[v];
    if (!search(k,realtime,onlyvar)) sim_fail("T02",realtime ? "not-linearizable" : "not-coherent",realtime ? "no order of the operations in which each takes effect during its call explains their results" : "no order of the operations on variable %d explains their results",onlyvar);
}
void exec(const Plan& p)
{
    g_h.clear(); memset(g_written,0,sizeof(g_written)); memset(g_sbr,-1,sizeof(g_sbr)); memset(g_pushed,0,sizeof(g_pushed)); memset(g_popped,0,sizeof(g_popped)); g_nnode = 0;
    const int mode = (int)p.cfg[C_MODE];
    const uint64_t i0 = (uint64_t)p.cfg[C_INIT];
    uint64_t init [NV]; for (int v = 0; v < NV; ++v) init[v] = maskv(v,i0>>v);
    for (int v = 0; v < NV; ++v) g_lastseen[v] = init[v];
    g_def = mode == M_LIN;
    LIB(g_v = (Vars*) malloc (sizeof(Vars)); new (&g_v->a8) atomic<uint8_t> ((uint8_t)init[0]); new (&g_v->a16) atomic<int16_t> ((int16_t)init[1]); new (&g_v->a32) atomic<uint32_t> ((uint32_t)init[2]); new (&g_v->a64) atomic<int64_t> ((int64_t)init[3]); new (&g_v->ai) atomic<unsigned> ((unsigned)init[4]);
	g_pub = (Pub*) malloc (sizeof(Pub)*NPUB); g_sb = (Sb*) malloc (sizeof(Sb)*NSB); g_top = (atomic<Node*>*) malloc (sizeof(atomic<Node*>)));
    for (int k = 0; k < NPUB; ++k) LIB(g_pub[k].data[0] = g_pub[k].data[1] = 0; new (&g_pub[k].flag) atomic<int> (0));
    for (int k = 0; k < NSB; ++k) LIB(new (&g_sb[k].x) atomic<int> (0); new (&g_sb[k].y) atomic<int> (0));
    LIB(new (g_top) atomic<Node*> (0));
    ThrConfig c = { (int)p.cfg[C_THREADS], (int)p.cfg[C_RATE], (int)p.cfg[C_BRATE], (int)p.cfg[C_STALE], (int)p.cfg[C_SPUR] };
    thr_run(p,c,dostep);
    sim.step = 0; sim.stepno = (int)p.steps.size();
    if (g_h.size()) {
	// a final look by the joining thread belongs to the history
	uint64_t fin [NV]; LIB(fin[0] = g_v->a8.load(); fin[1] = g_v->a16.load(); fin[2] = g_v->a32.load(); fin[3] = g_v->a64.load(); fin[4] = g_v->ai.load());
	for (int v = 0; v < NV; ++v) fin[v] = maskv(v,fin[v]);
	g_fin = fin;
	if (mode == M_LIN) {
	    for (int v = 0; v < NV; ++v) { Rec r; memset(&r,0,sizeof(r)); r.tid = 0; r.op = OP_load; r.var = v; r.res = maskv(v,fin[v]); r.inv = thr_now(); r.ret = thr_now(); g_h.push(r); }
	    history(true,-1,init);
	} else for (int v = 0; v < NV; ++v) history(false,v,init);
    }
    if (mode == M_STACK) {
	Node* nd = 0; LIB(nd = g_top->exchange(0));
	while (nd) { int v = nd->v; Node* nx; LIB(nx = nd->next; free (nd)); nd = nx; if (v < 0 || v >= g_nnode || g_popped[v]++) sim_fail("T02","taken-twice","node %d taken from the stack again",v); }
	for (int i = 0; i < g_nnode; ++i) if (g_pushed[i] && !g_popped[i]) sim_fail("T02","lost-update","node %d was pushed but is not in the stack",i);
    }
    LIB(free (g_v); free (g_pub); free (g_sb); free (g_top));
    arena_check_leaks("T02","at the end");
}
const Scenario S = { "atom", "T02", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg R (&S);
}
