// T01: threads sharing objects through their own shared_ptrs.
#include "thr.h"
#include "common.h"
using namespace ustl;

namespace {
enum { NT = MAXTHR, NSLOT = 3, NMB = 3, NSRC = 2, MAXOBJ = 400 };
enum { P_SWITCHED, P_HANDOFF, P_SHARED3, P_ALLOC, P_CASCADE, P_FOREIGN, N_PROBES };
struct Obj;
struct Info { bool live; int destroyed; uint32_t cell [NT]; int next /* id+1 */, inner /* objects that ever owned it */, maker; };
Info g_o [MAXOBJ]; int g_nobj;
struct Loc { int id; };		// what a pointer surely holds, -1: nothing or changing
Loc g_slot [NT][NSLOT], g_mb [NMB], g_srcm [NSRC];
int g_busy [NT][3];		// objects the thread's current operation may touch
enum { ND = 1 };

int sure(int id)
{
    int n = 0;
    for (int t = 0; t < NT; ++t) for (int s = 0; s < NSLOT; ++s) n += g_slot[t][s].id == id;
    for (int k = 0; k < NMB; ++k) n += g_mb[k].id == id;
    for (int k = 0; k < NSRC; ++k) n += g_srcm[k].id == id;
    return n;
}
struct Obj {
    int id; uint32_t magic; uint32_t cell [NT]; shared_ptr<Obj> next; void* mem;
    explicit Obj (int i) : id (i), magic (0x5EED0000u+i), next(), mem (malloc (3)) {
	for (int t = 0; t < NT; ++t) cell[t] = 0;
	if (!mem) throw ustl::bad_alloc (3);
	HxScope hx; g_o[i].live = true; g_o[i].maker = thr_self(); g_o[i].destroyed = 0; memset(g_o[i].cell,0,sizeof(g_o[i].cell));
    }
    ~Obj() {
	uint32_t c [NT]; for (int t = 0; t < NT; ++t) c[t] = cell[t];
	const int i = id; const uint32_t m = magic;
	{ HxScope hx;
	  if (i < 0 || i >= MAXOBJ || m != 0x5EED0000u+(uint32_t)i) { sim_fail("T01","destroyed-garbage","the destructor ran on something that is no object"); return; }
	  if (g_o[i].destroyed++) sim_fail("T01","double-destroy","object %d destroyed again",i);
	  if (int n = sure(i)) sim_fail("T01","destroyed-while-owned","object %d destroyed while %d pointer(s) own it",i,n);
	  for (int t = 0; t < NT; ++t) if (c[t] != g_o[i].cell[t]) sim_fail("T01","lost-write","the destructor of object %d sees %u in the cell of thread %d, last written %u",i,c[t],t,g_o[i].cell[t]);
	  if (g_o[i].maker != thr_self() && thr_self() >= 0) probe(P_FOREIGN);
	  g_o[i].live = false; }
	free (mem); mem = 0; magic = 0xDEAD;
    }
    Obj(const Obj&) = delete; void operator=(const Obj&) = delete;
};
template <typename T> struct Raw { char mem [sizeof(T)] __attribute__((aligned(16))); T& operator*() { return *(T*)mem; } T* operator->() { return (T*)mem; } };
typedef shared_ptr<Obj> sp_t;
Raw<sp_t> sp [NT][NSLOT], mb [NMB], src [NSRC];
bool mbfull [NMB], mbbusy [NMB]; ThrSync mbsync [NMB];

#define OPLIST(X) X(make) X(new_) X(reset_new) X(assign_raw) X(make_next) X(copy) X(copy_ctor) X(move) X(move_ctor) X(swap) X(reset) X(dtor) X(take_src) X(copy_src) X(read_src) X(put) X(put_copy) X(take) X(touch) X(count) X(compare) X(vec)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_THREADS, C_RATE, C_BRATE, C_SHARE, N_CFG };
const char* const CFG [N_CFG] = { "threads", "preempt_permille", "switch_permille", "slots_shared_at_the_start" };
const char* const PROBES [N_PROBES] = { "operation_preempted", "handed_to_another_thread", "three_owners", "allocation_failed", "cascade", "destroyed_by_a_thread_that_did_not_make_it" };

void gen(Rng& r, Plan& p, bool faults)
{
    const int n = 2 + (int)r.below(3);
    p.cfg[C_THREADS] = n;
    const bool explicitly = r.chance(400);
    p.cfg[C_RATE] = explicitly ? 0 : (int)(r.chance(500) ? 100 + r.below(300) : 5 + r.below(60));
    p.cfg[C_BRATE] = explicitly ? 0 : (int)r.below(500);
    p.cfg[C_SHARE] = (int)r.below(NSLOT+1);
    const int steps = 3 + (int)r.below(r.chance(500) ? 12 : 40), f = (int)r.below(4);
    for (int i = 0; i < steps; ++i) {
	int op = (int)r.below(N_OPS);
	if (i < n*2 && p.cfg[C_SHARE] < 2 && r.chance(600)) op = r.chance(700) ? OP_make : OP_copy_src;
	else if (f == 1 && r.chance(600)) { static const int some [] = { OP_put, OP_put_copy, OP_take, OP_reset, OP_touch, OP_make }; op = some[r.below(6)]; }
	else if (f == 2 && r.chance(600)) { static const int some [] = { OP_copy_src, OP_take_src, OP_reset, OP_copy, OP_move, OP_dtor }; op = some[r.below(6)]; }
	else if (f == 3 && r.chance(600)) { static const int some [] = { OP_reset, OP_dtor, OP_copy, OP_move, OP_reset_new, OP_make }; op = some[r.below(6)]; }
	Step& st = p.add(op,r.below(n),r.below(NSLOT),r.below(NSLOT),r.below(6),r.below(1000));
	st.na = 8; st.a[6] = 0; st.a[7] = (int64_t)(r.next()>>40);
	const int np = explicitly ? (int)r.below(3) : 0;
	for (int k = 0; k < np; ++k) addfault(st,F_PREEMPT,(int)r.skewed(40),1,(int64_t)r.below(32));
	if (faults && r.chance(100)) addfault(st,F_ALLOC,(int)r.skewed(3),1,0);
    }
}
void check_alive(int id, const char* what) { if (id >= 0 && !g_o[id].live) sim_fail("T01","dead-object","%s: object %d is gone although a pointer owns it",what,id); }
int g_holders;	// threads whose operation in progress may hold extra references to id
int extra(int id) { int n = 0; for (int t = 0; t < NT; ++t) { bool b = false; for (int k = 0; k < 3; ++k) b |= g_busy[t][k] == id; n += b ? 4 : 0; } return n; }

#define TRYP(...) do { try { LIB(__VA_ARGS__); } catch (ustl::bad_alloc&) { failed = true; } } while (false)
void dostep(int tid, int si)
{
    const Plan& p = *sim.plan; const Step& st = p.steps[si];
    const int i = (uint64_t)st.a[1] % NSLOT, j = (uint64_t)st.a[2] % NSLOT, k = (uint64_t)st.a[3] % NMB, q = (uint64_t)st.a[3] % NSRC;
    const bool odd = st.a[4] & 1;
    sp_t& a = *sp[tid][i]; sp_t& b = *sp[tid][j];
    Loc& ma = g_slot[tid][i]; Loc& mj = g_slot[tid][j];
    int* busy = g_busy[tid];
    const int ia = ma.id, ij = mj.id;
    bool failed = false;
    const uint64_t sw = g_switches;
    busy[0] = ia; busy[1] = ij; busy[2] = -1;
    auto newid = []() { HxScope hx; if (g_nobj >= MAXOBJ) sim_fail("","hang","too many objects"); return g_nobj++; };
    auto died = [](int id) { if (g_o[id].live) sim_fail("T01","leak","object %d is still alive although creating its pointer failed",id); };
    // what op does to the model: before the call, pointers that change own nothing for sure
    switch (st.op) {
	case OP_make: case OP_new_: case OP_reset_new: case OP_assign_raw: case OP_make_next: {
	    const int id = newid();
	    if (st.op == OP_make) { ma.id = -1; TRYP(a = make_shared<Obj>(id)); }
	    else {
		Obj* o = 0; TRYP(o = new Obj (id)); if (failed) break;
		if (st.op == OP_make_next && (ij < 0 || i == j)) { LIB(delete o); break; }
		ma.id = -1;
		if (st.op == OP_new_) TRYP(a = sp_t (o));
		else if (st.op == OP_reset_new) TRYP(a.reset (o));
		else if (st.op == OP_assign_raw) TRYP(a = o);
		else { LIB(o->next = b); g_o[id].next = ij+1; ++g_o[ij].inner; TRYP(a = sp_t (o)); probe(P_CASCADE); }
	    }
	    if (failed) { died(id); ma.id = ia; if (st.op != OP_new_ && st.op != OP_make) { /* reset fails before it lets go */ } if (a.get() != 0 && ia < 0) sim_fail("T01","wrong-object","a pointer whose reset failed changed"); }
	    else { ma.id = id; if (!a || a->id != id) sim_fail("T01","wrong-object","pointer does not hold the new object %d",id); }
	    break; }
	case OP_copy: if (i == j) { TRYP(a = (const sp_t&)b); break; } ma.id = -1; TRYP(a = (const sp_t&)b); ma.id = ij; break;
	case OP_copy_ctor: { ma.id = -1; TRYP({ sp_t l ((const sp_t&)b); if (odd) { ma.id = -1; a.swap (l); if (i != j) ma.id = ij; } }); ma.id = odd ? ij : ia; break; }
	case OP_move: if (i == j) break; ma.id = -1; mj.id = -1; TRYP(a = move(b)); ma.id = ij; break;
	case OP_move_ctor: { if (i == j) break; ma.id = -1; mj.id = -1; TRYP({ sp_t l (move(b)); if (odd) a.swap (l); }); if (odd) ma.id = ij; else ma.id = ia; break; }
	case OP_swap: ma.id = mj.id = -1; TRYP(a.swap (b)); if (i == j) ma.id = ia; else { ma.id = ij; mj.id = ia; } break;
	case OP_reset: ma.id = -1; TRYP(a.reset()); break;
	case OP_dtor: ma.id = -1; LIB(a.~sp_t(); new (sp[tid][i].mem) sp_t); break;
	case OP_take_src: case OP_copy_src: { busy[2] = g_srcm[q].id; ma.id = -1; if (st.op == OP_copy_src) TRYP(a = (const sp_t&)*src[q]); else TRYP(sp_t l ((const sp_t&)*src[q]); a = move(l)); ma.id = g_srcm[q].id; break; }
	case OP_read_src: { const int id = g_srcm[q].id; if (id < 0) break; size_t uc; TRYP(uc = ((const sp_t&)*src[q]).use_count()); int n = sure(id); if (uc < (size_t)n || uc > (size_t)(n+extra(id)+g_o[id].inner)) sim_fail("T01","wrong-count","use_count %llu of an object with %d owners",(unsigned long long)uc,n); int got; TRYP(got = (*src[q])->id); if (got != id) sim_fail("T01","wrong-object","the shared pointer gives object %d, not %d",got,id); break; }
	case OP_put: case OP_put_copy:
	    if (mbbusy[k] || mbfull[k] || ia < 0) break;
	    mbbusy[k] = true; thr_acquire(mbsync[k]);
	    if (st.op == OP_put) { ma.id = -1; TRYP(*mb[k] = move(a)); } else TRYP(*mb[k] = (const sp_t&)a);
	    g_mb[k].id = ia; thr_release(mbsync[k]); mbfull[k] = true; mbbusy[k] = false;
	    break;
	case OP_take:
	    if (mbbusy[k] || !mbfull[k]) break;
	    probe(P_HANDOFF);
	    { const int id = g_mb[k].id; busy[2] = id; mbbusy[k] = true; thr_acquire(mbsync[k]); ma.id = -1; g_mb[k].id = -1; TRYP(a = move(*mb[k])); ma.id = id; thr_release(mbsync[k]); mbfull[k] = false; mbbusy[k] = false; }
	    break;
	case OP_touch: {
	    if (ia < 0) break;
	    check_alive(ia,"write");
	    const uint32_t v = (uint32_t)st.a[4]*7+si+1; int got;
	    LIB(got = a->id; a->cell[tid] = v);
	    if (got != ia) sim_fail("T01","wrong-object","the pointer gives object %d, not %d",got,ia);
	    g_o[ia].cell[tid] = v;
	    break; }
	case OP_count: {
	    size_t uc; LIB(uc = a.use_count()); const int n = ia < 0 ? 0 : sure(ia);
	    if (uc < (size_t)n || uc > (size_t)(n + (ia < 0 ? 0 : extra(ia) + g_o[ia].inner))) sim_fail("T01","wrong-count","use_count %llu of an object with %d owners",(unsigned long long)uc,n);
	    bool u; LIB(u = a.unique()); if (ia >= 0 && u && sure(ia) > 1) sim_fail("T01","wrong-count","unique() although object %d has %d owners",ia,sure(ia));
	    if (n >= 3) probe(P_SHARED3);
	    break; }
	case OP_compare: { bool eq; LIB(eq = a == b); if (eq != (ia == ij)) sim_fail("T01","wrong-object","pointers to objects %d and %d compare %s",ia,ij,eq ? "equal" : "different"); break; }
	case OP_vec: if (odd) busy[2] = g_srcm[q].id; TRYP({ sp_t l [3]; for (int z = 0; z < 3; ++z) l[z] = odd ? (const sp_t&)*src[q] : (const sp_t&)b; l[0].swap (l[1]); l[1] = move(l[2]); }); break;
    }
    // a copy kept the previous object alive only until now
    busy[0] = busy[1] = busy[2] = -1;
    if (failed) probe(P_ALLOC);
    if (g_switches != sw) probe(P_SWITCHED);
    check_alive(ma.id,OPS[st.op]); check_alive(mj.id,OPS[st.op]);
    const Obj* ga = a.get(); if ((ga != 0) != (ma.id >= 0) || (ga && ga->id != ma.id)) sim_fail("T01","wrong-object","after the call the pointer holds object %d, expected %d",ga ? ga->id : -1,ma.id);
}
void exec(const Plan& p)
{
    g_nobj = 0; memset(g_o,0,sizeof(g_o));
    for (int t = 0; t < NT; ++t) { for (int s = 0; s < NSLOT; ++s) { g_slot[t][s].id = -1; new (sp[t][s].mem) sp_t; } g_busy[t][0] = g_busy[t][1] = g_busy[t][2] = -1; }
    for (int k = 0; k < NMB; ++k) { g_mb[k].id = -1; new (mb[k].mem) sp_t; mbfull[k] = mbbusy[k] = false; memset(&mbsync[k],0,sizeof(mbsync[k])); }
    for (int k = 0; k < NSRC; ++k) { g_srcm[k].id = -1; int id = g_nobj++; LIB(new (src[k].mem) sp_t (new Obj (id))); g_srcm[k].id = id; }
    const int nt = (int)p.cfg[C_THREADS];
    for (int s = 0; s < NSLOT && s < p.cfg[C_SHARE]; ++s) {
	const int id = g_nobj++; LIB(*sp[0][s] = sp_t (new Obj (id))); g_slot[0][s].id = id;
	for (int t = 1; t < nt; ++t) { LIB(*sp[t][s] = (const sp_t&)*sp[0][s]); g_slot[t][s].id = id; }
    }
    ThrConfig c = { (int)p.cfg[C_THREADS], (int)p.cfg[C_RATE], (int)p.cfg[C_BRATE], 0, 0 };
    thr_run(p,c,dostep);
    sim.step = 0; sim.stepno = (int)p.steps.size(); sim.allocfaults = false;
    for (int id = 0; id < g_nobj; ++id) if (g_o[id].live && !sure(id)) {	// owned by another object?
	bool inner = false;
	for (int u = 0; u < g_nobj; ++u) inner |= g_o[u].live && g_o[u].next == id+1;
	if (!inner) sim_fail("T01","leak","object %d is alive although no pointer owns it",id);
    }
    // every counter agrees with the number of owners once the threads are done
    for (int t = 0; t < NT; ++t) for (int s = 0; s < NSLOT; ++s) if (g_slot[t][s].id >= 0) {
	const int id = g_slot[t][s].id; int want = sure(id);
	for (int u = 0; u < g_nobj; ++u) want += g_o[u].live && g_o[u].next == id+1;
	if (sp[t][s]->use_count() != (size_t)want) sim_fail("T01","wrong-count","use_count %llu of an object with %d owners at the end",(unsigned long long)sp[t][s]->use_count(),want);
    }
    for (int t = 0; t < NT; ++t) for (int s = 0; s < NSLOT; ++s) { g_slot[t][s].id = -1; LIB(sp[t][s]->~sp_t()); }
    for (int k = 0; k < NMB; ++k) { g_mb[k].id = -1; LIB(mb[k]->~sp_t()); }
    for (int k = 0; k < NSRC; ++k) { g_srcm[k].id = -1; LIB(src[k]->~sp_t()); }
    for (int id = 0; id < g_nobj; ++id) if (g_o[id].live) sim_fail("T01","leak","object %d was never destroyed",id);
    arena_check_leaks("T01","after every pointer is gone");
}
const Scenario S = { "sptr", "T01", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg R (&S);
}
