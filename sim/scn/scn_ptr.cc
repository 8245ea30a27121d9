// Smart pointers and scope guards: every object owned is destroyed exactly once, at the right moment.
#include "common.h"
using namespace ustl;

namespace {
struct Boom {};
enum { S_NONE, S_LIVE, S_DEAD };
Vec<int> g_state;	// by object id
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("M04",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }

int g_dtorslot = -1;		// the slot whose pointer is being destroyed, which nobody may touch meanwhile
void react(int slot);
struct Obj {
    int id, does /* the slot it empties when destroyed */; uint32_t magic; shared_ptr<Obj> next; unique_ptr<Obj> unext; void* mem;
    static int fresh;		// id of the next object
    Obj() : id (-1), does (-1), magic (0), next(), unext(), mem (0) {
	if (fault_at(F_THROW,sim.ctoridx++)) { fired(F_THROW); throw Boom(); }
	mem = malloc (1); if (!mem) throw ustl::bad_alloc (1);
	HxScope hx; id = fresh++; while ((int)g_state.size() <= id) g_state.push(S_NONE); g_state[id] = S_LIVE; magic = 0x0B1EC700u+id;
    }
    ~Obj() {
	if (magic != 0x0B1EC700u+(uint32_t)id || id < 0 || id >= (int)g_state.size()) bad("destroyed-garbage","the destructor ran on something that is no object",id,-1);
	else if (g_state[id] != S_LIVE) bad("double-destroy","object destroyed again",id,-1);
	if (id >= 0 && id < (int)g_state.size()) g_state[id] = S_DEAD;
	if (does >= 0 && does != g_dtorslot) react(does);
	free (mem); mem = 0; magic = 0xDEAD;
    }
    Obj(const Obj&) = delete; void operator=(const Obj&) = delete;
};
int Obj::fresh = 0;

#define OPLIST(X) X(sp_new) X(sp_make) X(sp_copy) X(sp_copy_ctor) X(sp_move) X(sp_move_ctor) X(sp_swap) X(sp_reset) X(sp_reset_new) X(sp_assign_raw) X(sp_link) X(sp_advance) X(sp_advance_move) X(sp_temp) X(sp_many) X(sp_dtor) X(sp_react) \
    X(up_new) X(up_make) X(up_move) X(up_move_ctor) X(up_swap) X(up_reset) X(up_reset_new) X(up_release) X(up_link) X(up_advance) X(up_dtor) X(up_react) \
    X(ua_new) X(ua_move) X(ua_move_ctor) X(ua_assign_raw) X(ua_reset) X(ua_release) X(ua_swap) \
    X(ap_new) X(ap_copy) X(ap_copy_ctor) X(ap_reset) X(ap_release) X(ap_dtor) \
    X(scope) X(resource) X(resource_make) X(resource_move) X(resource_reset)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_FOCUS, N_CFG };
const char* const CFG [N_CFG] = { "focus" };
enum { P_ALLOC, P_THROW, P_SHARED, P_CASCADE, P_SELF, P_ADV, P_ARRAY, P_RELEASED, P_GUARD, P_REACT, P_MANY, N_PROBES };
const char* const PROBES [N_PROBES] = { "allocation_failed","constructor_threw","object_with_three_owners","destruction_cascaded","self_assignment","advanced_along_own_chain","array","released","guard_ran","destructor_emptied_a_pointer", "hundreds_of_owners" };
enum { NS = 5 };

void gen(Rng& r, Plan& p, bool faults)
{
    const int f = (int)(p.cfg[C_FOCUS] = r.below(4));
    const int n = 3 + (int)r.skewed(60);
    for (int i = 0; i < n; ++i) {
	int op = f == 0 || r.chance(200) ? (int)r.below(N_OPS) : f == 1 ? (int)r.below(OP_up_new) : f == 2 ? OP_up_new + (int)r.below(OP_ap_new-OP_up_new) : OP_ap_new + (int)r.below(N_OPS-OP_ap_new);
	Step& st = p.add(op,r.below(NS),r.below(NS),r.below(6),r.below(1000));
	if (faults && r.chance(200)) addfault(st,r.chance(700) ? F_ALLOC : F_THROW,(int)r.skewed(3),1+(int)r.skewed(2),0);
    }
}
#define TRYP(c, ...) do { (c).kind = TH_NONE; try { LIB(__VA_ARGS__); } catch (Boom&) { (c).kind = TH_CRASH; } catch (ustl::bad_alloc&) { (c).kind = TH_ALLOC; } catch (...) { (c).kind = TH_OTHER; } } while (false)

// What the model knows of an object: owners, and what it owns itself.
struct MObj { bool live; int refs; int next, unext, does; };
Vec<MObj> g_m;
void m_born(int id) { while ((int)g_m.size() <= id) { MObj o = { false,0,-1,-1,-1 }; g_m.push(o); } MObj o = { true,0,-1,-1,-1 }; g_m[id] = o; }
int g_cascade;
void m_die(int id);
void m_unref(int id) { if (id < 0) return; if (!--g_m[id].refs) m_die(id); }
void m_react(int slot);
void m_die(int id) { if (id < 0) return; ++g_cascade; g_m[id].live = false; if (g_m[id].does >= 0 && g_m[id].does != g_dtorslot) m_react(g_m[id].does); int n = g_m[id].next, u = g_m[id].unext; g_m[id].next = g_m[id].unext = -1; m_unref(n); m_die(u); }
void m_set(int& slot, int id) { int o = slot; if (id >= 0) ++g_m[id].refs; slot = id; m_unref(o); }	// shared slot
void m_uset(int& slot, int id) { int o = slot; slot = id; m_die(o); }					// unique slot

int g_ran [64];
struct Guard { int n; void operator()(void) const { ++g_ran[n & 63]; probe(P_GUARD); } };
struct Deleter { int tag; void operator()(const int& r) const { ++g_ran[r & 63]; } };
typedef scope_exit<Guard> guard_t;
typedef unique_resource<int,Deleter> res_t;

template <typename T> struct Raw { char mem [sizeof(T)] __attribute__((aligned(16))); T& operator*() { return *(T*)mem; } T* operator->() { return (T*)mem; } };

Raw<shared_ptr<Obj> > sp [NS]; Raw<unique_ptr<Obj> > up [NS];
int ms [NS], mu [NS];
void react(int slot) { if (slot < NS) sp[slot]->reset(); else up[slot-NS]->reset(); }
void m_react(int slot) { probe(P_REACT); if (slot < NS) m_set(ms[slot],-1); else m_uset(mu[slot-NS],-1); }

void exec(const Plan& p)
{
    g_dtorslot = -1; g_state.clear(); g_m.clear(); Obj::fresh = 0; memset(g_ran,0,sizeof(g_ran));
    static Raw<unique_ptr<Obj[]> > ua [NS]; static Raw<auto_ptr<Obj> > ap [NS]; static Raw<res_t> re [NS];
    int mf [NS], mn [NS], ma [NS], mr [NS]; bool mre [NS]; Obj* const nobody = 0;
    static int want [64]; memset(want,0,sizeof(want)); int nres = 0;
    for (int i = 0; i < NS; ++i) { ms[i] = mu[i] = mf[i] = ma[i] = -1; mn[i] = 0; LIB(new (sp[i].mem) shared_ptr<Obj>; new (up[i].mem) unique_ptr<Obj>; new (ua[i].mem) unique_ptr<Obj[]>; new (ap[i].mem) auto_ptr<Obj>); mr[i] = nres++; mre[i] = true; int v = mr[i]; Deleter d = { 1 }; LIB(new (re[i].mem) res_t (move(v),move(d))); }
    #define TAKE(id) m_born(id)
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op];
	Caught c; c.kind = TH_NONE;
	const int i = (uint64_t)st.a[0] % NS, j = (uint64_t)st.a[1] % NS, n = (uint64_t)st.a[2] % 6, was = Obj::fresh;
	const bool odd = st.a[3] & 1;
	bool made = false;	// a new object exists in the library's or the model's hands
	g_cascade = 0;
	if (i == j) probe(P_SELF);
	switch (st.op) {
	    // shared_ptr
	    case OP_sp_new: { Obj* o = 0; TRYP(c, o = new Obj); if (c.kind) break; made = true; TAKE(was); TRYP(c, *sp[i] = shared_ptr<Obj> (o)); if (c.kind) m_die(was); else m_set(ms[i],was); break; }
	    case OP_sp_make: TRYP(c, *sp[i] = make_shared<Obj>()); if ((made = Obj::fresh > was)) { TAKE(was); if (c.kind) m_die(was); else m_set(ms[i],was); } break;
	    case OP_sp_copy: TRYP(c, const shared_ptr<Obj>& s = *sp[j]; *sp[i] = s); m_set(ms[i],ms[j]); break;
	    case OP_sp_copy_ctor: TRYP(c, { const shared_ptr<Obj>& s = *sp[j]; shared_ptr<Obj> l (s); if (l.use_count() != (size_t)(ms[j] < 0 ? 0 : g_m[ms[j]].refs+1)) bad("wrong-count","use_count of a copy",l.use_count(),ms[j] < 0 ? 0 : g_m[ms[j]].refs+1); if (odd) sp[i]->swap (l); }); if (odd) m_set(ms[i],ms[j]); break;
	    case OP_sp_move: if (i == j) { TRYP(c, *sp[i] = move(*sp[j])); if (!sp[i]->get() && ms[i] >= 0) bad("lost-object","moving a pointer onto itself emptied it"); break; } TRYP(c, *sp[i] = move(*sp[j])); m_set(ms[i],ms[j]); m_set(ms[j],-1); break;
	    case OP_sp_move_ctor: TRYP(c, { shared_ptr<Obj> l (move(*sp[j])); if (sp[j]->get() || sp[j]->use_count() || *sp[j]) bad("moved-from","a moved-from pointer is not empty"); if (odd) sp[i]->swap (l); }); if (i == j) { if (!odd) m_set(ms[j],-1); } else { if (odd) m_set(ms[i],ms[j]); m_set(ms[j],-1); } break;
	    case OP_sp_swap: TRYP(c, sp[i]->swap (*sp[j])); { int t = ms[i]; ms[i] = ms[j]; ms[j] = t; } break;
	    case OP_sp_reset: TRYP(c, sp[i]->reset()); m_set(ms[i],-1); break;
	    case OP_sp_reset_new: case OP_sp_assign_raw: { Obj* o = 0; TRYP(c, o = new Obj); if (c.kind) break; made = true; TAKE(was); if (st.op == OP_sp_reset_new) TRYP(c, sp[i]->reset (o)); else TRYP(c, *sp[i] = o); if (c.kind) m_die(was); else m_set(ms[i],was); break; }
	    case OP_sp_link: if (ms[i] < 0 || ms[j] < 0 || ms[j] >= ms[i]) continue; if (odd) TRYP(c, (*sp[i])->next = *sp[j]); else TRYP(c, shared_ptr<Obj> l (*sp[j]); (**sp[i]).next = move(l)); { int& nx = g_m[ms[i]].next; m_set(nx,ms[j]); } break;
	    case OP_sp_advance: if (ms[i] < 0) continue; probe(P_ADV); TRYP(c, *sp[i] = (*sp[i])->next); m_set(ms[i],g_m[ms[i]].next); break;
	    case OP_sp_advance_move: if (ms[i] < 0) continue; probe(P_ADV); TRYP(c, *sp[i] = move((*sp[i])->next)); { int o = ms[i], nx = g_m[o].next; g_m[o].next = -1; ms[i] = nx; m_unref(o); } break;
	    case OP_sp_temp: if (ms[j] < 0) continue; TRYP(c, { shared_ptr<Obj> l [3]; for (int q = 0; q < 3; ++q) l[q] = *sp[j]; if (l[2].use_count() != (size_t)g_m[ms[j]].refs+3 || l[0].unique()) bad("wrong-count","use_count of three more copies",l[2].use_count(),g_m[ms[j]].refs+3); probe(P_SHARED); l[1] = move(l[0]); l[1].reset(); if (odd) { sp[j]->reset(); l[2].swap (*sp[j]); } }); break;
	    case OP_sp_many: { // as many owners as a count of 8 or 16 bits can not tell
		if (ms[j] < 0) continue;
		static uint64_t lm [66000]; static_assert(sizeof(shared_ptr<Obj>) == 8,""); shared_ptr<Obj>* const l = (shared_ptr<Obj>*)lm;
		const int refs = g_m[ms[j]].refs, cnt = st.a[3] % 200 == 39 ? 65500 + n*90 : 200 + n*60; g_cascade = 0;
		TRYP(c, { for (int q = 0; q < cnt; ++q) new (l+q) shared_ptr<Obj> (*sp[j]);
		    if (sp[j]->use_count() != (size_t)refs+cnt) bad("wrong-count","use_count of many more owners",sp[j]->use_count(),refs+cnt);
		    for (int q = 0; q < cnt; ++q) l[q].~shared_ptr();
		    if (sp[j]->use_count() != (size_t)refs) bad("wrong-count","use_count after many owners",sp[j]->use_count(),refs); });
		probe(P_MANY); break; }
	    case OP_sp_dtor: g_dtorslot = i; TRYP(c, sp[i]->~shared_ptr()); new (sp[i].mem) shared_ptr<Obj>; m_set(ms[i],-1); g_dtorslot = -1; break;
	    case OP_sp_react: if (ms[i] < 0) continue; (*sp[i])->does = g_m[ms[i]].does = n < 3 ? i : odd ? j : NS+j; break;
	    // unique_ptr
	    case OP_up_new: { Obj* o = 0; TRYP(c, o = new Obj); if (c.kind) break; made = true; TAKE(was); if (odd) TRYP(c, *up[i] = unique_ptr<Obj> (o)); else TRYP(c, *up[i] = o); m_uset(mu[i],was); break; }
	    case OP_up_make: TRYP(c, *up[i] = make_unique<Obj>()); if ((made = Obj::fresh > was)) { TAKE(was); if (c.kind) m_die(was); else m_uset(mu[i],was); } break;
	    case OP_up_move: TRYP(c, *up[i] = move(*up[j])); if (i != j) { int t = mu[j]; mu[j] = -1; m_uset(mu[i],t); } break;
	    case OP_up_move_ctor: TRYP(c, { unique_ptr<Obj> l (move(*up[j])); if (up[j]->get()) bad("moved-from","a moved-from pointer is not empty"); if (odd) up[i]->swap (l); }); if (i == j) { if (!odd) m_uset(mu[i],-1); } else { int t = mu[j]; mu[j] = -1; if (odd) m_uset(mu[i],t); else m_die(t); } break;
	    case OP_up_swap: TRYP(c, up[i]->swap (*up[j])); { int t = mu[i]; mu[i] = mu[j]; mu[j] = t; } break;
	    case OP_up_reset: TRYP(c, up[i]->reset()); m_uset(mu[i],-1); break;
	    case OP_up_reset_new: { Obj* o = 0; TRYP(c, o = new Obj); if (c.kind) break; made = true; TAKE(was); TRYP(c, up[i]->reset (o)); m_uset(mu[i],was); break; }
	    case OP_up_release: { Obj* o = 0; TRYP(c, o = up[i]->release()); const int id = mu[i]; mu[i] = -1; if (id >= 0 && (!o || o->id != id)) { bad("wrong-object","released object",o ? o->id : -1,id); break; } if (id < 0) { if (o) bad("wrong-object","an empty pointer released something"); break; } probe(P_RELEASED); if (g_state[id] != S_LIVE) bad("early-destroy","released object was destroyed",id); if (odd) { TRYP(c, *up[j] = o); m_uset(mu[j],id); } else { LIB(delete o); m_die(id); } break; }
	    case OP_up_link: if (mu[i] < 0 || mu[j] < 0 || i == j) continue; TRYP(c, (*up[i])->unext = move(*up[j])); { int t = mu[j]; mu[j] = -1; int u = g_m[mu[i]].unext; g_m[mu[i]].unext = t; m_die(u); } break;
	    case OP_up_advance: if (mu[i] < 0) continue; probe(P_ADV); TRYP(c, *up[i] = move((*up[i])->unext)); { int o = mu[i]; mu[i] = g_m[o].unext; g_m[o].unext = -1; m_die(o); } break;
	    case OP_up_dtor: g_dtorslot = NS+i; TRYP(c, up[i]->~unique_ptr()); new (up[i].mem) unique_ptr<Obj>; m_uset(mu[i],-1); g_dtorslot = -1; break;
	    case OP_up_react: if (mu[i] < 0) continue; (*up[i])->does = g_m[mu[i]].does = n < 3 ? NS+i : odd ? NS+j : j; break;
	    // arrays
	    case OP_ua_new: { probe(P_ARRAY); const int cnt = n+1; if (odd) TRYP(c, *ua[i] = make_unique<Obj[]> (cnt)); else TRYP(c, Obj* o = new Obj [cnt]; ua[i]->reset (o)); made = true; for (int q = was; q < Obj::fresh; ++q) TAKE(q); if (c.kind) for (int q = was; q < Obj::fresh; ++q) m_die(q); else { for (int q = 0; q < mn[i]; ++q) m_die(mf[i]+q); mf[i] = was; mn[i] = cnt; } break; }
	    case OP_ua_move: TRYP(c, *ua[i] = move(*ua[j])); if (i != j) { for (int q = 0; q < mn[i]; ++q) m_die(mf[i]+q); mf[i] = mf[j]; mn[i] = mn[j]; mf[j] = -1; mn[j] = 0; } break;
	    case OP_ua_move_ctor: TRYP(c, { unique_ptr<Obj[]> l (move(*ua[j])); if (ua[j]->get() || *ua[j]) bad("moved-from","a moved-from array pointer is not empty"); if ((l.get() ? l->id : -1) != (mn[j] ? mf[j] : -1)) bad("wrong-object","moved array"); if (odd) ua[i]->swap (l); }); if (i == j) { if (!odd) { for (int q = 0; q < mn[i]; ++q) m_die(mf[i]+q); mf[i] = -1; mn[i] = 0; } } else { const int k = odd ? i : j; for (int q = 0; q < mn[k]; ++q) m_die(mf[k]+q); if (odd) { mf[i] = mf[j]; mn[i] = mn[j]; } mf[j] = -1; mn[j] = 0; } break;
	    case OP_ua_assign_raw: { probe(P_ARRAY); const int cnt = n+1; Obj* o = 0; if (n) TRYP(c, o = new Obj [cnt]); made = true; for (int q = was; q < Obj::fresh; ++q) TAKE(q); if (c.kind) { for (int q = was; q < Obj::fresh; ++q) m_die(q); break; } TRYP(c, *ua[i] = o); for (int q = 0; q < mn[i]; ++q) m_die(mf[i]+q); mf[i] = o ? was : -1; mn[i] = o ? cnt : 0; break; }
	    case OP_ua_reset: TRYP(c, ua[i]->reset (nullptr)); for (int q = 0; q < mn[i]; ++q) m_die(mf[i]+q); mf[i] = -1; mn[i] = 0; break;
	    case OP_ua_release: { Obj* o = 0; TRYP(c, o = ua[i]->release()); if (ua[i]->get()) bad("wrong-object","an array pointer still holds what it released"); LIB(delete [] o); for (int q = 0; q < mn[i]; ++q) m_die(mf[i]+q); mf[i] = -1; mn[i] = 0; break; }
	    case OP_ua_swap: TRYP(c, ua[i]->swap (*ua[j])); { int t = mf[i]; mf[i] = mf[j]; mf[j] = t; t = mn[i]; mn[i] = mn[j]; mn[j] = t; } break;
	    // auto_ptr
	    case OP_ap_new: { Obj* o = 0; TRYP(c, o = new Obj); if (c.kind) break; made = true; TAKE(was); if (odd) TRYP(c, *ap[i] = o); else TRYP(c, ap[i]->reset (o)); m_uset(ma[i],was); break; }
	    case OP_ap_copy: TRYP(c, *ap[i] = *ap[j]); if (i != j) { int t = ma[j]; ma[j] = -1; m_uset(ma[i],t); } break;
	    case OP_ap_copy_ctor: TRYP(c, { auto_ptr<Obj> l (*ap[j]); if (odd) *ap[i] = l; }); { int t = ma[j]; ma[j] = -1; if (odd) m_uset(ma[i],t); else m_die(t); } break;
	    case OP_ap_reset: TRYP(c, ap[i]->reset (nobody)); m_uset(ma[i],-1); break;
	    case OP_ap_release: { Obj* o = 0; TRYP(c, o = ap[i]->release()); const int id = ma[i]; ma[i] = -1; if ((o ? o->id : -1) != id) { bad("wrong-object","released object",o ? o->id : -1,id); break; } LIB(delete o); m_die(id); break; }
	    case OP_ap_dtor: TRYP(c, ap[i]->~auto_ptr()); new (ap[i].mem) auto_ptr<Obj>; m_uset(ma[i],-1); break;
	    // guards
	    case OP_scope: {
		Guard g1 = { 60 }, g2 = { 61 }; const int r1 = g_ran[60], r2 = g_ran[61];
		TRYP(c, { guard_t a (move(g1)); if (n & 1) a.release(); { guard_t b (move(a)); if (n & 2) b.release(); auto d = make_scope_exit ([]{ ++g_ran[61]; }); if (n & 4) throw Boom(); if (odd) d.release(); } if (g_ran[60]-r1 != ((n & 3) ? 0 : 1)) bad("guard","a moved guard did not run exactly as told",g_ran[60]-r1,(n & 3) ? 0 : 1); });
		(void)g2;
		if (n & 4 && c.kind == TH_CRASH) { c.kind = TH_NONE; if (g_ran[61]-r2 != 1) bad("guard","a guard did not run when an exception left its scope",g_ran[61]-r2,1); } else if (g_ran[61]-r2 != (odd ? 0 : 1)) bad("guard","a guard ran although released, or did not run",g_ran[61]-r2,odd ? 0 : 1);
		if (g_ran[60]-r1 != ((n & 3) ? 0 : 1)) bad("guard","a guard moved away ran again",g_ran[60]-r1,(n & 3) ? 0 : 1);
		break; }
	    case OP_resource: { if (nres >= 56) continue; if (odd) { int v = nres; TRYP(c, re[i]->reset (move(v))); } else { int v = nres; Deleter d = { 2 }; TRYP(c, res_t l (move(v),move(d),n & 1); *re[i] = move(l)); } if (mre[i]) ++want[mr[i]]; mr[i] = nres++; mre[i] = odd || (n & 1); break; }
	    case OP_resource_make: { if (nres >= 56) continue; const bool none = n == 0; int v = none ? -1 : nres; Deleter d = { 3 };
		if (odd) TRYP(c, *re[i] = make_unique_resource_checked (v,-1,d)); else { if (none) continue; TRYP(c, auto l = make_unique_resource (move(v),move(d)); const int& r = l; if (r != nres || l.get_deleter().tag != 3) bad("wrong-object","a resource or its deleter",r,nres); *re[i] = move(l)); }
		if (mre[i]) ++want[mr[i]]; mr[i] = none ? -1 : nres++; mre[i] = !none;
		{ static int cell [2]; cell[0] = 5; int* pc = cell; static int gone; gone = 0; struct PD { void operator()(int* q) const { gone += q == cell; } }; PD pd; TRYP(c, { unique_resource<int*,PD> l (move(pc),move(pd),n & 1); if (*l != 5 || l.operator->() != cell || &*l != cell) bad("wrong-object","what a pointer resource points to"); if (n & 2) { unique_resource<int*,PD> m (move(l)); (void)m; if (*m != 5) bad("wrong-object","moved pointer resource"); } }); if (gone != (n & 1)) bad("guard","times a pointer resource was given back",gone,n & 1); }
		break; }
	    case OP_resource_move: if (i == j) continue; if (odd) TRYP(c, *re[i] = move(*re[j])); else TRYP(c, { res_t l (move(*re[j])); *re[i] = move(l); }); if (mre[i]) ++want[mr[i]]; mr[i] = mr[j]; mre[i] = mre[j]; mre[j] = false; break;
	    case OP_resource_reset: if (odd) { TRYP(c, re[i]->reset()); if (mre[i]) ++want[mr[i]]; } else { int v = -1; TRYP(c, v = re[i]->release()); if (v != mr[i]) bad("wrong-object","released resource",v,mr[i]); } mre[i] = false; break;
	}
	(void)made;
	if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed"); }
	if (c.kind == TH_CRASH) probe(P_THROW);
	if (c.kind == TH_OTHER) bad("wrong-exception","threw something else");
	if (g_cascade > 2) probe(P_CASCADE);
	if ((int)g_m.size() < Obj::fresh) { for (int q = g_m.size(); q < Obj::fresh; ++q) { m_born(q); g_m[q].live = false; } }
	for (int q = 0; q < Obj::fresh; ++q) {
	    if (g_m[q].live && g_state[q] != S_LIVE) bad("early-destroy","object destroyed although it has an owner",q,g_m[q].refs);
	    if (!g_m[q].live && g_state[q] == S_LIVE) bad("object-leak","object still alive although it has no owner",q,0);
	}
	for (int q = 0; q < NS; ++q) {
	    const Obj* o = sp[q]->get(); const int id = o ? o->id : -1;
	    if (id != ms[q]) bad("wrong-object","shared_ptr holds another object",id,ms[q]);
	    if ((bool)*sp[q] != (ms[q] >= 0)) bad("wrong-object","shared_ptr conversion to bool");
	    const size_t uc = ms[q] < 0 ? 0 : g_m[ms[q]].refs;
	    if (sp[q]->use_count() != uc || sp[q]->unique() != (uc == 1)) bad("wrong-count","use_count",sp[q]->use_count(),uc);
	    if (uc > 2) probe(P_SHARED);
	    if (ms[q] >= 0 && ((**sp[q]).id != id || (*sp[q])->id != id || (*sp[q]->get()).id != id)) bad("wrong-object","dereferencing");
	    const int r = (q+1) % NS; if ((*sp[q] == *sp[r]) != (ms[q] == ms[r])) bad("wrong-result","comparison of shared pointers");
	    const Obj* u = up[q]->get(); if ((u ? u->id : -1) != mu[q] || (bool)*up[q] != (mu[q] >= 0)) bad("wrong-object","unique_ptr holds another object",u ? u->id : -1,mu[q]);
	    const Obj* x = ua[q]->get(); if (!x != !mn[q]) bad("wrong-object","array pointer",!!x,mn[q]); for (int z = 0; x && z < mn[q]; ++z) if ((*ua[q])[z].id != mf[q]+z) bad("wrong-object","array element",(*ua[q])[z].id,mf[q]+z);
	    const Obj* a = ap[q]->get(); if ((a ? a->id : -1) != ma[q]) bad("wrong-object","auto_ptr holds another object",a ? a->id : -1,ma[q]);
	    {	// dereferencing and comparing
		unique_ptr<Obj>& U = *up[q]; unique_ptr<Obj[]>& A = *ua[q]; auto_ptr<Obj>& T = *ap[q]; shared_ptr<Obj>& H = *sp[q]; Obj* const z = q & 1 ? sp[r]->get() : (Obj*)0;
		if ((u && (&*U != u || U.operator->() != u || &U[0] != u)) || (x && (&*A != x || A.operator->() != x)) || (a && (&*T != a || T.operator->() != a)) || (o && &H[0] != o)) bad("wrong-object","dereferencing");
		if ((U == up[r]->get()) != (u == up[r]->get()) || (U != up[r]->get()) != (u != up[r]->get()) || (U == *up[r]) != (u == up[r]->get()) || (U < *up[r]) != (u < up[r]->get())) bad("wrong-result","comparison of unique pointers");
		if ((A == ua[r]->get()) != (x == ua[r]->get()) || (A != ua[r]->get()) != (x != ua[r]->get()) || (A == *ua[r]) != (x == ua[r]->get()) || (A < *ua[r]) != (x < ua[r]->get()) || (bool)A != !!x) bad("wrong-result","comparison of array pointers");
		if ((T == ap[r]->get()) != (a == ap[r]->get()) || (T == *ap[r]) != (a == ap[r]->get()) || (T < *ap[r]) != (a < ap[r]->get())) bad("wrong-result","comparison of auto pointers");
		if ((H == z) != (o == z) || (H != z) != (o != z) || (H < *sp[r]) != (o < sp[r]->get())) bad("wrong-result","comparison of shared pointers");
		if (!(U == (Obj*)u) || U != (Obj*)u || !(A == (Obj*)x) || !(T == (Obj*)a) || !(H == (Obj*)o)) bad("wrong-result","comparison of a pointer with what it holds");
	    }
	    if (re[q]->get() != mr[q] && mre[q]) bad("wrong-object","resource",re[q]->get(),mr[q]);
	}
	for (int q = 0; q < nres; ++q) if (g_ran[q] != want[q]) bad(g_ran[q] > want[q] ? "guard" : "guard","times a resource was given back",g_ran[q],want[q]);
    }
    sim.step = 0; what = "end";
    for (int i = 0; i < NS; ++i) { sp[i]->reset(); up[i]->reset(); }
    for (int i = 0; i < NS; ++i) { if (mre[i]) ++want[mr[i]]; LIB(sp[i]->~shared_ptr(); up[i]->~unique_ptr(); ua[i]->~unique_ptr(); ap[i]->~auto_ptr(); re[i]->~res_t()); }
    for (int q = 0; q < nres; ++q) if (g_ran[q] != want[q]) bad("guard","times a resource was given back",g_ran[q],want[q]);
    for (int q = 0; q < Obj::fresh; ++q) if (g_state[q] == S_LIVE) bad("object-leak","object still alive after every owner is gone",q,0);
    arena_check_leaks("M04","after every owner is gone");
}
const Scenario S = { "ptr", "M04", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
