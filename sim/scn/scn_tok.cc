// Containers of elements that know whether they are alive, and that can refuse to be copied.
#include "common.h"
using namespace ustl;

namespace {
struct Boom { int n; };
Vec<uint8_t> g_tok;		// by serial: 1 live, 2 destroyed
int64_t g_livetok; bool g_quiet;
enum { MAGIC = 0x70C0BEEF };
void tokbad(const char* cls, const char* what) { if (!g_quiet) sim_fail("M02",cls,"%s",what); }

struct TokBase {
    uint32_t magic, serial; int val; void* mem;
    void born(int v) {
	HxScope hx;
	magic = MAGIC; serial = g_tok.size(); val = v; g_tok.push(1); ++g_livetok;
    }
    void alive(const char* cls, const char* what) const {
	if (magic != MAGIC || serial >= g_tok.size()) tokbad(cls, what);
	else if (g_tok[serial] != 1) tokbad("use-of-destroyed-element", what);
    }
    // a copy allocates, and can fail for its own reasons as well
    static void* payload(void) {
	if (fault_at(F_THROW, sim.ctoridx++)) { fired(F_THROW); Boom b = { sim.ctoridx }; throw b; }
	void* p = malloc(1); if (!p) throw ustl::bad_alloc(1);
	return p;
    }
    void die(void) {
	alive("destroyed-garbage", "a destructor ran on memory that holds no element");
	if (magic == MAGIC && serial < g_tok.size()) { if (g_tok[serial] == 1) --g_livetok; g_tok[serial] = 2; }
	free(mem); mem = 0; magic = 0xDEADDEAD;
    }
};
const char* const GC = "copy-of-garbage";
struct TokC : TokBase {		// copies only
    TokC()			{ mem = payload(); born(0); }
    TokC(int v)			{ mem = payload(); born(v); }
    TokC(const TokC& t)		{ t.alive(GC,"an element was copied from memory that holds no element"); mem = payload(); born(t.val); }
    TokC& operator=(const TokC& t) { alive(GC,"memory that holds no element was assigned to"); t.alive(GC,"an element was assigned from memory that holds no element"); void* p = payload(); free(mem); mem = p; val = t.val; return *this; }
    ~TokC()			{ die(); }
    bool operator<(const TokC& t) const { alive(GC,"compared with no element"); t.alive(GC,"compared with no element"); return val < t.val; }
    bool operator==(const TokC& t) const { return val == t.val; }
};
struct TokM : TokBase {		// copies and moves
    TokM()			{ mem = payload(); born(0); }
    TokM(int v)			{ mem = payload(); born(v); }
    TokM(const TokM& t)		{ t.alive(GC,"an element was copied from memory that holds no element"); mem = payload(); born(t.val); }
    TokM(TokM&& t)		{ t.alive(GC,"an element was moved from memory that holds no element"); mem = t.mem; t.mem = 0; born(t.val); t.val = -1; }
    TokM& operator=(const TokM& t) { alive(GC,"memory that holds no element was assigned to"); t.alive(GC,"an element was assigned from memory that holds no element"); void* p = payload(); free(mem); mem = p; val = t.val; return *this; }
    TokM& operator=(TokM&& t)	{ alive(GC,"memory that holds no element was assigned to"); t.alive(GC,"an element was assigned from memory that holds no element"); if (&t != this) { free(mem); mem = t.mem; t.mem = 0; val = t.val; t.val = -1; } return *this; }
    ~TokM()			{ die(); }
    bool operator<(const TokM& t) const { alive(GC,"compared with no element"); t.alive(GC,"compared with no element"); return val < t.val; }
    bool operator==(const TokM& t) const { return val == t.val; }
};
#define TRYT(c, stmt) do { (c).kind = TH_NONE; try { LIB(stmt); } catch (Boom&) { (c).kind = TH_CRASH; } catch (ustl::bad_alloc&) { (c).kind = TH_ALLOC; } catch (...) { (c).kind = TH_OTHER; } } while (false)

#define OPLIST(X) X(push) X(push_move) X(emplace) X(emplace_back) X(insert) X(insert_move) X(insert_n) X(insert_range) X(erase) X(pop) X(resize) X(resize_v) X(reserve) X(assign_n) X(assign_range) X(assign_obj) X(copy) X(move) X(swap) X(clear) X(dealloc) X(shrink) X(construct_n) X(construct_range) X(front_op) X(algo) X(splice) X(merge) X(fresh)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_KIND, N_CFG };
const char* const CFG [N_CFG] = { "container" };
enum { K_VECC, K_VECM, K_LIST, K_SETC, K_MSETM, K_MAP, K_MMAP, K_QUEUE, K_STACK, K_PQ, K_RAWC, K_RAWM, K_N };
enum { P_BOOM, P_ALLOC, P_MIDDLE, P_VEC, P_LIST, P_SET, P_MAP, P_QUEUE, P_STACK, P_PQ, P_BIG, P_MULTI, P_OWN, P_RAW, N_PROBES };
const char* const PROBES [N_PROBES] = { "element_copy_threw","allocation_failed","threw_in_the_middle_of_several","vector_run","list_run","set_run","map_run","queue_run","stack_run","priority_queue_run","more_than_100_elements","several_elements_at_once","own_element_as_the_value","raw_storage_run" };
const int POOL = 48;

void gen(Rng& r, Plan& p, bool faults)
{
    p.cfg[C_KIND] = r.chance(500) ? r.below(3) : r.chance(80) ? K_RAWC + r.below(2) : r.below(K_RAWC);
    const int64_t big = r.chance(150) ? 40 : 8;
    const int n = 3 + (int)r.skewed(40);
    const bool eThrow = faults && r.chance(700), eAlloc = faults && (!eThrow || r.chance(500));
    for (int i = 0; i < n; ++i) {
	Step& st = p.add(r.below(N_OPS),r.below(2),r.skewed(200),r.skewed(big),r.below(POOL),r.below(2),r.below(1000));
	if (eThrow && r.chance(350)) addfault(st,F_THROW,(int)r.skewed(r.chance(700) ? 4 : 40),1+(int)r.skewed(2),0);
	if (eAlloc && r.chance(250)) addfault(st,F_ALLOC,(int)r.skewed(4),1+(int)r.skewed(3),0);
    }
}

template <typename T> int vof(const T& t) { return t.val; }
template <typename A, typename B> int vof(const pair<A,B>& t) { t.second.alive("dead-element","an element of the container is not a live object"); return t.first; }
template <typename T> const TokBase& tokof(const T& t) { return t; }
template <typename A> const TokBase& tokof(const pair<int,A>& t) { return t.second; }

// Every element of the range is a live object of its own.
template <typename I> void scan(I f, I l, Vec<int>& got)
{
    const size_t n = l - f;
    if (n > 100000) { sim_fail("M02","broken-container","container claims %llu elements",(unsigned long long)n); sim_exit_run(); }
    static Vec<uint32_t> seen; seen.clear();
    for (; f != l; ++f) {
	const TokBase& t = tokof(*f);
	if (t.magic != MAGIC || t.serial >= g_tok.size()) sim_fail("M02","dead-element","element %llu of %llu was never constructed",(unsigned long long)seen.size(),(unsigned long long)n);
	if (g_tok[t.serial] != 1) sim_fail("M02","dead-element","element %llu of %llu has been destroyed",(unsigned long long)seen.size(),(unsigned long long)n);
	for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == t.serial) sim_fail("M02","duplicate-element","elements %llu and %llu are the same object",(unsigned long long)i,(unsigned long long)seen.size());
	seen.push(t.serial); got.push(vof(*f));
    }
}
template <typename T> struct Pool { T* t; };
int64_t g_base;		// live tokens owned by the harness

void counted(size_t inside)
{
    if (g_livetok - g_base != (int64_t)inside) sim_fail("M02",g_livetok - g_base > (int64_t)inside ? "element-leak" : "lost-element","%lld elements are alive, the containers hold %llu",(long long)(g_livetok-g_base),(unsigned long long)inside);
}
void judge(const Caught& c)
{
    if (c.kind == TH_CRASH) { probe(P_BOOM); if (sim.ctoridx > 1) probe(P_MIDDLE); }
    if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed) sim_fail("M02","spurious-throw","threw bad_alloc although no allocation failed"); }
    if (c.kind == TH_OTHER) sim_fail("M02","wrong-exception","threw another exception than the element's");
}
void eq(const char* what, const Vec<int>& got, const Vec<int>& want)
{
    if (got == want) return;
    size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    sim_fail("M02","wrong-contents","%s holds %llu elements, expected %llu, first difference at %llu",what,(unsigned long long)got.size(),(unsigned long long)want.size(),(unsigned long long)k);
}

//---------------------------------------------------------------- vector and list
template <typename C, typename T> struct listops { static void go(Caught&, int, C&, C&, Vec<int>&, Vec<int>&, const T*, size_t) {} };
template <typename T> struct listops<list<T>,T> {
    typedef list<T> C;
    static void go(Caught& c, int op, C& a, C& b, Vec<int>& m, Vec<int>& mb, const T* v, size_t at) {
	if (op == OP_front_op) {
	    if (at % 2 || !m.size()) { const int rv = v->val; if (at % 4 > 1 || at % 8 == 0) TRYT(c, a.push_front(*v)); else TRYT(c, a.emplace_front(int(rv))); if (c.kind == TH_NONE) m.insert(0,rv); }
	    else { TRYT(c, a.pop_front()); if (c.kind == TH_NONE) m.erase(0); }
	} else if (op == OP_algo) switch (at % 4) {
	    case 0: { const int rv = v->val; TRYT(c, a.remove(*v)); if (c.kind == TH_NONE) { Vec<int> n; for (size_t i = 0; i < m.size(); ++i) if (m[i] != rv) n.push(m[i]); m = n; } break; }
	    case 1: { TRYT(c, a.unique()); if (c.kind == TH_NONE) { Vec<int> n; for (size_t i = 0; i < m.size(); ++i) if (!i || m[i] != m[i-1]) n.push(m[i]); m = n; } break; }
	    case 2: { TRYT(c, a.reverse()); if (c.kind == TH_NONE) { Vec<int> n; for (size_t i = m.size(); i--;) n.push(m[i]); m = n; } break; }
	    default: { TRYT(c, a.sort()); if (c.kind == TH_NONE) for (size_t i = 1; i < m.size(); ++i) for (size_t j = i; j && m[j] < m[j-1]; --j) { int x = m[j]; m[j] = m[j-1]; m[j-1] = x; } break; }
	} else if (op == OP_splice && &a != &b) {
	    const size_t ip = m.size() ? at % (m.size()+1) : 0, f = mb.size() ? at/3 % (mb.size()+1) : 0;
	    const bool all = at & 1;
	    if (all) TRYT(c, a.splice(a.begin()+ip,b)); else TRYT(c, a.splice(a.begin()+ip,b,b.begin()+f,b.end()));
	    if (c.kind == TH_NONE) { const size_t s = all ? 0 : f; for (size_t k = s; k < mb.size(); ++k) m.insert(ip+k-s,mb[k]); if (all) mb.clear(); else mb.setn(f); }
	} else if (op == OP_merge && &a != &b) {
	    bool sorted = true; for (size_t i = 1; i < m.size(); ++i) sorted &= m[i-1] <= m[i]; for (size_t i = 1; i < mb.size(); ++i) sorted &= mb[i-1] <= mb[i];
	    if (!sorted) return;
	    TRYT(c, a.merge(b));
	    if (c.kind == TH_NONE) { Vec<int> n; size_t i = 0, j = 0; while (i < m.size() || j < mb.size()) if (j >= mb.size() || (i < m.size() && m[i] <= mb[j])) n.push(m[i++]); else n.push(mb[j++]); m = n; }
	}
    }
};
template <typename C, typename T> void run_seq(const Plan& p)
{
    static char mem [2][sizeof(C)] __attribute__((aligned(16))), pm [POOL][sizeof(T)] __attribute__((aligned(16)));
    C* a [2]; Vec<int> m [2]; T* pool = (T*)pm;
    for (int i = 0; i < POOL; ++i) LIB(new (pm[i]) T (i*7 % 23));
    for (int i = 0; i < 2; ++i) LIB(a[i] = new (mem[i]) C);
    g_base = g_livetok;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; const int op = st.op;
	Caught c; c.kind = TH_NONE;
	const int i = st.a[0] & 1, j = st.a[4] & 1; C& x = *a[i]; C& y = *a[j]; Vec<int> w (m[i]), wy (m[j]);
	const size_t sz = m[i].size(), at = sz ? (uint64_t)st.a[1] % (sz+1) : 0, n = (uint64_t)st.a[2] % 41, k = hmin(n,sz-at);
	const size_t v = (uint64_t)st.a[3] % POOL, rn = hmin(n,(size_t)POOL-v);
	// the value copied may be an element of the container itself
	const bool own = sz && st.a[5] % 3 == 0; const size_t oi = own ? (uint64_t)st.a[3] % sz : 0; const T* pv = own ? x.begin()+oi : pool+v; const int val = own ? m[i][oi] : pool[v].val;
	if (own) probe(P_OWN);
	if (n > 1) probe(P_MULTI);
	if (sz > 300) { LIB(x.clear()); m[i].clear(); w.clear(); if (i == j) wy.clear(); continue; }
	switch (op) {
	    case OP_push: TRYT(c, x.push_back(*pv)); w.push(val); break;
	    case OP_push_move: { char t [sizeof(T)] __attribute__((aligned(16))); bool made = false; TRYT(c, new (t) T (val); made = true; x.push_back(move(*(T*)t))); w.push(val); if (made) LIB(((T*)t)->~T()); break; }
	    case OP_emplace: TRYT(c, x.emplace(x.begin()+at,val)); w.insert(at,val); break;
	    case OP_emplace_back: TRYT(c, x.emplace_back(val)); w.push(val); break;
	    case OP_insert: TRYT(c, x.insert(x.begin()+at,*pv)); w.insert(at,val); break;
	    case OP_insert_move: { char t [sizeof(T)] __attribute__((aligned(16))); bool made = false; TRYT(c, new (t) T (val); made = true; x.insert(x.begin()+at,move(*(T*)t))); w.insert(at,val); if (made) LIB(((T*)t)->~T()); break; }
	    case OP_insert_n: TRYT(c, x.insert(x.begin()+at,n,*pv)); w.insert_n(at,n,val); break;
	    case OP_insert_range: TRYT(c, x.insert(x.begin()+at,pool+v,pool+v+rn)); for (size_t q = 0; q < rn; ++q) w.insert(at+q,pool[v+q].val); break;
	    case OP_erase: if (!k) continue; if (st.a[5] & 1) TRYT(c, x.erase(x.begin()+at,k)); else TRYT(c, x.erase(x.begin()+at,x.begin()+at+k)); w.erase(at,k); break;
	    case OP_pop: if (!sz) continue; TRYT(c, x.pop_back()); w.pop(); break;
	    case OP_resize: { TRYT(c, x.resize(n)); const size_t o = w.size(); w.setn(n); for (size_t q = o; q < n; ++q) w[q] = 0; break; }
	    case OP_resize_v: { TRYT(c, x.resize(n,*pv)); const size_t o = w.size(); w.setn(n); for (size_t q = o; q < n; ++q) w[q] = val; break; }
	    case OP_reserve: TRYT(c, x.reserve(n*3,st.a[5] & 1)); break;
	    case OP_assign_n: TRYT(c, x.assign(n,*pv)); w.clear(); w.insert_n(0,n,val); break;
	    case OP_assign_range: TRYT(c, x.assign(pool+v,pool+v+rn)); w.clear(); for (size_t q = 0; q < rn; ++q) w.push(pool[v+q].val); break;
	    case OP_assign_obj: TRYT(c, x.assign(y.begin(),y.end())); w = m[j]; break;
	    case OP_copy: TRYT(c, C l (y); x.swap(l)); w = m[j]; break;
	    case OP_move: if (i == j) continue; TRYT(c, x = move(y)); w = m[j]; if (c.kind == TH_NONE) { wy.clear(); scan(y.begin(),y.end(),wy); } break;
	    case OP_swap: TRYT(c, x.swap(y)); if (i != j) { w = m[j]; wy = m[i]; } break;
	    case OP_clear: TRYT(c, x.clear()); w.clear(); break;
	    case OP_dealloc: TRYT(c, x.deallocate()); w.clear(); break;
	    case OP_shrink: TRYT(c, x.shrink_to_fit()); break;
	    case OP_construct_n: if (st.a[5] & 1) { TRYT(c, C l (n); x.swap(l)); w.clear(); w.resize(n); } else { TRYT(c, C l (n,*pv); x.swap(l)); w.clear(); w.insert_n(0,n,val); } break;
	    case OP_construct_range: TRYT(c, C l (pool+v,pool+v+rn); x.swap(l)); w.clear(); for (size_t q = 0; q < rn; ++q) w.push(pool[v+q].val); break;
	    case OP_fresh: TRYT(c, C l; l.push_back(*pv); C r (move(l)); x.swap(r)); w.clear(); w.push(val); break;
	    default: listops<C,T>::go(c,op,x,y,w,wy,pv,(uint64_t)st.a[5]); break;
	}
	judge(c);
	size_t tot = 0;
	for (int q = 0; q < 2; ++q) {
	    Vec<int> got; scan(a[q]->begin(),a[q]->end(),got); tot += got.size();
	    if (a[q]->capacity() < a[q]->size()) sim_fail("M02","broken-container","capacity %llu below size %llu",(unsigned long long)a[q]->capacity(),(unsigned long long)a[q]->size());
	    if (c.kind == TH_NONE) eq("container",got,q == i ? w : q == j ? wy : m[q]); else if (q != i && op != OP_splice) eq("the other container",got,m[q]);
	    m[q] = got; if (got.size() > 100) probe(P_BIG);
	}
	counted(tot);
	for (int q = 0; q < POOL; ++q) if (pool[q].val != q*7 % 23 || pool[q].magic != MAGIC) sim_fail("M02","wrong-contents","an element copied from was changed");
    }
    sim.step = 0;
    for (int i = 0; i < 2; ++i) LIB(a[i]->~C());
    counted(0);
    for (int i = 0; i < POOL; ++i) LIB(pool[i].~T());
}
//---------------------------------------------------------------- sorted containers
template <typename C, typename T> struct mk { static T make(int v) { return T (v); } };
template <typename C, typename V> struct mk<C,pair<int,V> > { static pair<int,V> make(int v) { return pair<int,V> (v,V(v)); } };
template <typename C, typename T, bool MULTI, typename KEY> void run_sorted(const Plan& p)
{
    static char mem [2][sizeof(C)] __attribute__((aligned(16)));
    C* a [2]; Vec<int> m [2];
    for (int i = 0; i < 2; ++i) LIB(a[i] = new (mem[i]) C);
    g_base = g_livetok;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; const int op = st.op;
	Caught c; c.kind = TH_NONE;
	const int i = st.a[0] & 1, j = st.a[4] & 1; C& x = *a[i]; C& y = *a[j]; Vec<int> w (m[i]), wy (m[j]);
	const size_t sz = m[i].size(); const int val = (int)((uint64_t)st.a[3] % 37);
	size_t pos = 0; while (pos < sz && (MULTI ? w[pos] <= val : w[pos] < val)) ++pos;
	const bool dup = !MULTI && pos < sz && w[pos] == val;
	switch (op) {
	    case OP_insert_n: case OP_resize_v: if (sz) {	// an element of its own
		const size_t oi = (uint64_t)st.a[1] % sz; const int ov = w[oi];
		TRYT(c, x.insert(x.begin()[oi]));
		if (MULTI) { size_t z = 0; while (z < sz && w[z] <= ov) ++z; w.insert(z,ov); }
		probe(P_OWN); break;
	    }
	    // fall through
	    case OP_push: case OP_emplace_back: case OP_resize: TRYT(c, T t (mk<C,T>::make(val)); x.insert(t)); if (!dup) w.insert(pos,val); break;
	    case OP_push_move: case OP_insert: case OP_insert_move: case OP_reserve: TRYT(c, x.insert(mk<C,T>::make(val))); if (!dup) w.insert(pos,val); break;
	    case OP_emplace: case OP_front_op: case OP_algo: TRYT(c, x.emplace(mk<C,T>::make(val))); if (!dup) w.insert(pos,val); break;
	    case OP_erase: case OP_shrink: { TRYT(c, KEY kk (val); x.erase(kk)); Vec<int> n; for (size_t q = 0; q < sz; ++q) if (w[q] != val) n.push(w[q]); w = n; break; }
	    case OP_pop: if (!sz) continue; TRYT(c, x.erase(x.begin()+(uint64_t)st.a[1]%sz)); w.erase((uint64_t)st.a[1]%sz); break;
	    case OP_insert_range: if (i == j) continue; TRYT(c, x.insert(y.begin(),y.end())); for (size_t q = 0; q < m[j].size(); ++q) { size_t z = 0; while (z < w.size() && (MULTI ? w[z] <= m[j][q] : w[z] < m[j][q])) ++z; if (MULTI || z >= w.size() || w[z] != m[j][q]) w.insert(z,m[j][q]); } if (w.size() > 400) { TRYT(c, x.clear()); if (!c.kind) w.clear(); } break;
	    case OP_assign_n: case OP_assign_range: case OP_assign_obj: TRYT(c, x = y); w = m[j]; break;
	    case OP_copy: case OP_construct_n: TRYT(c, C l (y); x.swap(l)); w = m[j]; break;
	    case OP_move: if (i == j) continue; TRYT(c, x = move(y)); w = m[j]; if (c.kind == TH_NONE) { wy.clear(); scan(y.begin(),y.end(),wy); } break;
	    case OP_swap: TRYT(c, x.swap(y)); if (i != j) { w = m[j]; wy = m[i]; } break;
	    case OP_clear: case OP_dealloc: TRYT(c, x.clear()); w.clear(); break;
	    case OP_construct_range: TRYT(c, C l (y.begin(),y.end()); x.swap(l)); w = m[j]; break;
	    default: continue;
	}
	judge(c);
	size_t tot = 0;
	for (int q = 0; q < 2; ++q) {
	    Vec<int> got; scan(a[q]->begin(),a[q]->end(),got); tot += got.size();
	    if (c.kind == TH_NONE) eq("container",got,q == i ? w : q == j ? wy : m[q]); else if (q != i) eq("the other container",got,m[q]);
	    m[q] = got;
	    if (c.kind != TH_NONE) for (size_t z = 1; z < got.size(); ++z) if (got[z] < got[z-1] || (!MULTI && got[z] == got[z-1])) { TRYT(c, a[q]->clear()); m[q].clear(); tot -= got.size(); c.kind = TH_CRASH; break; }	// a half done assignment may be out of order
	}
	counted(tot);
    }
    sim.step = 0;
    for (int i = 0; i < 2; ++i) LIB(a[i]->~C());
    counted(0);
}
//---------------------------------------------------------------- adapters
template <typename C, typename T, int KIND> struct adapt {
    static const T& top(C& c) { return c.top(); }
    static void copy(C& x, C& y) { C l (y); x.swap(l); }
};
template <typename C, typename T> struct adapt<C,T,K_QUEUE> {
    static const T& top(C& c) { c.back().alive("dead-element","the last element of the queue is not alive"); return c.front(); }
    static void copy(C& x, C& y) { C l (y); x.swap(l); }
};
template <typename C, typename T> struct adapt<C,T,K_PQ> {
    static const T& top(C& c) { return c.top(); }
    static void copy(C&, C&) {}
};
template <typename C, typename T, int KIND> void run_adapter(const Plan& p)
{
    static char mem [2][sizeof(C)] __attribute__((aligned(16)));
    C* a [2]; Vec<int> m [2];
    for (int i = 0; i < 2; ++i) LIB(a[i] = new (mem[i]) C);
    g_base = g_livetok;
    bool broken = false;	// a failure half way through a sift leaves the order open
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; const int op = st.op;
	Caught c; c.kind = TH_NONE;
	const int i = st.a[0] & 1, j = st.a[4] & 1; C& x = *a[i]; C& y = *a[j]; Vec<int> w (m[i]), wy (m[j]);
	const int val = (int)((uint64_t)st.a[3] % 37);
	switch (op) {
	    case OP_push: case OP_insert: case OP_insert_n: case OP_resize: case OP_emplace: case OP_reserve: TRYT(c, T t (val); x.push(t)); w.push(val); break;
	    case OP_push_move: case OP_emplace_back: case OP_insert_move: case OP_resize_v: TRYT(c, x.emplace(val)); w.push(val); break;
	    case OP_pop: case OP_erase: case OP_shrink: case OP_front_op: case OP_algo: {
		if (!w.size()) continue;
		size_t at = KIND == K_QUEUE ? 0 : w.size()-1;
		if (KIND == K_PQ) for (size_t q = 0; q < w.size(); ++q) if (w[q] > w[at]) at = q;
		TRYT(c, x.pop()); w.erase(at); break; }
	    case OP_swap: case OP_assign_n: TRYT(c, x.swap(y)); if (i != j) { w = m[j]; wy = m[i]; } break;
	    case OP_move: case OP_assign_range: if (i == j) continue; TRYT(c, x = move(y)); if (c.kind == TH_NONE) { w = m[j]; if (y.size() == m[i].size()) wy = m[i]; else wy.clear(); } break;
	    case OP_copy: case OP_construct_n: if (KIND == K_PQ) continue; TRYT(c, (adapt<C,T,KIND>::copy(x,y))); w = m[j]; break;
	    case OP_fresh: TRYT(c, C l; x.swap(l)); w.clear(); break;
	    default: continue;
	}
	judge(c);
	if (c.kind == TH_NONE) { m[i] = w; if (i != j) m[j] = wy; }
	else if (KIND == K_PQ) { broken = true; if (x.size() != m[i].size()) { if (x.size() > m[i].size()) m[i] = w; } }
	int64_t lo = 0, hi = 0;
	for (int q = 0; q < 2; ++q) {
	    if (a[q]->size() != m[q].size()) { sim_fail("M02","wrong-contents","adapter holds %llu elements, expected %llu",(unsigned long long)a[q]->size(),(unsigned long long)m[q].size()); sim_exit_run(); }
	    lo += m[q].size(); hi += KIND == K_QUEUE ? (int64_t)m[q].size()*2+1 : (int64_t)m[q].size();
	    if (m[q].size()) {
		const T& t = adapt<C,T,KIND>::top(*a[q]);
		t.alive("dead-element","the first element of the adapter is not a live object");
		size_t at = KIND == K_QUEUE ? 0 : m[q].size()-1;
		if (KIND == K_PQ) for (size_t z = 0; z < m[q].size(); ++z) if (m[q][z] > m[q][at]) at = z;
		if (!broken && t.val != m[q][at]) sim_fail("M02","wrong-contents","the first element of the adapter has value %d, expected %d",t.val,m[q][at]);
	    }
	}
	if (g_livetok-g_base < lo) sim_fail("M02","lost-element","%lld elements are alive, the containers hold %lld",(long long)(g_livetok-g_base),(long long)lo);
	if (g_livetok-g_base > hi) sim_fail("M02","element-leak","%lld elements are alive, the containers hold %lld",(long long)(g_livetok-g_base),(long long)lo);
    }
    sim.step = 0;
    for (int i = 0; i < 2; ++i) LIB(a[i]->~C());
    counted(0);
}
//---------------------------------------------------------------- raw storage
template <typename T> struct canmove { enum { yes = false }; };
template <> struct canmove<TokM> { enum { yes = true }; };
template <typename T> void run_raw(const Plan& p)
{
    enum { NRAW = 64 };
    static char pm [POOL][sizeof(T)] __attribute__((aligned(16))); T* pool = (T*)pm;
    for (int i = 0; i < POOL; ++i) LIB(new (pm[i]) T (i*7 % 23));
    g_base = g_livetok;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si];
	Caught c; c.kind = TH_NONE;
	const size_t n = (uint64_t)st.a[2] % 41, f = (uint64_t)st.a[1] % 8, v = (uint64_t)st.a[3] % POOL, rn = hmin(n,(size_t)POOL-v);
	T* m = (T*)arena_place(NRAW*sizeof(T),0); memset((void*)m,0xA5,NRAW*sizeof(T));
	T* const r = m + ((st.a[0] & 1) ? NRAW-n : f); T* e = 0; size_t made = rn; Vec<int> want; bool moved = false;
	if (n > 1) probe(P_MULTI);
	const int kind = (int)((uint64_t)st.op % 11); 
	switch (kind) {
	    case 0: TRYT(c, e = uninitialized_copy (pool+v,pool+v+rn,r)); break;
	    case 1: TRYT(c, e = uninitialized_copy_n (pool+v,rn,r)); break;
	    case 2: TRYT(c, uninitialized_fill (r,r+n,pool[v]); e = r+n); made = n; break;
	    case 3: TRYT(c, e = uninitialized_fill_n (r,n,pool[v])); made = n; break;
	    case 4: TRYT(c, uninitialized_default_construct (r,r+n); e = r+n); made = n; break;
	    case 5: TRYT(c, uninitialized_default_construct_n (r,n); e = r+n); made = n; break;
	    case 6: TRYT(c, uninitialized_value_construct (r,r+n); e = r+n); made = n; break;
	    case 7: TRYT(c, uninitialized_value_construct_n (r,n); e = r+n); made = n; break;
	    case 8: TRYT(c, construct (r,r+n); e = r+n); made = n; break;
	    case 9: TRYT(c, e = uninitialized_move (pool+v,pool+v+rn,r)); moved = true; break;
	    default: TRYT(c, e = uninitialized_move_n (pool+v,rn,r)); moved = true; break;
	}
	judge(c);
	for (size_t q = 0; q < made; ++q) want.push(kind < 2 || kind > 8 ? (int)((v+q)*7 % 23) : kind < 4 ? (int)(v*7 % 23) : 0);
	if (c.kind == TH_NONE) {
	    if (e != r+made) sim_fail("M02","wrong-contents","the algorithm returned element %lld of %llu",(long long)(e-r),(unsigned long long)made);
	    Vec<int> got; scan(r,r+made,got); eq("raw storage",got,want); counted(made);
	} else counted(0);	// nothing is left half made
	const uint8_t* b = (const uint8_t*)m;
	for (size_t i = 0; i < NRAW*sizeof(T); ++i) if ((b+i < (uint8_t*)r || b+i >= (uint8_t*)(r+made)) && b[i] != 0xA5) sim_fail("M02","outside-the-range","memory outside of the range was written to");
	if (c.kind == TH_NONE) { Caught d; if (st.a[5] & 1) TRYT(d, destroy (r,r+made)); else TRYT(d, destroy_n (r,made)); if (d.kind) sim_fail("M02","wrong-exception","destroying elements threw"); counted(0); }
	for (int q = 0; q < POOL; ++q) {
	    if (pool[q].magic != MAGIC || (pool[q].val != q*7 % 23 && !(moved && canmove<T>::yes && (size_t)q >= v && (size_t)q < v+rn && pool[q].val == -1))) sim_fail("M02","wrong-contents","an element copied from was changed");
	    if (pool[q].val == -1) pool[q].val = q*7 % 23;
	}
    }
    sim.step = 0;
    for (int i = 0; i < POOL; ++i) LIB(pool[i].~T());
}
void exec(const Plan& p)
{
    switch ((int)((uint64_t)p.cfg[C_KIND] % K_N)) {
	case K_VECC: probe(P_VEC); run_seq<vector<TokC>,TokC>(p); break;
	case K_VECM: probe(P_VEC); run_seq<vector<TokM>,TokM>(p); break;
	case K_LIST: probe(P_LIST); run_seq<list<TokM>,TokM>(p); break;
	case K_SETC: probe(P_SET); run_sorted<set<TokC>,TokC,false,TokC>(p); break;
	case K_MSETM: probe(P_SET); run_sorted<multiset<TokM>,TokM,true,TokM>(p); break;
	case K_MAP: probe(P_MAP); run_sorted<map<int,TokM>,pair<int,TokM>,false,int>(p); break;
	case K_MMAP: probe(P_MAP); run_sorted<multimap<int,TokC>,pair<int,TokC>,true,int>(p); break;
	case K_QUEUE: probe(P_QUEUE); run_adapter<queue<TokM>,TokM,K_QUEUE>(p); break;
	case K_STACK: probe(P_STACK); run_adapter<stack<TokC>,TokC,K_STACK>(p); break;
	case K_RAWC: probe(P_RAW); run_raw<TokC>(p); break;
	case K_RAWM: probe(P_RAW); run_raw<TokM>(p); break;
	case K_PQ: probe(P_PQ); run_adapter<priority_queue<TokC>,TokC,K_PQ>(p); break;
    }
    arena_check_leaks("M02","after destroying every container");
}
const Scenario S = { "tok", "M02", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
