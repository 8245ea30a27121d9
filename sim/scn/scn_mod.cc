// Containers against mathematical models, through long histories, with allocations that fail.
#include "common.h"
using namespace ustl;

namespace {
enum { R = 32 };	// distinct keys
const int g_ints [R] = { -2147483647-1,-2147483647,-1000000,-65536,-32769,-256,-129,-100,-17,-9,-5,-2,-1,0,1,2,3,4,7,8,15,16,100,127,128,255,256,32767,65535,1000000,2147483646,2147483647 };
const char* const g_txts [R] = { "","0","00","1","A","Z","a","aa","aaa","aaaa","aaab","ab","abc","b","ba","bb","cat","catalogue","cats","dog","e","long key that does not fit into any small buffer, number 1","long key that does not fit into any small buffer, number 2","m","n","nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn","o","x","xylophone","y","z","zz" };
template <typename T> struct El;
template <> struct El<int> {
    static int make(int r) { return g_ints[r]; }
    static int rank(const int& v) { for (int i = 0; i < R; ++i) if (g_ints[i] == v) return i; return v ? -1 : 13; }
    enum { dflt = 13, allocs = 0 };
};
template <> struct El<string> {
    static string make(int r) { return string (g_txts[r]); }
    static int rank(const string& s) {
	for (int i = 0; i < R; ++i) if (s.size() == strlen(g_txts[i]) && (!s.size() || !memcmp(s.data(),g_txts[i],s.size()))) { if (s.size() && s.c_str()[s.size()]) return -2; return i; }
	return -1;
    }
    enum { dflt = 0, allocs = 1 };
};
struct KV { int k, v; };
bool operator!=(const KV& a, const KV& b) { return a.k != b.k || a.v != b.v; }

#define OPLIST(X) X(insert) X(insert_tmp) X(insert_hint) X(emplace) X(emplace_hint) X(push_back) X(index) X(erase_key) X(erase_pos) X(erase_range) X(insert_range) X(insert_list) X(find) X(bounds) X(modify) X(copy) X(assign) X(assign_range) X(move) X(swap) X(clear) X(compare) X(tidy) X(construct) X(push) X(pop) X(ends) X(resize) X(fill) X(algo) X(splice) X(merge) X(reverse_walk) X(forms)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_KIND, N_CFG };
const char* const CFG [N_CFG] = { "container" };
enum { K_SET_I, K_SET_S, K_SET_IG, K_MSET_S, K_MSET_IG, K_MAP_IS, K_MAP_SI, K_MAP_SS, K_MAP_IIG, K_MM_II, K_MM_SS, K_MM_SIG, K_VEC_I, K_VEC_S, K_LIST_I, K_LIST_S, K_QUEUE_I, K_QUEUE_S, K_STACK_S, K_STACK_LI, K_PQ_I, K_PQ_IG, K_SET_IC, K_SET_SC, K_MSET_IC, K_MAP_SIC, K_MM_IIC, K_PQ_S, K_PQ_ID, K_N };
enum { P_ALLOC, P_UNCHANGED, P_HIT, P_MISS, P_DUP, P_BIG, P_SET, P_MSET, P_MAP, P_MMAP, P_SEQ, P_ADAPT, P_ERASED_MANY, P_COMPACT, N_PROBES };
const char* const PROBES [N_PROBES] = { "allocation_failed","single_operation_failed_and_left_contents","key_found","key_absent","duplicate_key_inserted","more_than_50_elements","set_run","multiset_run","map_run","multimap_run","sequence_run","adapter_run","several_erased_by_key","queue_popped_many" };

void gen(Rng& r, Plan& p, bool faults)
{
    p.cfg[C_KIND] = r.below(K_N);
    const int n = 4 + (int)r.skewed(r.chance(200) ? 250 : 60);
    const int64_t keys = r.chance(300) ? 4 : r.chance(500) ? 12 : R;
    // each history favours some operations
    int fav [6]; for (int i = 0; i < 6; ++i) fav[i] = (int)r.below(N_OPS);
    const bool grow = r.chance(500);
    for (int i = 0; i < n; ++i) {
	const int op = r.chance(250) ? fav[r.below(6)] : grow && r.chance(300) ? (int)r.below(7) : (int)r.below(N_OPS);
	Step& st = p.add(op,r.below(2),r.below(keys),r.below(R),r.below(1000),r.chance(800) ? r.below(2) : 0,r.below(1000));
	if (faults && r.chance(200)) addfault(st,F_ALLOC,(int)r.skewed(4),1+(int)r.skewed(3),0);
    }
}
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0)
{
    sim_fail("M03",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b);
}
void judge(const Caught& c, bool single)
{
    if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (single) probe(P_UNCHANGED); if (!sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed"); }
    else if (c.kind != TH_NONE) bad("wrong-exception","threw something else than bad_alloc");
}
//---------------------------------------------------------------- sorted containers
// Uniform view of set-like and map-like containers.
template <typename T> struct SetTr {
    typedef T key; typedef T value;
    static value make(int k, int) { return El<T>::make(k); }
    static KV kv(const T& v) { KV r = { El<T>::rank(v), 0 }; return r; }
    enum { map = 0 };
};
template <typename K, typename V> struct MapTr {
    typedef K key; typedef pair<K,V> value;
    static value make(int k, int v) { return value (El<K>::make(k),El<V>::make(v)); }
    static KV kv(const value& v) { KV r = { El<K>::rank(v.first), El<V>::rank(v.second) }; return r; }
    enum { map = 1 };
};
// operations only some containers have
template <typename C, typename Tr, bool MULTI, bool MAP> struct Extra;
template <typename C, typename Tr> struct Extra<C,Tr,false,false> {	// set
    static bool index(Caught&, C&, int, int, int*) { return false; }
    static size_t insert(C& c, const typename Tr::value& v, bool* fresh) { auto r = c.insert(v); *fresh = r.second; return r.first - c.begin(); }
    static size_t insert_tmp(C& c, typename Tr::value&& v, bool* fresh) { auto r = c.insert(move(v)); *fresh = r.second; return r.first - c.begin(); }
    static size_t emplace(C& c, typename Tr::value&& v, bool* fresh) { auto r = c.emplace(move(v)); *fresh = r.second; return r.first - c.begin(); }
    static void erase_key(C& c, const typename Tr::key& k, long* n) { *n = -1; c.erase(k); }
    static size_t hint(C& c, size_t h, const typename Tr::value& v) { return c.insert(c.begin()+h,v) - c.begin(); }
    static bool modify(C&, size_t, int) { return false; }
    static int at(C&, int, int) { return -1; }
    static size_t find_data(C&, int, size_t, size_t, int) { return 0; }
};
template <typename C, typename Tr> struct Extra<C,Tr,true,false> {	// multiset
    static bool index(Caught&, C&, int, int, int*) { return false; }
    static size_t insert(C& c, const typename Tr::value& v, bool* fresh) { *fresh = true; return c.insert(v) - c.begin(); }
    static size_t insert_tmp(C& c, typename Tr::value&& v, bool* fresh) { *fresh = true; return c.insert(move(v)) - c.begin(); }
    static size_t emplace(C& c, typename Tr::value&& v, bool* fresh) { *fresh = true; return c.emplace(move(v)) - c.begin(); }
    static void erase_key(C& c, const typename Tr::key& k, long* n) { *n = c.erase(k); }
    static size_t hint(C& c, size_t h, const typename Tr::value& v) { return c.insert(c.begin()+h,v) - c.begin(); }
    static bool modify(C&, size_t, int) { return false; }
    static int at(C&, int, int) { return -1; }
    static size_t find_data(C&, int, size_t, size_t, int) { return 0; }
};
template <typename C, typename Tr> struct Extra<C,Tr,true,true> {	// multimap
    typedef decltype(Tr::make(0,0).second) V;
    static bool index(Caught&, C&, int, int, int*) { return false; }
    static size_t insert(C& c, const typename Tr::value& v, bool* fresh) { *fresh = true; return c.insert(v) - c.begin(); }
    static size_t insert_tmp(C& c, typename Tr::value&& v, bool* fresh) { *fresh = true; return c.insert(move(v)) - c.begin(); }
    static size_t emplace(C& c, typename Tr::value&& v, bool* fresh) { *fresh = true; return c.emplace(move(v)) - c.begin(); }
    static void erase_key(C& c, const typename Tr::key& k, long* n) { *n = -1; c.erase(k); }
    static size_t hint(C&, size_t, const typename Tr::value&) { return 0; }
    static bool modify(C& c, size_t i, int v) { c.begin()[i].second = El<V>::make(v); return true; }
    static int at(C&, int, int) { return -1; }
    static size_t find_data(C&, int, size_t, size_t, int) { return 0; }
};
template <typename C, typename Tr> struct Extra<C,Tr,false,true> {	// map
    typedef decltype(Tr::make(0,0).second) V;
    static bool index(Caught& c, C& m, int k, int v, int* was) {
	V* p = 0;
	TRY(c, typename Tr::key kk (El<typename Tr::key>::make(k)); V& r = m[kk]; p = &r);
	if (c.kind) return true;
	*was = El<V>::rank(*p);
	if (v >= 0) { HxScope hx; LIB(*p = El<V>::make(v)); }
	return true;
    }
    static size_t insert(C& c, const typename Tr::value& v, bool* fresh) { auto r = c.insert(v); *fresh = r.second; return r.first - c.begin(); }
    static size_t insert_tmp(C& c, typename Tr::value&& v, bool* fresh) { auto r = c.insert(move(v)); *fresh = r.second; return r.first - c.begin(); }
    static size_t emplace(C& c, typename Tr::value&& v, bool* fresh) { auto r = c.emplace(move(v)); *fresh = r.second; return r.first - c.begin(); }
    static void erase_key(C& c, const typename Tr::key& k, long* n) { *n = -1; c.erase(k); }
    static size_t hint(C& c, size_t h, const typename Tr::value& v) { return c.insert(c.begin()+h,v) - c.begin(); }
    static bool modify(C& c, size_t i, int v) { c.begin()[i].second = El<V>::make(v); return true; }
    static int at(C& c, int k, int form) { const C& cc = c; typename Tr::key kk (El<typename Tr::key>::make(k)); return El<V>::rank(form % 3 == 0 ? cc.at(kk) : form % 3 == 1 ? cc[kk] : c.at(kk)); }
    static size_t find_data(C& c, int v, size_t from, size_t to, int form) {
	const C& k = c;
	switch (form) {
	    case 0: return c.find_data(El<V>::make(v),c.begin()+from) - c.begin();
	    case 1: return k.find_data(El<V>::make(v),k.begin()+from) - k.begin();
	    case 2: return c.find_data(El<V>::make(v),c.begin()+from,c.begin()+to) - c.begin();
	    default: return k.find_data(El<V>::make(v),k.begin()+from,k.begin()+to) - k.begin();
	}
    }
};
// an order under which different keys may be equivalent
template <typename T> struct Coarse { bool operator() (const T& a, const T& b) const { return El<T>::rank(a)/4 < El<T>::rank(b)/4; } };
enum { LESS, GREATER, COARSE };
template <typename C, typename Tr, bool MULTI, int ORD> void run_sorted(const Plan& p)
{
    typedef typename Tr::key K; typedef Extra<C,Tr,MULTI,Tr::map> X;
    static char mem [2][sizeof(C)] __attribute__((aligned(16)));
    C* a [2]; Vec<KV> m [2];
    for (int i = 0; i < 2; ++i) LIB(a[i] = new (mem[i]) C);
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; const int op = st.op; what = OPS[op];
	Caught c; c.kind = TH_NONE;
	const int i = st.a[0] & 1, j = st.a[4] & 1; C& x = *a[i]; C& y = *a[j]; Vec<KV> w (m[i]), wy (m[j]);
	const int k = (int)((uint64_t)st.a[1] % R), v = Tr::map ? (int)((uint64_t)st.a[2] % R) : 0;
	const size_t sz = w.size(), n3 = (uint64_t)st.a[3], n5 = (uint64_t)st.a[5];
	#define CL(kk) (ORD == COARSE ? (kk)/4 : (kk))
	#define ORDER(k1,k2) (ORD == GREATER ? (k1) > (k2) : CL(k1) < CL(k2))
	#define BEFORE(q,kk) ORDER(w[q].k,kk)
	size_t lo = 0; while (lo < sz && BEFORE(lo,k)) ++lo;
	size_t hi = lo; while (hi < sz && CL(w[hi].k) == CL(k)) ++hi;
	const bool have = hi > lo, goes = MULTI || !have;
	const size_t pos = MULTI ? hi : lo;
	const KV e = { k, v };
	bool single = false, checkpos = false, fresh = goes; size_t at = pos;
	if (have && op <= OP_push_back) probe(P_DUP);
	switch (op) {
	    case OP_insert: case OP_push: case OP_resize: single = checkpos = true; TRY(c, typename Tr::value t (Tr::make(k,v)); at = X::insert(x,t,&fresh)); if (goes) w.insert(pos,e); break;
	    case OP_insert_tmp: case OP_fill: single = checkpos = true; TRY(c, at = X::insert_tmp(x,Tr::make(k,v),&fresh)); if (goes) w.insert(pos,e); break;
	    case OP_insert_hint: single = checkpos = true; if ((n3 & 1) && !(Tr::map && MULTI)) TRY(c, typename Tr::value t (Tr::make(k,v)); at = X::hint(x,n5 % (sz+1),t)); else TRY(c, at = x.insert(x.begin()+n5 % (sz+1),Tr::make(k,v)) - x.begin()); if (goes) w.insert(pos,e); break;
	    case OP_emplace: single = checkpos = true; TRY(c, at = X::emplace(x,Tr::make(k,v),&fresh)); if (goes) w.insert(pos,e); break;
	    case OP_emplace_hint: single = checkpos = true; TRY(c, at = x.emplace_hint(x.begin()+n5 % (sz+1),Tr::make(k,v)) - x.begin()); if (goes) w.insert(pos,e); break;
	    case OP_push_back: single = true; if (n3 & 1) TRY(c, typename Tr::value t (Tr::make(k,v)); x.push_back(t)); else TRY(c, x.emplace_back(Tr::make(k,v))); if (goes) w.insert(pos,e); break;
	    case OP_index: {
		single = true; int was = -1;
		if (!Tr::map || MULTI) continue;
		if (sim.allocfaults) {	// only look: assigning is a second operation
		    X::index(c,x,k,-1,&was);
		    if (!have) { KV z = { k, was }; w.insert(pos,z); }
		} else { X::index(c,x,k,v,&was); if (have) w[lo].v = v; else w.insert(pos,e); }
		if (!c.kind && have && was != m[i][lo].v) bad("wrong-value","operator[] refers to another element's data",was,m[i][lo].v);
		if (!c.kind && !have && was != 0 && was != 13) bad("wrong-value","operator[] of an absent key does not make a default value",was,0);
		break; }
	    case OP_erase_key: case OP_pop: {
		long n = -1; TRY(c, K kk (El<K>::make(k)); X::erase_key(x,kk,&n));
		if (!c.kind && n >= 0 && n != (long)(hi-lo)) bad("wrong-result","number of erased elements",n,hi-lo);
		if (hi > lo+1) probe(P_ERASED_MANY);
		w.erase(lo,hi-lo); single = true; break; }
	    case OP_erase_pos: { if (!sz) continue; const size_t q = n5 % sz; TRY(c, at = x.erase(x.begin()+q) - x.begin()); w.erase(q); if (!c.kind && at != q) bad("wrong-result","erase returned another position",at,q); break; }
	    case OP_erase_range: { const size_t q = n5 % (sz+1), l = n3 % (sz-q+1); TRY(c, x.erase(x.begin()+q,x.begin()+q+l)); w.erase(q,l); break; }
	    case OP_insert_range: case OP_splice: case OP_merge:
		if (i == j || sz + m[j].size() > 300) continue;
		TRY(c, x.insert(y.begin(),y.end()));
		for (size_t q = 0; q < m[j].size(); ++q) { size_t z = 0; while (z < w.size() && (BEFORE(z,m[j][q].k) || (MULTI && CL(w[z].k) == CL(m[j][q].k)))) ++z; if (MULTI || z >= w.size() || CL(w[z].k) != CL(m[j][q].k)) w.insert(z,m[j][q]); }
		break;
	    case OP_insert_list: case OP_algo: {
		const int k2 = (int)(n3 % R);
		const KV e2 [3] = { e, { k2, v }, { k, k2 } };
		TRY(c, x.insert({ Tr::make(k,v), Tr::make(k2,v), Tr::make(k,Tr::map ? k2 : 0) }));
		for (int q = 0; q < 3; ++q) { KV f = e2[q]; if (!Tr::map) f.v = 0; size_t z = 0; while (z < w.size() && (BEFORE(z,f.k) || (MULTI && CL(w[z].k) == CL(f.k)))) ++z; if (MULTI || z >= w.size() || CL(w[z].k) != CL(f.k)) w.insert(z,f); }
		break; }
	    case OP_find: case OP_ends: {
		size_t f = 0, fc = 0, cn = 0;
		TRY(c, K kk (El<K>::make(k)); f = x.find(kk) - x.begin(); fc = const_cast<const C&>(x).find(kk) - x.begin(); cn = x.count(kk));
		if (c.kind) break;
		probe(have ? P_HIT : P_MISS);
		if (have ? f < lo || f >= hi : f != sz) bad("wrong-result","find",f,have ? lo : sz);
		if (fc != f) bad("wrong-result","find on a constant container",fc,f);
		if (cn != hi-lo) bad("wrong-result","count",cn,hi-lo);
		break; }
	    case OP_bounds: {
		size_t l = 0, u = 0, r1 = 0, r2 = 0, c1 = 0, c2 = 0;
		TRY(c, K kk (El<K>::make(k)); const C& cx = x; l = x.lower_bound(kk) - x.begin(); u = x.upper_bound(kk) - x.begin(); auto r = x.equal_range(kk); r1 = r.first - x.begin(); r2 = r.second - x.begin(); c1 = cx.lower_bound(kk) - cx.begin(); auto cr = cx.equal_range(kk); c2 = cr.second - cx.begin());
		if (c.kind) break;
		if (l != lo || c1 != lo) bad("wrong-result","lower_bound",l,lo);
		if (u != hi) bad("wrong-result","upper_bound",u,hi);
		if (r1 != lo || r2 != hi || c2 != hi) bad("wrong-result","equal_range",r1 != lo ? r1 : r2,r1 != lo ? lo : hi);
		break; }
	    case OP_modify: {
		if (!Tr::map || !sz) continue;
		const size_t q = n5 % sz;
		if (n3 & 1 && !MULTI) {
		    size_t f = 0; const int form = (v+n3/2) & 3; const size_t e = form < 2 ? sz : q + (size_t)(n3/2) % (sz-q+1); TRY(c, f = X::find_data(x,v,q,e,form));
		    size_t z = q; while (z < e && w[z].v != v) ++z;
		    if (!c.kind && f != z) bad("wrong-result","find_data",f,z);
		} else { TRY(c, X::modify(x,q,v)); w[q].v = v; single = true; }
		break; }
	    case OP_copy: case OP_construct: if (n3 & 1) TRY(c, C l (y.begin(),y.end()); x.swap(l)); else TRY(c, C l (y); x.swap(l)); w = m[j]; single = true; break;
	    case OP_assign: TRY(c, x = y); w = m[j]; break;
	    case OP_assign_range: { if (i == j) continue; const size_t q = n5 % (m[j].size()+1), l = n3 % (m[j].size()-q+1); TRY(c, x.assign(y.begin()+q,y.begin()+q+l)); w.clear(); for (size_t z = q; z < q+l; ++z) w.push(m[j][z]); break; }
	    case OP_move: if (i == j) continue; TRY(c, x = move(y)); w = m[j]; if (!c.kind) { wy.clear(); for (auto z = y.begin(); z != y.end(); ++z) wy.push(Tr::kv(*z)); } single = true; break;
	    case OP_swap: TRY(c, x.swap(y)); if (i != j) { w = m[j]; wy = m[i]; } break;
	    case OP_clear: TRY(c, x.clear()); w.clear(); break;
	    case OP_compare: { bool eq = false; TRY(c, eq = x == y); const bool e2 = i == j || (w.size() == m[j].size() && (!w.size() || !memcmp(w.data(),m[j].data(),w.size()*sizeof(KV)))); if (!c.kind && eq != e2) bad("wrong-result","equality",eq,e2); break; }
	    case OP_tidy: single = true; switch (n3 % 3) { case 0: TRY(c, x.shrink_to_fit()); break; case 1: TRY(c, x.reserve(sz+n5 % 40)); break; default: TRY(c, x.clear(); x.deallocate()); w.clear(); break; } break;
	    case OP_forms: switch (n5 % 6) {
		case 0: { const int k2 = (int)(n3 % R); const KV e2 [3] = { { k2, v }, e, { k, k2 } };
		    TRY(c, C l { Tr::make(k2,v), Tr::make(k,v), Tr::make(k,Tr::map ? k2 : 0) }; x.swap(l)); single = true; w.clear();
		    for (int q = 0; q < 3; ++q) { KV f = e2[q]; if (!Tr::map) f.v = 0; size_t z = 0; while (z < w.size() && (BEFORE(z,f.k) || (MULTI && CL(w[z].k) == CL(f.k)))) ++z; if (MULTI || z >= w.size() || CL(w[z].k) != CL(f.k)) w.insert(z,f); }
		    break; }
		case 1: { single = true; size_t left = 0; TRY(c, C l (move(y)); left = y.size(); x.swap(l)); if (i != j) { w = m[j]; wy.clear(); } if (!c.kind && left) bad("wrong-contents","elements left in the container moved from",left,0); break; }
		case 2: { if (!sz) continue; const size_t q1 = n3 % sz, q2 = n3/7 % sz; bool r1 = false, r2 = false; const C& cx = x;
		    TRY(c, r1 = cx.key_comp()(El<K>::make(w[q1].k),El<K>::make(w[q2].k)); r2 = cx.value_comp()(cx.begin()[q1],cx.begin()[q2]));
		    if (!c.kind && (r1 != ORDER(w[q1].k,w[q2].k) || r2 != r1)) bad("wrong-result","the order of the container",r1,r2); break; }
		case 3: { const C& cx = x; bool ok = true; size_t q = 0; for (auto z = cx.cbegin(); z != cx.cend() && q < sz; ++z, ++q) if (Tr::kv(*z) != w[q]) ok = false; if (!ok || q != sz) bad("wrong-result","walking a constant container",q,sz);
		    q = 0; for (auto z = cx.crbegin(); z != cx.crend() && q < sz; ++z, ++q) if (Tr::kv(*z) != w[sz-1-q]) ok = false; if (!ok || q != sz) bad("wrong-result","walking a constant container backwards",q,sz);
		    if (sz && (Tr::kv(cx.front()) != w[0] || Tr::kv(cx.back()) != w[sz-1] || Tr::kv(*cx.data()) != w[0] || Tr::kv(cx.cdata()[sz-1]) != w[sz-1] || Tr::kv(*cx.iat(n3 % sz)) != w[n3 % sz])) bad("wrong-result","the ends of a constant container"); if (cx.max_size() < sz) bad("wrong-result","max_size",cx.max_size(),sz); break; }
		case 4: { single = true; TRY(c, ::ustl::swap (x,y)); if (i != j) { w = m[j]; wy = m[i]; } break; }
		default: { if (!Tr::map || MULTI || !have) continue; int got = -1; TRY(c, got = X::at(x,k,(int)n3)); if (!c.kind && got != w[lo].v) bad("wrong-value","at",got,w[lo].v); break; }
		}
		break;
	    default: { size_t q = 0; bool ok = true; for (auto z = x.rbegin(); z != x.rend() && q < sz; ++z, ++q) { const KV g = Tr::kv(*z); if (g != m[i][sz-1-q]) ok = false; } if (!ok || q != sz) bad("wrong-result","walking backwards",q,sz); break; }
	}
	judge(c,single);
	if (!c.kind && checkpos) {
	    if (fresh != goes) bad("wrong-result","insertion reported",fresh,goes);
	    if (MULTI ? at < lo || at > hi : at != pos) bad("wrong-result","position returned by the insertion",at,pos);
	}
	for (int q = 0; q < 2; ++q) {
	    const size_t n = a[q]->size();
	    if (n > 5000) bad("broken-container","size",n,m[q].size());
	    if (a[q]->empty() != !n || (size_t)(a[q]->end()-a[q]->begin()) != n) bad("broken-container","size, empty and the iterators disagree",n,a[q]->end()-a[q]->begin());
	    Vec<KV> got; for (size_t z = 0; z < n; ++z) { got.push(Tr::kv(a[q]->begin()[z])); if (got[z].k < 0 || got[z].v < 0) bad("broken-element","element holds a value never stored",z,n); }
	    const Vec<KV>& want = c.kind && (single || q != i) ? m[q] : q == i ? w : q == j ? wy : m[q];
	    if (!c.kind || single || q != i) {
		if (got.size() != want.size()) bad(c.kind ? "changed-by-failure" : "wrong-contents","number of elements",got.size(),want.size());
		for (size_t z = 0; z < got.size(); ++z) if (got[z] != want[z]) bad(c.kind ? "changed-by-failure" : "wrong-contents","first difference at element",z,got[z].k != want[z].k ? want[z].k : want[z].v);
	    }
	    m[q] = got;
	    if (c.kind && q == i && !single) {
		bool sorted = true; for (size_t z = 1; z < got.size(); ++z) { w = got; if (MULTI ? ORDER(got[z].k,got[z-1].k) : !ORDER(got[z-1].k,got[z].k)) sorted = false; }
		if (!sorted && op != OP_assign) bad("wrong-contents","a failed operation left the elements out of order");
		if (!sorted) { LIB(a[q]->clear()); m[q].clear(); }
	    }
	    if (n > 50) probe(P_BIG);
	}
	if (m[i].size() > 300) { LIB(x.clear()); m[i].clear(); }
    }
    sim.step = 0;
    for (int i = 0; i < 2; ++i) LIB(a[i]->~C());
}
//---------------------------------------------------------------- sequences
template <typename C, typename T> struct seqx { static bool go(Caught&, const Step&, C&, C&, Vec<int>&, Vec<int>&, bool&) { return false; } };
bool odd(const int& v) { return v & 1; }
bool odd(const string& v) { return v.size() & 1; }
template <typename T> bool oddp(const T& v) { return odd(v); }
template <typename T> struct seqx<list<T>,T> {
    static bool go(Caught& c, const Step& st, list<T>& a, list<T>& b, Vec<int>& m, Vec<int>& mb, bool& single) {
	const int k = (int)((uint64_t)st.a[1] % R); const size_t n3 = (uint64_t)st.a[3], n5 = (uint64_t)st.a[5];
	switch (st.op) {
	    case OP_ends: single = true;
		if (!m.size() || n3 % 3) { if (n3 & 1) TRY(c, T t (El<T>::make(k)); a.push_front(t)); else if (n3 & 2) TRY(c, a.push_front(El<T>::make(k))); else TRY(c, a.emplace_front(El<T>::make(k))); m.insert(0,k); }
		else { TRY(c, a.pop_front()); m.erase(0); }
		return true;
	    case OP_algo: {
		Vec<int> n;
		switch (n3 % 5) {
		    case 0: TRY(c, T t (El<T>::make(k)); a.remove(t)); for (size_t i = 0; i < m.size(); ++i) if (m[i] != k) n.push(m[i]); break;
		    case 1: TRY(c, a.unique()); for (size_t i = 0; i < m.size(); ++i) if (!i || m[i] != m[i-1]) n.push(m[i]); break;
		    case 2: TRY(c, a.reverse()); for (size_t i = m.size(); i--;) n.push(m[i]); break;
		    case 3: TRY(c, a.remove_if(&oddp<T>)); for (size_t i = 0; i < m.size(); ++i) { T t (El<T>::make(m[i])); if (!oddp(t)) n.push(m[i]); } break;
		    default: TRY(c, a.sort()); n = m; for (size_t i = 1; i < n.size(); ++i) for (size_t j = i; j && n[j] < n[j-1]; --j) { int x = n[j]; n[j] = n[j-1]; n[j-1] = x; } break;
		}
		m = n; return true; }
	    case OP_splice: {
		if (&a == &b) return false;
		const size_t ip = n5 % (m.size()+1), f = n3 % (mb.size()+1), l = n3/7 % (mb.size()-f+1);
		const bool all = st.a[2] & 1;
		if (!all && !l) return false;
		if (all) TRY(c, a.splice(a.begin()+ip,b)); else TRY(c, a.splice(a.begin()+ip,b,b.begin()+f,b.begin()+f+l));
		const size_t s = all ? 0 : f, cnt = all ? mb.size() : l;
		for (size_t q = 0; q < cnt; ++q) m.insert(ip+q,mb[s+q]);
		mb.erase(s,cnt);
		single = true;
		return true; }
	    case OP_merge: {
		if (&a == &b) return false;
		for (size_t i = 1; i < m.size(); ++i) if (m[i-1] > m[i]) return false;
		for (size_t i = 1; i < mb.size(); ++i) if (mb[i-1] > mb[i]) return false;
		TRY(c, a.merge(b));
		Vec<int> n; size_t i = 0, j = 0; while (i < m.size() || j < mb.size()) if (j >= mb.size() || (i < m.size() && m[i] <= mb[j])) n.push(m[i++]); else n.push(mb[j++]);
		m = n; return true; }
	    default: return false;
	}
    }
};
template <typename C, typename T> void run_seq(const Plan& p)
{
    static char mem [2][sizeof(C)] __attribute__((aligned(16)));
    C* a [2]; Vec<int> m [2]; T* pool; static char pm [R][sizeof(T)] __attribute__((aligned(16)));
    pool = (T*)pm; for (int i = 0; i < R; ++i) LIB(new (pm[i]) T (El<T>::make(i)));
    for (int i = 0; i < 2; ++i) LIB(a[i] = new (mem[i]) C);
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; const int op = st.op; what = OPS[op];
	Caught c; c.kind = TH_NONE;
	const int i = st.a[0] & 1, j = st.a[4] & 1; C& x = *a[i]; C& y = *a[j]; Vec<int> w (m[i]), wy (m[j]);
	const int k = (int)((uint64_t)st.a[1] % R);
	const size_t sz = w.size(), n3 = (uint64_t)st.a[3], n5 = (uint64_t)st.a[5], at = n5 % (sz+1), n = n3 % 20, pn = hmin((size_t)R-k,n);
	bool single = false; size_t got = at; bool ckat = false;
	switch (op) {
	    case OP_insert: single = ckat = true; TRY(c, got = x.insert(x.begin()+at,pool[k]) - x.begin()); w.insert(at,k); break;
	    case OP_insert_tmp: case OP_insert_hint: single = ckat = true; TRY(c, got = x.insert(x.begin()+at,El<T>::make(k)) - x.begin()); w.insert(at,k); break;
	    case OP_emplace: case OP_emplace_hint: single = ckat = true; TRY(c, got = x.emplace(x.begin()+at,pool[k]) - x.begin()); w.insert(at,k); break;
	    case OP_push_back: case OP_push: single = true; if (n3 & 1) TRY(c, x.push_back(pool[k])); else if (n3 & 2) TRY(c, x.push_back(El<T>::make(k))); else TRY(c, x.emplace_back(El<T>::make(k))); w.push(k); break;
	    case OP_index: case OP_modify: if (!sz) continue; single = true; if (n3 & 1) TRY(c, x[n5 % sz] = pool[k]); else TRY(c, x.at(n5 % sz) = El<T>::make(k)); w[n5 % sz] = k; break;
	    case OP_erase_pos: case OP_erase_key: if (!sz) continue; TRY(c, got = x.erase(x.begin()+n5 % sz) - x.begin()); if (!c.kind && got != n5 % sz) bad("wrong-result","erase returned another position",got,n5 % sz); w.erase(n5 % sz); break;
	    case OP_erase_range: { const size_t l = n3 % (sz-at+1); if (n5 & 1) TRY(c, x.erase(x.begin()+at,x.begin()+at+l)); else TRY(c, x.erase(x.begin()+at,l)); w.erase(at,l); break; }
	    case OP_insert_range: ckat = true; TRY(c, got = x.insert(x.begin()+at,pool+k,pool+k+pn) - x.begin()); for (size_t q = 0; q < pn; ++q) w.insert(at+q,k+(int)q); single = true; break;
	    case OP_insert_list: ckat = true; TRY(c, got = x.insert(x.begin()+at,{ El<T>::make(k), El<T>::make(n3 % R) }) - x.begin()); w.insert(at,n3 % R); w.insert(at,k); single = true; break;
	    case OP_find: { size_t f = 0; TRY(c, f = ::ustl::find(x.begin(),x.end(),pool[k]) - x.begin()); size_t z = 0; while (z < sz && w[z] != k) ++z; if (!c.kind && f != z) bad("wrong-result","find",f,z); break; }
	    case OP_bounds: { if (!sz) continue; const int f = El<T>::rank(x.front()), b = El<T>::rank(x.back()), d = El<T>::rank(*(x.end()-1)); if (f != w[0]) bad("wrong-result","front",f,w[0]); if (b != w[sz-1] || d != b) bad("wrong-result","back",b,w[sz-1]); break; }
	    case OP_copy: if (n3 & 1) TRY(c, C l (y.begin(),y.end()); x.swap(l)); else TRY(c, C l (y); x.swap(l)); w = m[j]; single = true; break;
	    case OP_construct: switch (n5 % 3) {
		case 0: TRY(c, C l (n,pool[k]); x.swap(l)); w.clear(); w.insert_n(0,n,k); break;
		case 1: TRY(c, C l (n); x.swap(l)); w.clear(); w.insert_n(0,n,El<T>::dflt); break;
		default: TRY(c, C l { El<T>::make(k), El<T>::make(n3 % R) }; x.swap(l)); w.clear(); w.push(k); w.push(n3 % R); break; }
		single = true; break;
	    case OP_assign: TRY(c, static_cast<vector<T>&>(x) = static_cast<const vector<T>&>(y)); w = m[j]; break;
	    case OP_assign_range: { if (i == j) continue; const size_t q = n5 % (m[j].size()+1), l = n3 % (m[j].size()-q+1); TRY(c, x.assign(y.begin()+q,y.begin()+q+l)); w.clear(); for (size_t z = q; z < q+l; ++z) w.push(m[j][z]); break; }
	    case OP_fill: if (n5 & 1) TRY(c, x.assign(n,pool[k])); else { TRY(c, x.insert(x.begin()+at,n,pool[k])); single = true; } if (n5 & 1) w.clear(); w.insert_n(n5 & 1 ? 0 : at,n,k); break;
	    case OP_resize: single = true; if (n5 & 1) TRY(c, x.resize(n)); else TRY(c, x.resize(n,pool[k])); if (n < sz) w.setn(n); else w.insert_n(sz,n-sz,n5 & 1 ? (int)El<T>::dflt : k); break;
	    case OP_move: if (i == j) continue; TRY(c, x = move(y)); w = m[j]; if (!c.kind) { wy.clear(); for (auto z = y.begin(); z != y.end(); ++z) wy.push(El<T>::rank(*z)); } single = true; break;
	    case OP_swap: TRY(c, x.swap(y)); if (i != j) { w = m[j]; wy = m[i]; } break;
	    case OP_clear: TRY(c, x.clear()); w.clear(); break;
	    case OP_pop: if (!sz) continue; TRY(c, x.pop_back()); w.pop(); break;
	    case OP_compare: { bool eq = false; TRY(c, eq = x == y); const bool e2 = i == j || w == m[j]; if (!c.kind && eq != e2) bad("wrong-result","equality",eq,e2); break; }
	    case OP_tidy: single = true; switch (n3 % 3) { case 0: TRY(c, x.shrink_to_fit()); break; case 1: TRY(c, x.reserve(sz+n5 % 40)); if (!c.kind && x.capacity() < sz + n5 % 40) bad("wrong-result","capacity after reserve",x.capacity(),sz+n5%40); break; default: TRY(c, x.deallocate()); w.clear(); break; } break;
	    case OP_forms: { const C& cx = x; switch (n5 % 6) {
		case 0: { single = true; size_t left = 0; TRY(c, C l (move(y)); left = y.size(); x.swap(l)); if (i != j) { w = m[j]; wy.clear(); } if (!c.kind && left) bad("wrong-contents","elements left in the container moved from",left,0); break; }
		case 1: { bool ok = true; size_t q = 0; for (auto z = cx.cbegin(); z != cx.cend() && q < sz; ++z, ++q) if (El<T>::rank(*z) != w[q]) ok = false; if (!ok || q != sz) bad("wrong-result","walking a constant container",q,sz);
		    q = 0; for (auto z = cx.crbegin(); z != cx.crend() && q < sz; ++z, ++q) if (El<T>::rank(*z) != w[sz-1-q]) ok = false; if (!ok || q != sz) bad("wrong-result","walking a constant container backwards",q,sz); break; }
		case 2: if (cx.max_size() < sz) bad("wrong-result","max_size",cx.max_size(),sz); if (!sz) continue;
		    { const size_t q = n3 % sz; if (El<T>::rank(cx.front()) != w[0] || El<T>::rank(cx.back()) != w[sz-1] || El<T>::rank(*cx.data()) != w[0] || El<T>::rank(cx.cdata()[sz-1]) != w[sz-1] || El<T>::rank(*cx.iat(q)) != w[q] || El<T>::rank(cx[q]) != w[q] || El<T>::rank(cx.at(q)) != w[q] || El<T>::rank(*x.iat(q)) != w[q] || x.data() != &*x.begin()) bad("wrong-result","elements of a constant container",q); } break;
		case 3: { single = true; TRY(c, ::ustl::swap (x,y)); if (i != j) { w = m[j]; wy = m[i]; } break; }
		case 4: { const cmemlink l1 (cx), l2 (x); memlink l3 = x; if ((const void*)l1.begin() != (const void*)cx.begin() || l1.size() != sz*sizeof(T) || l2.begin() != l1.begin() || l2.size() != l1.size() || (const void*)l3.begin() != (const void*)cx.begin() || l3.size() != l1.size()) bad("wrong-result","the memory of the container",l1.size(),sz*sizeof(T)); break; }
		default: { // a linked container shows the other's elements, and owns none
		    size_t ls = 0, us = 1; bool same = false, linked = false; const size_t f = n3 % (m[j].size()+1);
		    TRY(c, vector<T> l; const vector<T>& cy = y; switch (n3 % 5) { case 0: l.link (y); break; case 1: l.link (cy); break; case 2: l.link (&*y.begin()+f,&*y.begin()+y.size()); break; case 3: l.link (&*cy.begin()+f,&*cy.begin()+cy.size()); break; default: l.link (&*y.begin()+f,y.size()-f); }
			ls = l.size(); same = n3 % 5 < 2 ? l.begin() == y.begin() : l.begin() == y.begin()+f; linked = l.is_linked(); l.unlink(); us = l.size());
		    if (!c.kind && (ls != (n3 % 5 < 2 ? m[j].size() : m[j].size()-f) || !same || (ls && !linked) || us)) bad("wrong-result","a linked container",ls,m[j].size()); break; }
		}
		break; }
	    case OP_reverse_walk: { size_t q = 0; bool ok = true; for (auto z = x.rbegin(); z != x.rend() && q < sz; ++z, ++q) if (El<T>::rank(*z) != w[sz-1-q]) ok = false; if (!ok || q != sz) bad("wrong-result","walking backwards",q,sz); break; }
	    default: if (!seqx<C,T>::go(c,st,x,y,w,wy,single)) continue; break;
	}
	judge(c,single);
	if (!c.kind && ckat && got != at) bad("wrong-result","position returned by the insertion",got,at);
	for (int q = 0; q < 2; ++q) {
	    const size_t n = a[q]->size();
	    if (n > 5000) bad("broken-container","size",n,m[q].size());
	    if (a[q]->empty() != !n || (size_t)(a[q]->end()-a[q]->begin()) != n || a[q]->capacity() < n) bad("broken-container","size, capacity, empty and the iterators disagree",n,a[q]->end()-a[q]->begin());
	    Vec<int> g; for (size_t z = 0; z < n; ++z) { g.push(El<T>::rank(a[q]->begin()[z])); if (g[z] < 0) bad("broken-element","element holds a value never stored",z,n); }
	    const Vec<int>& want = c.kind && (single || q != i) ? m[q] : q == i ? w : q == j ? wy : m[q];
	    if (!c.kind || single || q != i) {
		if (g.size() != want.size()) bad(c.kind ? "changed-by-failure" : "wrong-contents","number of elements",g.size(),want.size());
		for (size_t z = 0; z < g.size(); ++z) if (g[z] != want[z]) bad(c.kind ? "changed-by-failure" : "wrong-contents","first difference at element",z,want[z]);
	    }
	    m[q] = g; if (n > 50) probe(P_BIG);
	}
	if (m[i].size() > 300) { LIB(x.clear()); m[i].clear(); }
    }
    sim.step = 0;
    for (int i = 0; i < 2; ++i) LIB(a[i]->~C());
    for (int i = 0; i < R; ++i) LIB(pool[i].~T());
}
//---------------------------------------------------------------- adapters
enum { A_QUEUE, A_STACK, A_PQ, A_PQG, A_PQD };
// a comparison whose sense is chosen when it is made: each queue has its own
struct Sense { int down; Sense (int d = 0) : down (d) {} bool operator() (int a, int b) const { return down ? b < a : a < b; } };
template <typename C> struct PQSense { static void ctor(void* m, int) { new (m) C; } static void reset(C&, int) {} static void copied(C&, const int*, const int*, int) {} };
template <> struct PQSense<priority_queue<int,vector<int>,Sense> > {
    typedef priority_queue<int,vector<int>,Sense> C;
    static void ctor(void* m, int d) { new (m) C (Sense (d)); }
    static void reset(C& y, int d) { C l ((Sense (d))); y.swap(l); }
    static void copied(C& x, const int* f, const int* l, int d) {
	const Sense s (d);
	if ((l-f) % 4 == 0) { C n (f,l,s); x.swap(n); }
	else if ((l-f) % 4 == 1) { const vector<int> v (f,l); C n (s,v); x.swap(n); }
	else if ((l-f) % 4 == 2) { vector<int> v (f,f+1); C n (f+1,l,s,move(v)); x.swap(n); }
	else { vector<int> v (f,l); C n (s,move(v)); x.swap(n); }
    }
};
template <typename C, typename T, int A> struct adx {
    static int top(C& c) { return El<T>::rank(c.top()); }
    static int ctop(const C& c) { return El<T>::rank(c.top()); }
    static int back(C& c) { return top(c); }
    static void set(C& c, int k) { c.top() = El<T>::make(k); }
    static void viac(C& x, const T* f, const T* l) { const typename C::container_type v (f,l); C n (v); x.swap(n); }
    static bool eq(C& a, C& b) { return a == b; }
    static void copy(C& x, C& y) { C l (y); x.swap(l); }
    static C* clone(void* p, C& y) { return new (p) C (y); }
    static void from(C& x, const T* f, const T* l) { vector<T> v (f,l); C n ((typename C::container_type (v.begin(),v.end()))); x.swap(n); }
};
template <typename C, typename T> struct adx<C,T,A_QUEUE> {
    static int top(C& c) { return El<T>::rank(c.front()); }
    static int ctop(const C& c) { return El<T>::rank(c.front()); }
    static int back(C& c) { const C& cc = c; return El<T>::rank(c.back()) == El<T>::rank(cc.back()) ? El<T>::rank(c.back()) : -1; }
    static void set(C& c, int k) { c.front() = El<T>::make(k); }
    static void viac(C& x, const T* f, const T* l) { const typename C::container_type v (f,l); C n (v); x.swap(n); }
    static bool eq(C& a, C& b) { return a == b; }
    static void copy(C& x, C& y) { C l (y); x.swap(l); }
    static C* clone(void* p, C& y) { return new (p) C (y); }
    static void from(C& x, const T* f, const T* l) { vector<T> v (f,l); C n ((typename C::container_type (v.begin(),v.end()))); x.swap(n); }
};
template <typename C, typename T, typename Comp> struct adpq {
    static int top(C& c) { return El<T>::rank(c.top()); }
    static int ctop(const C& c) { return El<T>::rank(c.top()); }
    static int back(C& c) { return top(c); }
    static void set(C&, int) {}
    static void viac(C& x, const T* f, const T* l) { const vector<T> v (f,l); C n (Comp(),v); x.swap(n); }
    static bool eq(C& a, C&) { return &a == &a; }
    static void copy(C&, C&) {}
    static C* clone(void*, C& y) { return &y; }
    static void from(C& x, const T* f, const T* l) {
	if ((l-f) % 3 == 0) { C n (f,l); x.swap(n); }
	else if ((l-f) % 3 == 1) { vector<T> v (f,l); C n (Comp(),v); x.swap(n); }
	else { vector<T> v (f,f+1); C n (f+1,l,Comp(),move(v)); x.swap(n); }
    }
};
template <typename C, typename T> struct adx<C,T,A_PQ> : adpq<C,T,less<T> > {};
template <typename C, typename T> struct adx<C,T,A_PQG> : adpq<C,T,greater<T> > {};
template <typename C, typename T> struct adx<C,T,A_PQD> : adpq<C,T,Sense> {};
template <typename C, typename T, int A> void run_adapter(const Plan& p)
{
    typedef adx<C,T,A> X; const bool PQ = A == A_PQ || A == A_PQG || A == A_PQD;
    int down [2] = { A == A_PQG, A == A_PQG || A == A_PQD };
    static char mem [2][sizeof(C)] __attribute__((aligned(16)));
    C* a [2]; Vec<int> m [2]; static char pm [R][sizeof(T)] __attribute__((aligned(16)));
    T* pool = (T*)pm; for (int i = 0; i < R; ++i) LIB(new (pm[i]) T (El<T>::make(i*7 % R)));
    for (int i = 0; i < 2; ++i) { LIB(PQSense<C>::ctor(mem[i],down[i])); a[i] = (C*)mem[i]; }
    size_t popped = 0;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; const int op = st.op; what = OPS[op];
	Caught c; c.kind = TH_NONE;
	const int i = st.a[0] & 1, j = st.a[4] & 1; C& x = *a[i]; C& y = *a[j]; Vec<int> w (m[i]), wy (m[j]);
	const int k = (int)((uint64_t)st.a[1] % R), pk = k*7 % R;
	const size_t sz = w.size(), n3 = (uint64_t)st.a[3];
	size_t first = A == A_QUEUE || !sz ? 0 : sz-1;
	if (PQ) for (size_t q = 0; q < sz; ++q) if (!down[i] ? w[q] > w[first] : w[q] < w[first]) first = q;
	int dw = down[i], dy = down[j]; const int dn = (n3>>3) & 1;
	switch (op) {
	    case OP_insert: case OP_push: case OP_push_back: case OP_insert_hint: case OP_insert_range: case OP_resize: case OP_fill: TRY(c, x.push(pool[k])); w.push(pk); break;
	    case OP_insert_tmp: case OP_emplace: case OP_emplace_hint: case OP_index: case OP_insert_list: TRY(c, x.emplace(El<T>::make(pk))); w.push(pk); break;
	    case OP_pop: case OP_erase_key: case OP_erase_pos: case OP_erase_range: case OP_ends: case OP_splice: case OP_merge: case OP_algo: case OP_reverse_walk: case OP_tidy: if (!sz) continue; TRY(c, x.pop()); w.erase(first); ++popped; break;
	    case OP_modify: if (!sz || PQ) continue; TRY(c, X::set(x,pk)); w[first] = pk; break;
	    case OP_copy: if (PQ) continue; TRY(c, X::copy(x,y)); w = m[j]; break;
	    case OP_construct: case OP_assign_range: { size_t n = n3 % (R-k); if (A == A_PQD) { if (n % 4 == 2 && n < 2) n = 3; Vec<int> z; for (size_t q = 0; q < n; ++q) z.push((k+q)*7 % R); const int* zf = (const int*)(const void*)(pool+k); TRY(c, PQSense<C>::copied(x,zf,zf+n,dn)); w = z; dw = dn; break; } if (PQ && n % 3 == 2 && n < 2) n = 3; TRY(c, X::from(x,pool+k,pool+k+n)); w.clear(); for (size_t q = 0; q < n; ++q) w.push((k+q)*7 % R); break; }
	    case OP_move: if (i == j) continue; TRY(c, x = move(y)); w = m[j]; dw = down[j]; dy = down[i]; if (A == A_PQD && !c.kind) { LIB(PQSense<C>::reset(y,dy)); wy.clear(); break; } if (!c.kind) { if (y.size() == m[i].size()) wy = m[i]; else wy.clear(); } break;
	    case OP_swap: case OP_assign: TRY(c, x.swap(y)); if (i != j) { w = m[j]; wy = m[i]; dw = down[j]; dy = down[i]; } break;
	    case OP_clear: if (n3 % 4) continue; TRY(c, C l; x.swap(l)); w.clear(); dw = A == A_PQG; break;
	    case OP_forms: if (A == A_PQD && !(n3 & 1)) continue; if (n3 & 1) { size_t left = 0; TRY(c, C l (move(y)); left = y.size(); x.swap(l)); if (A == A_PQD && !c.kind) { LIB(PQSense<C>::reset(y,0)); dw = i == j ? 0 : down[j]; dy = 0; if (i == j) w.clear(); else { w = m[j]; wy.clear(); } break; } if (i != j) { w = m[j]; wy.clear(); } if (!c.kind && left) bad("wrong-contents","elements left in the adapter moved from",left,0); }
		else { TRY(c, X::viac(x,pool+k,pool+hmin((int)R,k+(int)(n3 % 9)))); w.clear(); for (int q = k; q < hmin((int)R,k+(int)(n3 % 9)); ++q) w.push(q*7 % R); } break;
	    case OP_compare: { if (PQ) continue; bool eq = false; TRY(c, eq = X::eq(x,y)); const bool e2 = i == j || w == m[j]; if (!c.kind && eq != e2) bad("wrong-result","equality",eq,e2); break; }
	    case OP_find: case OP_bounds: { // drain a copy: the whole content in order
		if (PQ) continue;
		static char lm [sizeof(C)] __attribute__((aligned(16)));
		C* l = 0; TRY(c, l = X::clone(lm,y)); if (c.kind) break;
		for (size_t q = 0; q < m[j].size(); ++q) {
		    const size_t z = A == A_QUEUE ? q : m[j].size()-1-q;
		    if (l->size() != m[j].size()-q) bad("wrong-contents","size while draining",l->size(),m[j].size()-q);
		    const int g = X::top(*l); if (g != m[j][z]) bad("wrong-contents","element taken out",g,m[j][z]);
		    LIB(l->pop());
		}
		if (!l->empty()) bad("wrong-contents","not empty after draining",l->size(),0);
		LIB(l->~C()); break; }
	    default: continue;
	}
	judge(c,true);
	if (!c.kind) { m[i] = w; down[i] = dw; if (i != j) { m[j] = wy; down[j] = dy; } }
	for (int q = 0; q < 2; ++q) {
	    const Vec<int>& v = m[q];
	    if (a[q]->size() != v.size() || a[q]->empty() != v.empty()) { bad(c.kind ? "changed-by-failure" : "wrong-contents","number of elements",a[q]->size(),v.size()); sim_exit_run(); }
	    if (!v.size()) continue;
	    size_t f = A == A_QUEUE ? 0 : v.size()-1;
	    if (PQ) for (size_t z = 0; z < v.size(); ++z) if (!down[q] ? v[z] > v[f] : v[z] < v[f]) f = z;
	    const int t = X::top(*a[q]), b = X::back(*a[q]), ct = X::ctop(*a[q]);
	    if (t != v[f] || ct != t) bad(c.kind ? "changed-by-failure" : "wrong-contents","first element",t,v[f]);
	    if (A == A_QUEUE && b != v.back()) bad(c.kind ? "changed-by-failure" : "wrong-contents","last element",b,v.back());
	    if (v.size() > 50) probe(P_BIG);
	}
	if (popped > 20) probe(P_COMPACT);
    }
    sim.step = 0;
    // what remains comes out in order
    for (int q = 0; q < 2; ++q) {
	what = "draining";
	while (m[q].size()) {
	    Vec<int>& v = m[q];
	    size_t f = A == A_QUEUE ? 0 : v.size()-1;
	    if (PQ) for (size_t z = 0; z < v.size(); ++z) if (!down[q] ? v[z] > v[f] : v[z] < v[f]) f = z;
	    if (a[q]->size() != v.size()) { bad("wrong-contents","number of elements",a[q]->size(),v.size()); sim_exit_run(); }
	    const int t = X::top(*a[q]); if (t != v[f]) bad("wrong-contents","element taken out",t,v[f]);
	    LIB(a[q]->pop()); v.erase(f);
	}
	LIB(a[q]->~C());
    }
    for (int i = 0; i < R; ++i) LIB(pool[i].~T());
}
void exec(const Plan& p)
{
    #define RUN(kind,pr,...) case kind: probe(pr); __VA_ARGS__(p); break
    switch ((int)((uint64_t)p.cfg[C_KIND] % K_N)) {
	RUN(K_SET_I,P_SET, run_sorted<set<int>,SetTr<int>,false,LESS>);
	RUN(K_SET_S,P_SET, run_sorted<set<string>,SetTr<string>,false,LESS>);
	RUN(K_SET_IG,P_SET, run_sorted<set<int,greater<int> >,SetTr<int>,false,GREATER>);
	RUN(K_MSET_S,P_MSET, run_sorted<multiset<string>,SetTr<string>,true,LESS>);
	RUN(K_MSET_IG,P_MSET, run_sorted<multiset<int,greater<int> >,SetTr<int>,true,GREATER>);
	RUN(K_MAP_IS,P_MAP, run_sorted<map<int,string>,MapTr<int,string>,false,LESS>);
	RUN(K_MAP_SI,P_MAP, run_sorted<map<string,int>,MapTr<string,int>,false,LESS>);
	RUN(K_MAP_SS,P_MAP, run_sorted<map<string,string>,MapTr<string,string>,false,LESS>);
	RUN(K_MAP_IIG,P_MAP, run_sorted<map<int,int,greater<int> >,MapTr<int,int>,false,GREATER>);
	RUN(K_MM_II,P_MMAP, run_sorted<multimap<int,int>,MapTr<int,int>,true,LESS>);
	RUN(K_MM_SS,P_MMAP, run_sorted<multimap<string,string>,MapTr<string,string>,true,LESS>);
	RUN(K_MM_SIG,P_MMAP, run_sorted<multimap<string,int,greater<string> >,MapTr<string,int>,true,GREATER>);
	RUN(K_SET_IC,P_SET, run_sorted<set<int,Coarse<int> >,SetTr<int>,false,COARSE>);
	RUN(K_SET_SC,P_SET, run_sorted<set<string,Coarse<string> >,SetTr<string>,false,COARSE>);
	RUN(K_MSET_IC,P_MSET, run_sorted<multiset<int,Coarse<int> >,SetTr<int>,true,COARSE>);
	RUN(K_MAP_SIC,P_MAP, run_sorted<map<string,int,Coarse<string> >,MapTr<string,int>,false,COARSE>);
	RUN(K_MM_IIC,P_MMAP, run_sorted<multimap<int,int,Coarse<int> >,MapTr<int,int>,true,COARSE>);
	RUN(K_VEC_I,P_SEQ, run_seq<vector<int>,int>);
	RUN(K_VEC_S,P_SEQ, run_seq<vector<string>,string>);
	RUN(K_LIST_I,P_SEQ, run_seq<list<int>,int>);
	RUN(K_LIST_S,P_SEQ, run_seq<list<string>,string>);
	RUN(K_QUEUE_I,P_ADAPT, run_adapter<queue<int>,int,A_QUEUE>);
	RUN(K_QUEUE_S,P_ADAPT, run_adapter<queue<string>,string,A_QUEUE>);
	RUN(K_STACK_S,P_ADAPT, run_adapter<stack<string>,string,A_STACK>);
	RUN(K_STACK_LI,P_ADAPT, run_adapter<stack<int,list<int> >,int,A_STACK>);
	RUN(K_PQ_I,P_ADAPT, run_adapter<priority_queue<int>,int,A_PQ>);
	RUN(K_PQ_S,P_ADAPT, run_adapter<priority_queue<string>,string,A_PQ>);
	RUN(K_PQ_ID,P_ADAPT, run_adapter<priority_queue<int,vector<int>,Sense>,int,A_PQD>);
	RUN(K_PQ_IG,P_ADAPT, run_adapter<priority_queue<int,vector<int>,greater<int> >,int,A_PQG>);
    }
    arena_check_leaks("M03","after destroying every container");
}
const Scenario S = { "mod", "M03", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
