// Fixed size containers: array, tuple, matrix and bitset against a model of their elements, with the container
// ending where its memory does, operands from anywhere in the history, and element operations that fail.
#include "common.h"
#include <math.h>
using namespace ustl;

namespace {
struct Boom { int n; };
const char* what; const char* g_kind;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("A02",cls,"%s of %s: %s (%lld, expected %lld)",what,g_kind,msg,a,b); }
#define TRYB(c, ...) do { (c).kind = TH_NONE; try { LIB(__VA_ARGS__); } catch (Boom&) { (c).kind = TH_CRASH; } catch (ustl::bad_alloc&) { (c).kind = TH_ALLOC; } catch (ustl::exception&) { (c).kind = TH_OTHER; } catch (...) { (c).kind = TH_OTHER; } } while (false)

//---------------------------------------------------------------- elements
Vec<uint8_t> g_tok; int64_t g_live;
enum { MAGIC = 0x70C0A160, CANARY = 0xC5 };
void throwpt(void)
{
    if (!sim.on) return;
    if (fault_at(F_THROW, sim.ctoridx++)) { fired(F_THROW); Boom b = { sim.ctoridx }; throw b; }
}
struct Tok {
    uint32_t magic, serial; int64_t k; void* mem;
    void born(int64_t kk) { HxScope hx; magic = MAGIC; serial = g_tok.size(); k = kk; g_tok.push(1); ++g_live; }
    void alive(const char* msg) const { if (magic != MAGIC || serial >= g_tok.size() || g_tok[serial] != 1) bad("dead-element",msg); }
    static void* payload(void) { throwpt(); void* p = malloc(1); if (!p) throw ustl::bad_alloc(1); return p; }
    Tok(int64_t v = 0) { mem = payload(); born(v); }
    explicit operator int64_t() const { alive("converted no element"); return k; }
    Tok(const Tok& o) { o.alive("copied from no element"); mem = payload(); born(o.k); }
    Tok& operator=(const Tok& o) { alive("assigned to no element"); o.alive("assigned from no element"); void* p = payload(); free(mem); mem = p; k = o.k; return *this; }
    ~Tok() { alive("destroyed memory that holds no element"); if (magic == MAGIC && serial < g_tok.size()) { if (g_tok[serial] == 1) --g_live; g_tok[serial] = 2; } free(mem); mem = 0; magic = 0xDEADDEAD; }
    void both(const Tok& o) const { alive("used no element"); o.alive("used no element"); }
    bool operator<(const Tok& o) const { both(o); throwpt(); return k < o.k; }
    bool operator<=(const Tok& o) const { both(o); throwpt(); return k <= o.k; }
    bool operator==(const Tok& o) const { both(o); throwpt(); return k == o.k; }
    bool operator!=(const Tok& o) const { both(o); throwpt(); return k != o.k; }
    static int64_t div(int64_t a, int64_t b) { return !b || (b == -1 && a < 0) ? 0 : a/b; }
    Tok operator+(const Tok& o) const { both(o); return Tok (int64_t((uint64_t)k+(uint64_t)o.k)); }
    Tok operator-(const Tok& o) const { both(o); return Tok (int64_t((uint64_t)k-(uint64_t)o.k)); }
    Tok operator*(const Tok& o) const { both(o); return Tok (int64_t((uint64_t)k*(uint64_t)o.k)); }
    Tok operator/(const Tok& o) const { both(o); return Tok (div(k,o.k)); }
    Tok& operator+=(const Tok& o) { both(o); throwpt(); k = int64_t((uint64_t)k+(uint64_t)o.k); return *this; }
    Tok& operator-=(const Tok& o) { both(o); throwpt(); k = int64_t((uint64_t)k-(uint64_t)o.k); return *this; }
    Tok& operator*=(const Tok& o) { both(o); throwpt(); k = int64_t((uint64_t)k*(uint64_t)o.k); return *this; }
    Tok& operator/=(const Tok& o) { both(o); throwpt(); k = div(k,o.k); return *this; }
};
enum { ADD, SUB, MUL, DIV };
template <typename T> struct Tr {
    typedef T M; enum { tok = 0, flt = T(1)/T(2) != 0, sgn = T(-1) < T(1) };
    static M val(const T& e) { return e; }
    static M rnd(Rng& r, bool small) {
	if (flt) return T(r.range(-4000,4000))/T(small ? 1 : 8);
	if (small || r.chance(300)) return T(sgn ? r.range(-9,9) : r.range(0,12));
	if (r.chance(300)) { const int b = sizeof(T)*8; const T top = sgn ? T((1ull<<(b-1))-1) : T(~0ull); const T lo = sgn ? T(-top-1) : T(0); switch (r.below(4)) { case 0: return top; case 1: return lo; case 2: return T(top-1); default: return T(top/2+1); } }
	return T(r.next());
    }
    // the result of one element operation; false where the language leaves it open
    static bool calc(int op, M a, M b, M& w) {
	if (flt) { if (op == DIV && b == 0) return false; w = op == ADD ? T(a+b) : op == SUB ? T(a-b) : op == MUL ? T(a*b) : T(a/b); return w-w == 0; }
	__int128 x = a, y = b, z;
	if (op == DIV) { if (!y) return false; z = x/y; if (sgn && sizeof(T) >= 4 && z != (__int128)T(z)) return false; w = T(z); return true; }
	z = op == ADD ? x+y : op == SUB ? x-y : 0; if (op == MUL) { z = (__int128)((unsigned __int128)x*(unsigned __int128)y); }
	if (sizeof(T) < 4 && (z > 0x7fffffff || z < -0x7fffffffll-1)) return false;
	if (sgn && sizeof(T) >= 4 && z != (__int128)T(z)) return false;
	w = T(z); return true;
    }
};
template <> struct Tr<Tok> {
    typedef int64_t M; enum { tok = 1, flt = 0, sgn = 1 };
    static M val(const Tok& e) { e.alive("an element is not alive"); return e.k; }
    static M rnd(Rng& r, bool) { return r.range(-1000,1000); }
    static bool calc(int op, M a, M b, M& w) { const uint64_t x = a, y = b; w = op == ADD ? x+y : op == SUB ? x-y : op == MUL ? x*y : (uint64_t)Tok::div(a,b); return true; }
};
template <typename T> std::initializer_list<T> ilist(const T* p, size_t n) { struct { const T* p; size_t n; } q = { p, n }; std::initializer_list<T> l; static_assert(sizeof(l) == sizeof(q),"initializer_list"); memcpy((void*)&l,&q,sizeof(q)); return l; }

//---------------------------------------------------------------- plan
#define OPLIST(X) X(set) X(assign) X(construct) X(scalar) X(scalar_new) X(with) X(with_new) X(list) X(swap) X(compare) X(access) X(fill) X(convert) X(pack) X(pack3) X(math) X(special)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_KIND, N_CFG };
const char* const CFG [N_CFG] = { "kind" };
enum { P_THREW, P_HALF, P_ALLOC, P_SELF, P_EQUAL, P_SHORTLIST, P_SIMD, P_MATRIX, P_BITS, P_ROUND, N_PROBES };
const char* const PROBES [N_PROBES] = { "element_operation_threw","some_elements_done_when_it_threw","allocation_failed","both_operands_the_same","containers_equal","list_shorter_than_container","simd_operation","matrix_operation","bitset_operation","rounded" };
enum { NS = 3, PRE = 16, MAXN = 16 };
enum { N_KINDS = 48 };
void gen(Rng& r, Plan& p, bool faults)
{
    p.cfg[C_KIND] = r.below(N_KINDS);
    const int n = 2 + (int)r.skewed(50);
    for (int i = 0; i < n; ++i) {
	Step& s = p.add(r.chance(150) ? 0 : (int)r.below(N_OPS),r.below(NS),r.chance(150) ? 0 : r.below(NS),r.below(NS),r.next()>>8,r.below(1u<<20));
	if (faults && r.chance(300)) addfault(s,F_THROW,(int)r.skewed(20),1,0);
	if (faults && r.chance(80)) addfault(s,F_ALLOC,(int)r.skewed(6),1,0);
    }
}
uint8_t* place(size_t n) { uint8_t* m = (uint8_t*)arena_place(PRE+n,0); memset(m,CANARY,PRE); return m; }
void front(const uint8_t* m) { for (int q = 0; q < PRE; ++q) if (m[q] != CANARY) { bad("outside","memory before the container changed",q-PRE,CANARY); break; } }

template <typename C, typename T, size_t N> struct World {
    typedef Tr<T> R; typedef typename R::M M;
    uint8_t* mem [NS]; C* c [NS]; M m [NS][MAXN];
    World() { for (int i = 0; i < NS; ++i) { mem[i] = place(sizeof(C)); for (size_t z = 0; z < sizeof(C); ++z) mem[i][PRE+z] = 0x5A; LIB(c[i] = new (mem[i]+PRE) C); for (size_t q = 0; q < N; ++q) { if (is_array) *(c[i]->begin()+q) = T(0); m[i][q] = 0; } } check("a new container"); }
    ~World() { for (int i = 0; i < NS; ++i) { LIB(c[i]->~C()); } }
    static const bool is_array;
    void same(const C& x, const M* w, const char* msg) { const T* e = x.begin(); for (size_t q = 0; q < N; ++q) { const M v = R::val(e[q]); if (!(v == w[q])) { bad("wrong-element",msg,(long long)v,(long long)w[q]); return; } } }
    void check(const char* msg) { for (int i = 0; i < NS; ++i) { same(*c[i],m[i],msg); front(mem[i]); } }
    // after a failure every element has its old value or its new one
    void partly(int i, const M* w) { int nw = 0; for (size_t q = 0; q < N; ++q) { const M v = R::val(c[i]->begin()[q]); if (!(v == w[q]) && !(v == m[i][q])) bad("torn","element after a failed operation",(long long)v,(long long)w[q]); nw += v == w[q] && !(v == m[i][q]); m[i][q] = v; } if (nw && nw < (int)N) probe(P_HALF); }
    bool failed(const Caught& k) { if (!k.kind) return false; if (!R::tok) bad("unexpected-exception",thname(k.kind)); if (k.kind == TH_OTHER) bad("wrong-exception","threw something else"); if (k.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed) bad("unexpected-exception","bad_alloc"); } else probe(P_THREW); return true; }
    void settle(const Caught& k, int i, const M* w) { if (failed(k)) partly(i,w); else for (size_t q = 0; q < N; ++q) m[i][q] = w[q]; }
};
template <typename C, typename T, size_t N> const bool World<C,T,N>::is_array = is_same<C,array<T,N> >::value;

// an operation with one operand on the right
template <typename X, typename Y> void opassign(int o, X& a, const Y& b) { switch (o) { case ADD: a += b; break; case SUB: a -= b; break; case MUL: a *= b; break; default: a /= b; } }
template <typename X> void listassign(int o, X& a, std::initializer_list<typename X::value_type> b) { switch (o) { case ADD: a += b; break; case SUB: a -= b; break; case MUL: a *= b; break; default: a /= b; } }
template <typename C, typename T, size_t N> struct Only {	// what only one of the kinds has
    static bool construct(World<C,T,N>&, const Step&, Rng&, Caught&) { return false; }
    static bool convert(World<C,T,N>&, const Step&, Caught&) { return false; }
};
template <typename T, size_t N> struct Only<array<T,N>,T,N> {
    typedef array<T,N> C; typedef World<C,T,N> W; typedef Tr<T> R; typedef typename R::M M;
    static bool construct(W& w, const Step& st, Rng& r, Caught& k) {	// operators with lists that make new arrays
	const int i = (int)st.a[0], o = (int)(st.a[4] % 4); M x [MAXN], v [MAXN]; for (size_t q = 0; q < N; ++q) { v[q] = R::rnd(r,st.a[4] & 16); if (!R::calc(o,w.m[i][q],v[q],x[q])) return false; }
	T* l; { HxScope hx; l = (T*)arena_place(sizeof(T)*N,0); for (size_t q = 0; q < N; ++q) new (l+q) T (v[q]); }
	TRYB(k, C t (o == ADD ? *w.c[i] + ilist(l,N) : o == SUB ? *w.c[i] - ilist(l,N) : o == MUL ? *w.c[i] * ilist(l,N) : *w.c[i] / ilist(l,N)); { HxScope hx; w.same (t,x,"combined with a list"); });
	{ HxScope hx; for (size_t q = 0; q < N; ++q) l[q].~T(); } w.failed(k); return true;
    }
    static bool convert(W& w, const Step& st, Caught& k) { const int i = (int)st.a[0]; T v (M(st.a[4] % 100)); M x [MAXN]; for (size_t q = 0; q < N; ++q) x[q] = M(st.a[4] % 100); TRYB(k, w.c[i]->fill (v)); w.settle(k,i,x); return true; }
};
template <typename T> struct Other { typedef float t; }; template <> struct Other<float> { typedef int32_t t; }; template <> struct Other<int16_t> { typedef uint16_t t; }; template <> struct Other<uint16_t> { typedef int16_t t; }; template <> struct Other<int32_t> { typedef uint8_t t; }; template <> struct Other<uint32_t> { typedef int32_t t; }; template <> struct Other<uint8_t> { typedef uint32_t t; }; template <> struct Other<Tok> { typedef int64_t t; };
// what the types can hold
template <typename T> bool limits (T&, T&) { return false; }
#define LIM(T,lo,hi) template <> bool limits<T> (T& a, T& b) { a = lo; b = hi; return true; }
LIM(int8_t,-128,127) LIM(uint8_t,0,255) LIM(int16_t,-32768,32767) LIM(uint16_t,0,65535) LIM(int32_t,-2147483647-1,2147483647) LIM(uint32_t,0,4294967295u) LIM(float,1.17549435e-38f,3.40282347e+38f) LIM(double,2.2250738585072014e-308,1.7976931348623157e+308)
template <typename T, size_t N> struct Only<tuple<N,T>,T,N> {
    typedef tuple<N,T> C; typedef World<C,T,N> W; typedef Tr<T> R; typedef typename R::M M;
    static bool construct(W& w, const Step& st, Rng& r, Caught& k) {
	const int form = (int)(st.a[4] % 7); M x [MAXN], v [MAXN]; for (size_t q = 0; q < N; ++q) v[q] = R::rnd(r,st.a[4] & 16);
	const size_t ln = form == 6 ? r.below(N+3) : N; size_t len = hmax<size_t>(ln,1);
	T* l; { HxScope hx; l = (T*)arena_place(sizeof(T)*len,0); for (size_t q = 0; q < len; ++q) new (l+q) T (v[q % N]); }
	const size_t arg = form >= 1 && form <= 4 ? (size_t)form : N; if (arg > N && form <= 4) { HxScope hx; for (size_t q = 0; q < len; ++q) l[q].~T(); return false; }
	for (size_t q = 0; q < N; ++q) x[q] = form == 0 ? M(0) : form <= 4 ? v[hmin(q,arg-1)] : form == 5 ? v[q] : q < ln ? v[q % N] : M(0);
	if (form == 6 && ln < N) probe(P_SHORTLIST);
	const T *a = l, *b = l+hmin<size_t>(1,N-1), *d = l+hmin<size_t>(2,N-1), *e = l+hmin<size_t>(3,N-1);
#define SAME { HxScope hx; w.same (t,x,"a new tuple"); }
	switch (form) {
	    case 0: TRYB(k, C t; SAME); if (!k.kind) { T lo, hi; if (limits(lo,hi)) { const C a = numeric_limits<C>::min(), b = numeric_limits<C>::max(); for (size_t q = 0; q < N; ++q) if (memcmp(&a[q],&lo,sizeof(T)) || memcmp(&b[q],&hi,sizeof(T)) || numeric_limits<T>::min() != lo || numeric_limits<T>::max() != hi) bad("wrong-limits","smallest and largest values",q,N); } } break;
	    case 1: TRYB(k, C t (*a); SAME); break;
	    case 2: TRYB(k, C t (*a,*b); SAME); break;
	    case 3: TRYB(k, C t (*a,*b,*d); SAME); break;
	    case 4: TRYB(k, C t (*a,*b,*d,*e); SAME); break;
	    case 5: TRYB(k, C t (static_cast<const T*>(l)); SAME); break;
	    default: TRYB(k, C t (ilist (static_cast<const T*>(l),ln)); SAME); break;
	}
	{ HxScope hx; for (size_t q = 0; q < len; ++q) l[q].~T(); } w.failed(k); return true;
    }
    static bool small(M v) { return !(v > M(100)) && !(Tr<T>::sgn && v < M(Tr<T>::sgn ? -100 : 0)); }	// either type can hold it
    static bool convert(W& w, const Step& st, Caught& k) {	// through another type of element
	typedef typename Other<T>::t O; typedef tuple<N,O> D; const int i = (int)st.a[0], j = (int)st.a[1]; M x [MAXN]; O y [MAXN];
	for (size_t q = 0; q < N; ++q) { const M v = w.m[j][q]; if ((Tr<T>::flt || is_same<O,float>::value) && !small(v)) return false; y[q] = O(v); x[q] = M(y[q]); }
	uint8_t* m = place(sizeof(D)); D* d = 0;
	if (st.a[4] & 1) TRYB(k, d = new (m+PRE) D (*w.c[j])); else TRYB(k, d = new (m+PRE) D; *d = *w.c[j]);
	front(m);
	if (!k.kind) for (size_t q = 0; q < N; ++q) if (!((*d)[q] == y[q])) { bad("wrong-element","converted element",(long long)(*d)[q],(long long)y[q]); break; }
	if (!w.failed(k)) { if (st.a[4] & 2) { TRYB(k, C t (*d); SAME); if (w.failed(k)) return true; } TRYB(k, *w.c[i] = *d); w.settle(k,i,x); if (!k.kind && (st.a[4] & 4)) { bool eq = false; TRYB(k, eq = *w.c[i] == *w.c[i]); if (!k.kind && !eq) bad("wrong-answer","not equal to itself"); } }
	return true;
    }
};
// operations on packed elements
// operands of the caller that are in registers during the operation
template <typename C, typename T> T __attribute__((noipa,flatten)) amid(int o, const C& a, C& b, T p, T q, T r) { switch (o) { case 0: simd::padd (a,b); break; case 1: simd::psub (a,b); break; case 2: simd::pmul (a,b); break; default: simd::pmax (a,b); } return p*3+q*5+r*7; }
template <typename C, typename T, size_t N, bool INT> struct Pack { static bool go(World<C,T,N>&, const Step&, Rng&, Caught&) { return false; } };
template <typename C, typename T, size_t N> struct Pack<C,T,N,false> {	// floating point
    static bool go(World<C,T,N>& w, const Step& st, Rng&, Caught& k) {
	const int i = (int)st.a[0], j = (int)st.a[1], t = (int)st.a[2]; const C& a = *w.c[i]; T x [MAXN];
	if (st.op == OP_math) {
	    const int o = st.a[4] % 6; C b; C* pb = 0; uint8_t* m = place(sizeof(C)); { HxScope hx; pb = new (m+PRE) C (a); } (void)b;
	    for (size_t q = 0; q < N; ++q) { const T v = w.m[i][q]; if ((o == 0 || o == 2) && !(v > T(0.01))) return false; if (o == 1 && v < 0) return false; if (v > T(1e6) || v < T(-1e6)) return false; double d = v; x[q] = T(o == 0 ? 1/d : o == 1 ? sqrt(d) : o == 2 ? 1/sqrt(d) : o == 3 ? sin(d) : o == 4 ? cos(d) : tan(d)); }
	    switch (o) { case 0: TRYB(k, simd::precip (*pb)); break; case 1: TRYB(k, simd::psqrt (*pb)); break; case 2: TRYB(k, simd::precipsqrt (*pb)); break; case 3: TRYB(k, simd::psin (*pb)); break; case 4: TRYB(k, simd::pcos (*pb)); break; default: TRYB(k, simd::ptan (*pb)); }
	    for (size_t q = 0; q < N; ++q) { const double e = (double)(*pb)[q] - x[q], tol = 1e-5*(1+fabs((double)x[q])); if (!(e < tol && e > -tol)) { bad("wrong-element","function of an element, times 1000",(long long)((*pb)[q]*1000),(long long)(x[q]*1000)); break; } }
	    T s = 0; const T v = w.m[i][0]; switch (o) { case 0: s = simd::srecip (v); break; case 1: s = simd::ssqrt (v); break; case 2: s = simd::srecipsqrt (v); break; case 3: s = simd::ssin (v); break; case 4: s = simd::scos (v); break; default: s = simd::stan (v); }
	    const double e = (double)s - x[0]; if (!(fabs(e) < 1e-5*(1+fabs((double)x[0])))) bad("wrong-element","function of a number, times 1000",(long long)(s*1000),(long long)(x[0]*1000));
	    front(m);
	    if (o == 3) { // rounded to integers, and back
		typedef tuple<N,int32_t> IT; uint8_t* im = place(sizeof(IT)); IT* it; { HxScope hx; it = new (im+PRE) IT; } TRYB(k, simd::pround (a,*it)); probe(P_ROUND);
		for (size_t q = 0; q < N; ++q) if ((*it)[q] != (int32_t)lrint(w.m[i][q])) { bad("wrong-element","rounded",(*it)[q],lrint(w.m[i][q])); break; }
		const int32_t sr = simd::sround (w.m[i][0]); if (sr != (int32_t)lrint(w.m[i][0])) bad("wrong-element","one number rounded",sr,lrint(w.m[i][0]));
		tuple<N,T>* ft; uint8_t* fm = place(sizeof(tuple<N,T>)); { HxScope hx; ft = new (fm+PRE) tuple<N,T>; } TRYB(k, simd::pround (*it,*ft)); for (size_t q = 0; q < N; ++q) if ((*ft)[q] != T((*it)[q])) { bad("wrong-element","converted back",(long long)(*ft)[q],(*it)[q]); break; }
		front(im); front(fm);
	    }
	    return true;
	}
	const int o = st.a[4] % 7; const bool three = st.op == OP_pack3; const int lhs = three ? i : j, rhs = three ? j : i, out = three ? t : j;
	for (size_t q = 0; q < N; ++q) { const T p = w.m[lhs][q], r = w.m[rhs][q]; if (o < 4) { if (!Tr<T>::calc(o,p,r,x[q])) return false; } else if (o == 4) x[q] = p < r ? p : r; else if (o == 5) x[q] = p < r ? r : p; else x[q] = (p+r)/2; }
	if (three) { if (out == i || out == j) return false; switch (o) { case 0: TRYB(k, simd::padd (a,*w.c[j],*w.c[t])); break; case 1: TRYB(k, simd::psub (a,*w.c[j],*w.c[t])); break; case 2: TRYB(k, simd::pmul (a,*w.c[j],*w.c[t])); break; case 3: TRYB(k, simd::pdiv (a,*w.c[j],*w.c[t])); break; case 4: TRYB(k, simd::pmin (a,*w.c[j],*w.c[t])); break; case 5: TRYB(k, simd::pmax (a,*w.c[j],*w.c[t])); break; default: TRYB(k, simd::pavg (a,*w.c[j],*w.c[t])); } }
	else if ((st.a[4] & 64) && (o < 3 || o == 5)) { T g = 0; TRYB(k, g = amid (o,a,*w.c[j],T(2),T(11),T(-4))); if (g != T(33)) bad("wrong-answer","of a computation around the operation",(long long)g,33); }
	else switch (o) { case 0: TRYB(k, simd::padd (a,*w.c[j])); break; case 1: TRYB(k, simd::psub (a,*w.c[j])); break; case 2: TRYB(k, simd::pmul (a,*w.c[j])); break; case 3: TRYB(k, simd::pdiv (a,*w.c[j])); break; case 4: TRYB(k, simd::pmin (a,*w.c[j])); break; case 5: TRYB(k, simd::pmax (a,*w.c[j])); break; default: TRYB(k, simd::pavg (a,*w.c[j])); }
	w.settle(k,out,x); probe(P_SIMD); return true;
    }
};
template <typename C, typename T, size_t N> struct Pack<C,T,N,true> {	// integers
    static bool go(World<C,T,N>& w, const Step& st, Rng&, Caught& k) {
	const int i = (int)st.a[0], j = (int)st.a[1], t = (int)st.a[2]; const C& a = *w.c[i]; T x [MAXN]; C& b = *w.c[j];
	if (st.op == OP_math) return false;
	const bool sgn = T(-1) < T(0), sat = !sgn || (is_same<C,tuple<8,int8_t> >::value || is_same<C,tuple<4,int16_t> >::value); const int bits = sizeof(T)*8;
	const int o = st.a[4] % 14; const bool three = st.op == OP_pack3; const int lhs = three ? i : j, rhs = three ? j : i, out = three ? t : j;
	if (three && (t == i || t == j)) return false;
	if (((o == 9 || o == 10) && !sat) || ((o == 7 || o == 8 || o == 13) && sgn) || (o == 9 && !three)) return false;
	const __int128 top = sgn ? ((__int128)1 << (bits-1))-1 : ((__int128)1 << bits)-1, lo = sgn ? -top-1 : (__int128)0;
	for (size_t q = 0; q < N; ++q) {
	    const T p = w.m[lhs][q], r = w.m[rhs][q]; __int128 z = 0;
	    switch (o) {
		case 0: case 1: case 2: case 3: if (!Tr<T>::calc(o,p,r,x[q])) return false; continue;
		case 4: x[q] = p & r; continue; case 5: x[q] = p | r; continue; case 6: x[q] = p ^ r; continue;
		case 7: case 8: if ((uint64_t)r >= (uint64_t)bits || (bits == 16 && r > 14)) return false; x[q] = o == 7 ? T(p << r) : T(p >> r); continue;
		case 9: z = (__int128)p + r; break; case 10: z = (__int128)p - r; break;
		case 11: x[q] = p < r ? p : r; continue; case 12: x[q] = p < r ? r : p; continue;
		default: if (bits >= 32 && (__int128)p + r + 1 > top) return false; x[q] = T(((__int128)p + r + 1)/2); continue;
	    }
	    x[q] = T(z > top ? top : z < lo ? lo : z);
	}
	if (three) { C& d = *w.c[t]; switch (o) {
	    case 0: TRYB(k, simd::padd (a,b,d)); break; case 1: TRYB(k, simd::psub (a,b,d)); break; case 2: TRYB(k, simd::pmul (a,b,d)); break; case 3: TRYB(k, simd::pdiv (a,b,d)); break; case 4: TRYB(k, simd::pand (a,b,d)); break; case 5: TRYB(k, simd::por (a,b,d)); break; case 6: TRYB(k, simd::pxor (a,b,d)); break;
	    case 7: TRYB(k, simd::pshl (a,b,d)); break; case 8: TRYB(k, simd::pshr (a,b,d)); break; case 9: TRYB(k, simd::padds (a,b,d)); break; case 10: TRYB(k, simd::psubs (a,b,d)); break; case 11: TRYB(k, simd::pmin (a,b,d)); break; case 12: TRYB(k, simd::pmax (a,b,d)); break; default: TRYB(k, simd::pavg (a,b,d)); } }
	else switch (o) {
	    case 0: TRYB(k, simd::padd (a,b)); break; case 1: TRYB(k, simd::psub (a,b)); break; case 2: TRYB(k, simd::pmul (a,b)); break; case 3: TRYB(k, simd::pdiv (a,b)); break; case 4: TRYB(k, simd::pand (a,b)); break; case 5: TRYB(k, simd::por (a,b)); break; case 6: TRYB(k, simd::pxor (a,b)); break;
	    case 7: TRYB(k, simd::pshl (a,b)); break; case 8: TRYB(k, simd::pshr (a,b)); break; case 10: TRYB(k, simd::psubs (a,b)); break; case 11: TRYB(k, simd::pmin (a,b)); break; case 12: TRYB(k, simd::pmax (a,b)); break; default: TRYB(k, simd::pavg (a,b)); }
	w.settle(k,out,x); probe(P_SIMD); return true;
    }
};
template <typename C, size_t N> struct NoPack { static bool go(World<C,Tok,N>&, const Step&, Rng&, Caught&) { return false; } };
template <typename C, typename T, size_t N> struct PackOf { typedef Pack<C,T,N,!Tr<T>::flt> t; };
template <typename C, size_t N> struct PackOf<C,Tok,N> { typedef NoPack<C,N> t; };

template <typename T, size_t N> void listput(tuple<N,T>& a, std::initializer_list<T> l, unsigned var) { if (var & 64) a.assign (l); else a = l; }
template <typename T, size_t N> void listput(array<T,N>&, std::initializer_list<T>, unsigned) {}

template <typename C, typename T, size_t N> void op(World<C,T,N>& w, const Step& st)
{
    typedef Tr<T> R; typedef typename R::M M;
    const int i = (int)st.a[0], j = (int)st.a[1], t = (int)st.a[2]; const unsigned var = (unsigned)st.a[4]; Rng r ((uint64_t)st.a[3]);
    Caught k; k.kind = TH_NONE; M x [MAXN], s; const int o = var % 4; s = R::rnd(r,var & 16);
    if (i == j) probe(P_SELF);
    switch (st.op) {
	case OP_set: { const bool small = var & 1; for (size_t q = 0; q < N; ++q) { x[q] = R::rnd(r,small); } if (var % 16 < 2) for (size_t q = 0; q < N; ++q) if (r.below(4)) x[q] = w.m[j][q]; { HxScope hx; for (size_t q = 0; q < N; ++q) { T v (x[q]); if (q & 1) w.c[i]->at(q) = v; else (*w.c[i])[q] = v; w.m[i][q] = x[q]; } } break; }
	case OP_assign: for (size_t q = 0; q < N; ++q) x[q] = w.m[j][q]; TRYB(k, *w.c[i] = *w.c[j]); w.settle(k,i,x); break;
	case OP_construct: if (var & 1) { TRYB(k, C n (*w.c[i]); { HxScope hx; w.same (n,w.m[i],"a copy"); }); w.failed(k); } else if (!Only<C,T,N>::construct(w,st,r,k)) return; break;
	case OP_scalar: { for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],s,x[q])) return; T v (s); TRYB(k, opassign (o,*w.c[i],v)); w.settle(k,i,x); break; }
	case OP_scalar_new: { for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],s,x[q])) return; T v (s); const C& a = *w.c[i]; TRYB(k, C n (o == ADD ? a + v : o == SUB ? a - v : o == MUL ? a * v : a / v); { HxScope hx; w.same (n,x,"combined with one value"); }); w.failed(k); break; }
	case OP_with: for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],w.m[j][q],x[q])) return; TRYB(k, opassign (o,*w.c[i],*w.c[j])); w.settle(k,i,x); break;
	case OP_with_new: { for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],w.m[j][q],x[q])) return; const C &a = *w.c[i], &b = *w.c[j]; TRYB(k, C n (o == ADD ? a + b : o == SUB ? a - b : o == MUL ? a * b : a / b); { HxScope hx; w.same (n,x,"combined with another"); }); w.failed(k); break; }
	case OP_list: { const size_t n = w.is_array ? N : (size_t)r.below(N+2); M v [MAXN+2]; for (size_t q = 0; q < n; ++q) v[q] = R::rnd(r,var & 16); const bool put = (var & 32) && !w.is_array;
	    for (size_t q = 0; q < N; ++q) if (put) x[q] = q < n ? v[q] : M(0); else if (q >= n) x[q] = w.m[i][q]; else if (!R::calc(o,w.m[i][q],v[q],x[q])) return;
	    if (n < N) probe(P_SHORTLIST); T* l; { HxScope hx; l = (T*)arena_place(sizeof(T)*(n ? n : 1),0); for (size_t q = 0; q < n; ++q) new (l+q) T (v[q]); }
	    if (put) TRYB(k, listput (*w.c[i],ilist (static_cast<const T*>(l),n),var)); else TRYB(k, listassign (o,*w.c[i],ilist (static_cast<const T*>(l),n)));
	    { HxScope hx; for (size_t q = 0; q < n; ++q) l[q].~T(); } w.settle(k,i,x); break; }
	case OP_swap: { for (size_t q = 0; q < N; ++q) x[q] = w.m[j][q]; TRYB(k, if (var & 1) w.c[i]->swap (*w.c[j]); else swap (*w.c[i],*w.c[j]));
	    if (i == j) { w.settle(k,i,x); break; } M y [MAXN]; for (size_t q = 0; q < N; ++q) y[q] = w.m[i][q];
	    w.settle(k,i,x); w.settle(k,j,y); break; }
	case OP_compare: { bool eq = true, lt = false, ge = false, gi = false; for (size_t q = 0; q < N; ++q) { if (!(w.m[i][q] == w.m[j][q])) { eq = false; lt = w.m[i][q] < w.m[j][q]; break; } } if (eq && i != j) probe(P_EQUAL);
	    TRYB(k, ge = *w.c[i] == *w.c[j]; gi = *w.c[i] < *w.c[j]); if (w.failed(k)) break; if (ge != eq) bad("wrong-answer","equal",ge,eq); if (gi != lt) bad("wrong-answer","less",gi,lt); break; }
	case OP_access: { const C& a = *w.c[i]; if (a.size() != N || a.max_size() != N || a.empty() || (size_t)(a.end() - a.begin()) != N || (size_t)(w.c[i]->end() - w.c[i]->begin()) != N || w.c[i]->begin() != a.begin()) bad("wrong-answer","size",a.size(),N); for (size_t q = 0; q < N; ++q) if (!(R::val(a[q]) == w.m[i][q]) || !(R::val(a.at (q)) == w.m[i][q]) || &a[q] != a.begin()+q || &w.c[i]->at (q) != a.begin()+q) bad("wrong-element","access",q); break; }
	case OP_fill: { T v (s); for (size_t q = 0; q < N; ++q) x[q] = s; TRYB(k, fill (*w.c[t],v)); w.settle(k,t,x); break; }
	case OP_convert: if (!Only<C,T,N>::convert(w,st,k)) return; break;
	case OP_pack: case OP_pack3: case OP_math: if (!PackOf<C,T,N>::t::go(w,st,r,k)) return; break;
	default: return;
    }
    w.check("after the operation"); for (size_t q = 0; q < N; ++q) sim_mix((uint64_t)(int64_t)w.m[i][q]);
}

template <typename C, typename T, size_t N> void run(const Plan& p)
{
    World<C,T,N> w;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si); const Step& st = p.steps[si]; what = OPS[st.op]; const int64_t l0 = g_live;
	op(w,st); if (g_live != l0) bad("leak","elements alive",g_live,l0);
	sim_sig(st.op*64+(int)p.cfg[C_KIND]);
    }
}
//---------------------------------------------------------------- matrices
template <size_t NX, size_t NY, typename T> struct Mat {
    typedef matrix<NX,NY,T> C; enum { N = NX*NY }; typedef Tr<T> R; typedef typename R::M M; typedef World<C,T,N> W;
    static M add(M a, M b) { return M(uint64_t(int64_t(a))+uint64_t(int64_t(b))); }
    template <bool SQ, int D> struct Square { static void go(W& w, int i, unsigned var, Caught& k) {
	M x [MAXN]; if (var & 1) { for (size_t q = 0; q < N; ++q) x[q] = M(q % (NX+1) == 0); TRYB(k, load_identity (*w.c[i])); } else { for (size_t a = 0; a < NY; ++a) for (size_t b = 0; b < NX; ++b) x[a*NX+b] = w.m[i][b*NX+a]; TRYB(k, transpose (*w.c[i])); }
	if (w.failed(k)) { M y [MAXN]; for (size_t q = 0; q < N; ++q) y[q] = (var & 1) ? M(0) : x[q]; for (size_t q = 0; q < N; ++q) { const M v = R::val(w.c[i]->begin()[q]); if (!(v == x[q]) && !(v == y[q]) && !(v == w.m[i][q])) bad("torn","element after a failed operation",(long long)v,(long long)x[q]); w.m[i][q] = v; } } else for (size_t q = 0; q < N; ++q) w.m[i][q] = x[q];
    } };
    template <int D> struct Square<false,D> { static void go(W&, int, unsigned, Caught&) {} };
    static void op(W& w, const Step& st)
    {
	const int i = (int)st.a[0], j = (int)st.a[1]; const unsigned var = (unsigned)st.a[4]; Rng r ((uint64_t)st.a[3]); Caught k; k.kind = TH_NONE; M x [MAXN], s = M(r.range(Tr<T>::sgn ? -5 : 0,5)); const int o = var % 4; C& a = *w.c[i];
	switch (st.op) {
	    case OP_set: { HxScope hx; for (size_t q = 0; q < N; ++q) { const M v = M(r.range(Tr<T>::sgn ? -20 : 0,20)); a[q/NX][q%NX] = T (v); w.m[i][q] = v; } break; }
	    case OP_assign: for (size_t q = 0; q < N; ++q) x[q] = w.m[j][q]; TRYB(k, a = *w.c[j]); w.settle(k,i,x); break;
	    case OP_construct: TRYB(k, C n (a); { HxScope hx; w.same (n,w.m[i],"a copy"); }); w.failed(k); break;
	    case OP_swap: { if (i == j) return; M y [MAXN]; for (size_t q = 0; q < N; ++q) { x[q] = w.m[j][q]; y[q] = w.m[i][q]; } TRYB(k, a.swap (*w.c[j])); w.settle(k,i,x); w.settle(k,j,y); break; }
	    case OP_scalar: { for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],s,x[q]) || (Tr<T>::flt && x[q] != M(int(x[q])))) return; T v (s); TRYB(k, opassign (o,a,v)); w.settle(k,i,x); break; }
	    case OP_scalar_new: { for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],s,x[q])) return; T v (s); const C& b = a; TRYB(k, C n (o == ADD ? b + v : o == SUB ? b - v : o == MUL ? b * v : b / v); { HxScope hx; w.same (n,x,"combined with one value"); }); w.failed(k); break; }
	    case OP_with: for (size_t q = 0; q < N; ++q) if (!R::calc(o,w.m[i][q],w.m[j][q],x[q]) || (Tr<T>::flt && (x[q] != M(int(x[q])) || x[q] > M(1e6) || x[q] < M(-1e6)))) return; { tuple<N,T>& ta = a; const tuple<N,T>& tb = *w.c[j]; TRYB(k, opassign (o,ta,tb)); } w.settle(k,i,x); break;
	    case OP_compare: { bool eq = true, g = false; for (size_t q = 0; q < N; ++q) eq &= w.m[i][q] == w.m[j][q]; const tuple<N,T> &ta = a, &tb = *w.c[j]; TRYB(k, g = ta == tb); if (!w.failed(k) && g != eq) bad("wrong-answer","equal",g,eq); break; }
	    case OP_convert: { matrix<NX,NY,double> d; for (size_t q = 0; q < N; ++q) d[q/NX][q%NX] = double(q*3); TRYB(k, C n (d); { HxScope hx; for (size_t q = 0; q < N; ++q) x[q] = M(q*3); w.same (n,x,"converted"); }); if (w.failed(k)) break; TRYB(k, a = d); w.settle(k,i,x); break; }
	    case OP_access: { const C& b = a; if (b.rows() != NY || b.columns() != NX || b.size() != N) bad("wrong-answer","rows and columns",b.rows(),NY);
		const size_t y = var % NY, z = var % NX; TRYB(k, typename C::row_type rw (b.row (y)); typename C::column_type cl (b.column (z)); { HxScope hx; for (size_t q = 0; q < NX; ++q) if (!(R::val(rw[q]) == w.m[i][y*NX+q]) || b[y]+q != b.begin()+y*NX+q || b.at (y) != b[y]) bad("wrong-element","row",q); for (size_t q = 0; q < NY; ++q) if (!(R::val(cl[q]) == w.m[i][q*NX+z])) bad("wrong-element","column",q); }); w.failed(k); break; }
	    case OP_math: case OP_pack: { // product with a matrix of the other shape
		for (size_t q = 0; q < N; ++q) if (w.m[i][q] > M(500) || (Tr<T>::sgn && w.m[i][q] < M(-500))) return;
		uint8_t* m = place(sizeof(matrix<NY,NX,T>)); matrix<NY,NX,T>* b; M bm [MAXN]; { HxScope hx; b = new (m+PRE) matrix<NY,NX,T>; for (size_t q = 0; q < N; ++q) { bm[q] = M(r.range(Tr<T>::sgn ? -20 : 0,20)); b->begin()[q] = T (bm[q]); } }
		M y [MAXN]; for (size_t p = 0; p < NY; ++p) for (size_t q = 0; q < NY; ++q) { M d = 0; for (size_t z = 0; z < NX; ++z) d = M(d + w.m[i][p*NX+z]*bm[z*NY+q]); y[p*NY+q] = d; }
		TRYB(k, matrix<NY,NY,T> n (a * *b); { HxScope hx; for (size_t q = 0; q < NY*NY; ++q) if (!(R::val(n.begin()[q]) == y[q])) { bad("wrong-element","product",(long long)R::val(n.begin()[q]),(long long)y[q]); break; } });
		w.failed(k); { HxScope hx; b->~matrix<NY,NX,T>(); } front(m); break; }
	    case OP_pack3: {	// a vector transformed
		for (size_t q = 0; q < N; ++q) if (w.m[i][q] > M(500) || (Tr<T>::sgn && w.m[i][q] < M(-500))) return;
		uint8_t* m = place(sizeof(tuple<NY,T>)); tuple<NY,T>* v; M vm [MAXN]; { HxScope hx; v = new (m+PRE) tuple<NY,T>; for (size_t q = 0; q < NY; ++q) { vm[q] = M(r.range(Tr<T>::sgn ? -20 : 0,20)); (*v)[q] = T (vm[q]); } }
		M y [MAXN]; for (size_t q = 0; q < NX; ++q) { M d = 0; for (size_t z = 0; z < NY; ++z) d = M(d + vm[z]*w.m[i][z*NX+q]); y[q] = d; }
		TRYB(k, tuple<NX,T> n (*v * a); { HxScope hx; for (size_t q = 0; q < NX; ++q) if (!(R::val(n[q]) == y[q])) { bad("wrong-element","transformed",(long long)R::val(n[q]),(long long)y[q]); break; } });
		w.failed(k); { HxScope hx; v->~tuple<NY,T>(); } front(m); break; }
	    case OP_special: Square<NX==NY,0>::go (w,i,var,k); break;
	    default: return;
	}
	probe(P_MATRIX); w.check("after the operation");
    }
    static void run(const Plan& p)
    {
	W w;
	for (size_t si = 0; si < p.steps.size(); ++si) { step_begin(p,si); const Step& st = p.steps[si]; what = OPS[st.op]; const int64_t l0 = g_live; op(w,st); if (g_live != l0) bad("leak","elements alive",g_live,l0); sim_sig(st.op*64+(int)p.cfg[C_KIND]); }
    }
};
//---------------------------------------------------------------- bits
template <size_t S> struct Bits {
    typedef bitset<S> C; enum { NW = (S+31)/32, NB = NW*32 };
    static void run(const Plan& p)
    {
	uint8_t* mem [NS]; C* c [NS]; uint8_t m [NS][NB]; bool tail [NS];	// tail: the bits after the last are known to be off
	for (int i = 0; i < NS; ++i) { mem[i] = place(sizeof(C)); memset(mem[i]+PRE,0xA5,sizeof(C)); LIB(c[i] = new (mem[i]+PRE) C (i)); memset(m[i],0,NB); m[i][0] = i & 1; if (S > 1) m[i][1] = i >> 1; tail[i] = S > 1 || i < 2; }
	if (sizeof(C) != NB/8) bad("wrong-size","size of the set",sizeof(C),NB/8);
	for (size_t si = 0; si < p.steps.size(); ++si) {
	    step_begin(p,si); const Step& st = p.steps[si]; what = OPS[st.op]; sim_sig(st.op*64+(int)p.cfg[C_KIND]);
	    const int i = (int)st.a[0], j = (int)st.a[1], t = (int)st.a[2]; const unsigned var = (unsigned)st.a[4]; Rng r ((uint64_t)st.a[3]); Caught k; k.kind = TH_NONE; C& a = *c[i]; const C& b = *c[j]; const size_t n = var % S;
	    switch (st.op) {
		case OP_set: switch (var % 3) { case 0: TRYB(k, a.set (n)); m[i][n] = 1; break; case 1: TRYB(k, a.set (n,var & 8)); m[i][n] = !!(var & 8); break; default: TRYB(k, a.reset (n)); m[i][n] = 0; } break;
		case OP_special: TRYB(k, a.flip (n)); m[i][n] ^= 1; break;
		case OP_fill: switch (var % 4) { case 0: TRYB(k, a.set()); memset(m[i],1,NB); tail[i] = S == NB; break; case 1: TRYB(k, a.reset()); memset(m[i],0,NB); tail[i] = true; break; case 2: TRYB(k, a.clear()); memset(m[i],0,NB); tail[i] = true; break; default: TRYB(k, a.flip()); for (size_t q = 0; q < S; ++q) m[i][q] ^= 1; tail[i] = S == NB; } break;
		case OP_assign: TRYB(k, a = b); memcpy(m[i],m[j],NB); tail[i] = tail[j]; break;
		case OP_scalar: { const uint32_t v = (uint32_t)r.next(); TRYB(k, a = v); memset(m[i],0,NB); for (size_t q = 0; q < 32 && q < S; ++q) m[i][q] = v >> q & 1; tail[i] = S >= 32; if (S >= 32 && a.to_value() != v) bad("wrong-answer","to_value",a.to_value(),v); break; }
		case OP_construct: { // from text
		    Bytes x; const size_t l = r.below(3) ? r.below(S+1) : S + r.below(5); for (size_t q = 0; q < l; ++q) x.push(r.below(2) ? '1' : '0'); string s; { HxScope hx; s.assign ((const char*)x.data(),x.size()); }
		    TRYB(k, C q (s); a = q); if (k.kind) break; memset(m[i],0,NB); for (size_t q = 0; q < l && q < S; ++q) m[i][q] = x[l-1-q] == '1'; tail[i] = l <= S || S == NB; HxScope hx; string z; s.swap (z); break; }
		case OP_with: switch (var % 3) { case 0: TRYB(k, a &= b); for (size_t q = 0; q < S; ++q) m[i][q] &= m[j][q]; tail[i] = tail[i] || tail[j]; break; case 1: TRYB(k, a |= b); for (size_t q = 0; q < S; ++q) m[i][q] |= m[j][q]; tail[i] = tail[i] && tail[j]; break; default: TRYB(k, a ^= b); for (size_t q = 0; q < S; ++q) m[i][q] ^= m[j][q]; tail[i] = tail[i] && tail[j]; } break;
		case OP_with_new: { C& d = *c[t]; uint8_t w [NB]; const bool ti = tail[i], tj = tail[j]; for (size_t q = 0; q < S; ++q) w[q] = var % 4 == 0 ? m[i][q] & m[j][q] : var % 4 == 1 ? m[i][q] | m[j][q] : var % 4 == 2 ? m[i][q] ^ m[j][q] : !m[i][q]; TRYB(k, d = var % 4 == 0 ? a & b : var % 4 == 1 ? a | b : var % 4 == 2 ? a ^ b : ~a); memcpy(m[t],w,S); tail[t] = var % 4 == 0 ? ti || tj : var % 4 == 3 ? S == NB : ti && tj; break; }
		case OP_pack: case OP_list: { // a range of bits within a word
		    const size_t wd = r.below(NW), f = r.below(31), l = f+1+r.below(31-f), lo = wd*32+f, hi = wd*32+l; if (hi > S) break; const uint32_t mask = (l-f) == 32 ? ~0u : (1u << (l-f))-1;
		    if (st.op == OP_pack) { const uint32_t v = (uint32_t)r.next() & mask; TRYB(k, a.set (lo,hi,v)); for (size_t q = lo; q < hi; ++q) m[i][q] = v >> (q-lo) & 1; }
		    uint32_t w = 0, g = 0; for (size_t q = lo; q < hi; ++q) w |= uint32_t(m[i][q]) << (q-lo); TRYB(k, g = a.at (lo,hi)); if (g != w) bad("wrong-answer","range of bits",g,w); break; }
		case OP_compare: { bool g; TRYB(k, g = a == b); if (tail[i] && tail[j]) { const bool w = !memcmp(m[i],m[j],S); if (g != w) bad("wrong-answer","equal",g,w); if (w && i != j) probe(P_EQUAL); } break; }
		case OP_access: { size_t g = 0; bool an = false, no = false;
		    if (!r.below(3)) {	// only a few bits, the same of some words
			const size_t bit = r.chance(500) ? 31 : r.below(32), every = 1+r.below(3); TRYB(k, a.reset()); memset(m[i],0,NB); tail[i] = true;
			for (size_t q = bit; q < S; q += 32*every) { TRYB(k, a.set (q)); m[i][q] = 1; }
		    }
		    TRYB(k, g = a.count(); an = a.any(); no = a.none()); if (tail[i]) { size_t w = 0; for (size_t q = 0; q < S; ++q) w += m[i][q]; if (g != w) bad("wrong-answer","count",g,w); if (an != !!w || no != !w) bad("wrong-answer","any or none",an,w); } if (a.size() != S || a.capacity() != NB || a.stream_size() != NB/8 || (size_t)(a.end()-a.begin()) != NW) bad("wrong-answer","size",a.size(),S); break; }
		case OP_convert: { string s; TRYB(k, s = a.to_string()); if (k.kind) break; if (s.size() != S) bad("wrong-text","length",s.size(),S); else for (size_t q = 0; q < S; ++q) if (s.c_str()[S-1-q] != (m[i][q] ? '1' : '0')) { bad("wrong-text","bit",q); break; }
		    if (var & 2) {	// written to a text stream, and read from one, spaces between
			char txt [2*S+8]; size_t l = 0; string o; TRYB(k, ostringstream os; os << a; o = os.str()); if (k.kind) break;
			if (o.size() != S || memcmp(o.begin(),s.begin(),S)) { bad("wrong-text","text written",o.size(),S); break; }
			for (size_t q = 0; q < S; ++q) { if (r.chance(150)) txt[l++] = r.chance(500) ? ' ' : '\n'; txt[l++] = s.begin()[q]; } txt[l++] = '1';
			bool g = false; size_t ps = 0; char* tp = (char*)arena_place(l,txt); TRYB(k, istringstream is (tp,l); is >> *c[t]; g = is.good(); ps = is.pos());
			if (!k.kind) { memcpy(m[t],m[i],S); if (!g || ps != l-1) bad("wrong-position","bits read from text",ps,l-1); }
			break;
		    }
		    if (var & 1) { TRYB(k, C d (s); *c[t] = d); if (!k.kind) { memcpy(m[t],m[i],S); tail[t] = true; } } break; }
		default: continue;
	    }
	    probe(P_BITS);
	    if (k.kind) { if (k.kind == TH_ALLOC && sim.allocfailed) probe(P_ALLOC); else bad("unexpected-exception",thname(k.kind)); }
	    for (int z = 0; z < NS; ++z) { front(mem[z]); for (size_t q = 0; q < S; ++q) if (c[z]->test (q) != !!m[z][q] || (*c[z])[q] != !!m[z][q] || c[z]->at (q) != m[z][q]) { bad("wrong-bit","bit",q,m[z][q]); break; } }
	}
    }
};
#define KINDS(X) \
    X("tuple<1,u32>",(run<tuple<1,uint32_t>,uint32_t,1>)) X("tuple<2,float>",(run<tuple<2,float>,float,2>)) X("tuple<2,u16>",(run<tuple<2,uint16_t>,uint16_t,2>)) X("tuple<2,i16>",(run<tuple<2,int16_t>,int16_t,2>)) X("tuple<2,i32>",(run<tuple<2,int32_t>,int32_t,2>)) X("tuple<2,u32>",(run<tuple<2,uint32_t>,uint32_t,2>)) \
    X("tuple<3,u64>",(run<tuple<3,uint64_t>,uint64_t,3>)) X("tuple<3,element>",(run<tuple<3,Tok>,Tok,3>)) X("tuple<4,u16>",(run<tuple<4,uint16_t>,uint16_t,4>)) X("tuple<4,i16>",(run<tuple<4,int16_t>,int16_t,4>)) X("tuple<4,u32>",(run<tuple<4,uint32_t>,uint32_t,4>)) X("tuple<4,i32>",(run<tuple<4,int32_t>,int32_t,4>)) \
    X("tuple<4,float>",(run<tuple<4,float>,float,4>)) X("tuple<5,double>",(run<tuple<5,double>,double,5>)) X("tuple<8,u8>",(run<tuple<8,uint8_t>,uint8_t,8>)) X("tuple<8,i8>",(run<tuple<8,int8_t>,int8_t,8>)) X("tuple<16,u8>",(run<tuple<16,uint8_t>,uint8_t,16>)) X("tuple<4,element>",(run<tuple<4,Tok>,Tok,4>)) \
    X("tuple<2,u64>",(run<tuple<2,uint64_t>,uint64_t,2>)) X("tuple<7,i16>",(run<tuple<7,int16_t>,int16_t,7>)) X("tuple<2,element>",(run<tuple<2,Tok>,Tok,2>)) X("tuple<1,element>",(run<tuple<1,Tok>,Tok,1>)) X("tuple<16,float>",(run<tuple<16,float>,float,16>)) X("tuple<16,i32>",(run<tuple<16,int32_t>,int32_t,16>)) X("tuple<5,i64>",(run<tuple<5,int64_t>,int64_t,5>)) \
    X("array<u8,3>",(run<array<uint8_t,3>,uint8_t,3>)) X("array<u32,4>",(run<array<uint32_t,4>,uint32_t,4>)) X("array<float,4>",(run<array<float,4>,float,4>)) X("array<element,3>",(run<array<Tok,3>,Tok,3>)) X("array<i64,2>",(run<array<int64_t,2>,int64_t,2>)) X("array<u16,5>",(run<array<uint16_t,5>,uint16_t,5>)) X("array<element,1>",(run<array<Tok,1>,Tok,1>)) X("array<element,6>",(run<array<Tok,6>,Tok,6>)) X("array<i32,16>",(run<array<int32_t,16>,int32_t,16>)) \
    X("matrix<4,4,float>",(Mat<4,4,float>::run)) X("matrix<4,4,i32>",(Mat<4,4,int32_t>::run)) X("matrix<3,3,element>",(Mat<3,3,Tok>::run)) X("matrix<2,3,u32>",(Mat<2,3,uint32_t>::run)) X("matrix<3,2,i32>",(Mat<3,2,int32_t>::run)) X("matrix<2,2,double>",(Mat<2,2,double>::run)) X("matrix<4,4,u32>",(Mat<4,4,uint32_t>::run)) \
    X("bitset<1>",(Bits<1>::run)) X("bitset<20>",(Bits<20>::run)) X("bitset<32>",(Bits<32>::run)) X("bitset<33>",(Bits<33>::run)) X("bitset<64>",(Bits<64>::run)) X("bitset<70>",(Bits<70>::run)) X("bitset<128>",(Bits<128>::run))
struct Kind { const char* name; void (*run)(const Plan&); };
const Kind KIND [] = {
#define X(n,f) { n, f },
KINDS(X)
#undef X
};
static_assert(sizeof(KIND)/sizeof(KIND[0]) == N_KINDS,"kinds");
void exec(const Plan& p)
{
    g_live = 0; g_tok.clear(); const Kind& k = KIND[p.cfg[C_KIND] % N_KINDS]; g_kind = k.name; what = "construction";
    k.run (p);
    sim.step = 0; what = "end"; if (g_live) bad("leak","elements alive",g_live,0); arena_check_leaks("A02","after the containers are gone");
}
const Scenario SC = { "fxc", "A02", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&SC);
}
