// Algorithms over guarded ranges: exact results, nothing outside the ranges touched, every element alive,
// also when copying, comparing or allocating fails at a chosen point.
#include <ucontext.h>
#include <sys/mman.h>
#include "common.h"
using namespace ustl;
extern "C" void* __real_mmap(void*, size_t, int, int, int, long);

namespace {
struct Boom { int n; };
struct KT { int64_t k; int t; };
bool operator==(const KT& a, const KT& b) { return a.k == b.k && a.t == b.t; }
typedef Vec<KT> Mod;

const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("A01",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }

#include "functors.h"
//---------------------------------------------------------------- elements
Vec<uint8_t> g_tok; int64_t g_live; bool g_nothrow; int g_boomed;
enum { MAGIC = 0x70C0A160 };
void throwpt(void)
{
    if (!sim.on || g_nothrow) return;
    if (fault_at(F_THROW, sim.ctoridx++)) { fired(F_THROW); ++g_boomed; Boom b = { sim.ctoridx }; throw b; }
}
struct TokB {
    uint32_t magic, serial; int64_t k; int t; void* mem;
    void born(int64_t kk, int tt) { HxScope hx; magic = MAGIC; serial = g_tok.size(); k = kk; t = tt; g_tok.push(1); ++g_live; }
    void alive(const char* msg) const { if (magic != MAGIC || serial >= g_tok.size() || g_tok[serial] != 1) bad("dead-element",msg); }
    static void* payload(void) { throwpt(); void* p = malloc(1); if (!p) throw ustl::bad_alloc(1); return p; }
    void die(void) { alive("destroyed memory that holds no element"); if (magic == MAGIC && serial < g_tok.size()) { if (g_tok[serial] == 1) --g_live; g_tok[serial] = 2; } free(mem); mem = 0; magic = 0xDEADDEAD; }
};
#define TOKOPS(T) \
    bool operator<(const T& o) const { alive("compared with no element"); o.alive("compared with no element"); throwpt(); return k < o.k; } \
    bool operator==(const T& o) const { alive("compared with no element"); o.alive("compared with no element"); throwpt(); return k == o.k; } \
    T operator+(const T& o) const { alive("added no element"); o.alive("added no element"); return T (k+o.k,0); } \
    T operator-(const T& o) const { alive("subtracted no element"); o.alive("subtracted no element"); return T (k-o.k,0); } \
    T operator*(const T& o) const { alive("multiplied no element"); o.alive("multiplied no element"); return T (k*o.k,0); }
struct TokC : TokB {
    TokC() { mem = payload(); born(0,0); }
    TokC(int64_t kk, int tt) { mem = payload(); born(kk,tt); }
    TokC(const TokC& o) { o.alive("copied from no element"); mem = payload(); born(o.k,o.t); }
    TokC& operator=(const TokC& o) { alive("assigned to no element"); o.alive("assigned from no element"); void* p = payload(); free(mem); mem = p; k = o.k; t = o.t; return *this; }
    ~TokC() { die(); }
    TOKOPS(TokC)
};
struct TokM : TokB {
    TokM() { mem = payload(); born(0,0); }
    TokM(int64_t kk, int tt) { mem = payload(); born(kk,tt); }
    TokM(const TokM& o) { o.alive("copied from no element"); mem = payload(); born(o.k,o.t); }
    TokM(TokM&& o) { o.alive("moved from no element"); mem = o.mem; o.mem = 0; born(o.k,o.t); o.k = o.t = -1; }
    TokM& operator=(const TokM& o) { alive("assigned to no element"); o.alive("assigned from no element"); void* p = payload(); free(mem); mem = p; k = o.k; t = o.t; return *this; }
    TokM& operator=(TokM&& o) { alive("assigned to no element"); o.alive("assigned from no element"); if (&o != this) { free(mem); mem = o.mem; o.mem = 0; k = o.k; t = o.t; o.k = o.t = -1; } return *this; }
    ~TokM() { die(); }
    TOKOPS(TokM)
};
inline int64_t& operator+=(int64_t& a, const TokC& o) { o.alive("added no element"); throwpt(); return a += o.k; }
inline int64_t& operator+=(int64_t& a, const TokM& o) { o.alive("added no element"); throwpt(); return a += o.k; }
template <typename E> struct Tr {
    enum { tagged = 0, tok = 0, num = 1, top = 60 };
    static E mk(int64_t k, int) { return E(k); }
    static int64_t key(const E& e) { return (int64_t)e; }
    static int tag(const E&) { return 0; }
    static uint32_t id(const E&) { return 0; }
    static int64_t wrap(int64_t k) { return (int64_t)E(k); }
};
template <typename T> struct TrTok {
    enum { tagged = 1, tok = 1, num = 1, top = 60 };
    static T mk(int64_t k, int t) { return T (k,t); }
    static int64_t key(const T& e) { return e.k; }
    static int tag(const T& e) { return e.t; }
    static uint32_t id(const T& e) { e.alive("an element of the range is not alive"); return e.serial; }
    static int64_t wrap(int64_t k) { return k; }
};
template <> struct Tr<TokC> : TrTok<TokC> {};
template <> struct Tr<TokM> : TrTok<TokM> {};
const char g_suffix [] = "0123456789 is not a short text";
template <> struct Tr<string> {
    enum { tagged = 0, tok = 0, num = 0, top = 60 };
    static string mk(int64_t k, int) { char b [64]; size_t n = 0; b[n++] = '0'+k/100%10; b[n++] = '0'+k/10%10; b[n++] = '0'+k%10; const size_t sn = k % 3 ? sizeof(g_suffix)-1 : 0; memcpy(b+n,g_suffix,sn); return string (b,n+sn); }
    static int64_t key(const string& s) {
	if (s.size() < 3) return -1;
	const char* p = s.begin(); const int64_t k = (p[0]-'0')*100+(p[1]-'0')*10+(p[2]-'0'); const size_t sn = k % 3 ? sizeof(g_suffix)-1 : 0;
	return k < 0 || k > 999 || s.size() != 3+sn || memcmp(p+3,g_suffix,sn) || p[3+sn] ? -2 : k;
    }
    static int tag(const string&) { return 0; }
    static uint32_t id(const string&) { return 0; }
    static int64_t wrap(int64_t k) { return k; }
};
//---------------------------------------------------------------- orders and predicates
int g_ord, g_pm, g_pr;
bool klt(int64_t a, int64_t b) { switch (g_ord) { case 1: return a > b; case 2: return a % 4 < b % 4; default: return a < b; } }
bool keq(int64_t a, int64_t b) { return g_ord ? a % 4 == b % 4 : a == b; }
bool kpr(int64_t a) { return a % g_pm == g_pr; }
template <typename E> struct Cmp { bool operator()(const E& a, const E& b) const { Tr<E>::id(a); Tr<E>::id(b); throwpt(); return klt(Tr<E>::key(a),Tr<E>::key(b)); } };
template <typename E> struct Eq { bool operator()(const E& a, const E& b) const { Tr<E>::id(a); Tr<E>::id(b); throwpt(); return keq(Tr<E>::key(a),Tr<E>::key(b)); } };
template <typename E> struct Pr { bool operator()(const E& a) const { Tr<E>::id(a); throwpt(); return kpr(Tr<E>::key(a)); } };
template <typename E> struct Un { E operator()(const E& a) const { Tr<E>::id(a); throwpt(); return Tr<E>::mk((Tr<E>::key(a)+7)%61,Tr<E>::tag(a)); } };
template <typename E> struct Bi { E operator()(const E& a, const E& b) const { Tr<E>::id(a); Tr<E>::id(b); throwpt(); return Tr<E>::mk((Tr<E>::key(a)*2+Tr<E>::key(b))%61,Tr<E>::tag(a)); } };
int g_gen;
template <typename E> struct Gn { E operator()(void) const { throwpt(); const int i = g_gen++; return Tr<E>::mk(i*5%59,i+1); } };
template <typename E> struct Fe { int n; int64_t sum; Fe() : n(0), sum(0) {} void operator()(const E& e) { Tr<E>::id(e); throwpt(); sum += Tr<E>::key(e)*++n; } };

//---------------------------------------------------------------- iterators
// A user written random access iterator that refuses to look outside its range.
template <typename E> struct Chk {
    typedef E value_type; typedef ptrdiff_t difference_type; typedef E* pointer; typedef E& reference; typedef const E* const_pointer; typedef random_access_iterator_tag iterator_category;
    E *p, *lo, *hi;
    Chk() : p(0), lo(0), hi(0) {}
    Chk(E* q, E* l, E* h) : p(q), lo(l), hi(h) {}
    E& operator*() const { if (p < lo || p >= hi) { bad("outside","looked at an element outside the range",p-lo,hi-lo); sim_exit_run(); } return *p; }
    E& operator[](ptrdiff_t n) const { return *(*this + n); }
    E* operator->() const { return &**this; }
    Chk& operator++() { ++p; return *this; }
    Chk& operator--() { --p; return *this; }
    Chk operator++(int) { Chk r (*this); ++p; return r; }
    Chk operator--(int) { Chk r (*this); --p; return r; }
    Chk& operator+=(ptrdiff_t n) { p += n; return *this; }
    Chk& operator-=(ptrdiff_t n) { p -= n; return *this; }
    Chk operator+(ptrdiff_t n) const { Chk r (*this); r.p += n; return r; }
    Chk operator-(ptrdiff_t n) const { Chk r (*this); r.p -= n; return r; }
    ptrdiff_t operator-(const Chk& o) const { return p - o.p; }
    bool operator==(const Chk& o) const { return p == o.p; }
    bool operator!=(const Chk& o) const { return p != o.p; }
    bool operator<(const Chk& o) const { return p < o.p; }
    bool operator<=(const Chk& o) const { return p <= o.p; }
    bool operator>(const Chk& o) const { return p > o.p; }
    bool operator>=(const Chk& o) const { return p >= o.p; }
};
template <typename I> struct ItTr;
template <typename E> struct ItTr<E*> { typedef E elem; enum { rev = 0 }; static E* mk(E* b, size_t, size_t i) { return b+i; } };
template <typename E> struct ItTr<Chk<E> > { typedef E elem; enum { rev = 0 }; static Chk<E> mk(E* b, size_t n, size_t i) { return Chk<E> (b+i,b,b+n); } };
template <typename E> struct ItTr<reverse_iterator<E*> > { typedef E elem; enum { rev = 1 }; static reverse_iterator<E*> mk(E* b, size_t n, size_t i) { return reverse_iterator<E*> (b+n-i); } };

//---------------------------------------------------------------- ranges
enum { FRONT = 3, CANARY = 77 };
template <typename I> struct Rg {
    typedef typename ItTr<I>::elem E;
    E *mem, *b; size_t n, back; Mod o;
    Rg(const Mod& m, size_t pad) : n (m.size()), back (pad), o (m) {
	mem = (E*)arena_place((FRONT+n+back)*sizeof(E),0); b = mem+FRONT;
	for (size_t i = 0; i < FRONT; ++i) new (mem+i) E (Tr<E>::mk(CANARY,-1));
	for (size_t i = 0; i < n; ++i) { const KT& q = o[ItTr<I>::rev ? n-1-i : i]; new (b+i) E (Tr<E>::mk(q.k,q.t)); }
	for (size_t i = 0; i < back; ++i) new (b+n+i) E (Tr<E>::mk(CANARY,-1));
    }
    ~Rg() { for (size_t i = 0; i < FRONT+n+back; ++i) mem[i].~E(); }
    I at(size_t i) { return ItTr<I>::mk(b,n,i); }
    I f(void) { return at(0); }
    I l(void) { return at(n); }
    size_t total(void) const { return FRONT+n+back; }
    void read(Mod& m) const { m.setn(n); for (size_t i = 0; i < n; ++i) { const E& e = b[ItTr<I>::rev ? n-1-i : i]; m[i].k = Tr<E>::key(e); m[i].t = Tr<E>::tag(e); } }
    void intact(Vec<uint32_t>& ids) const {
	for (size_t i = 0; i < total(); ++i) {
	    const uint32_t d = Tr<E>::id(mem[i]);
	    if (Tr<E>::tok) { for (size_t j = 0; j < ids.size(); ++j) if (ids[j] == d) bad("duplicate-element","the same object occurs twice",i); ids.push(d); }
	    if ((i < FRONT || i >= FRONT+n) && Tr<E>::key(mem[i]) != CANARY) bad("outside","an element outside the range changed",(long long)i-FRONT,n);
	}
    }
    void same(const Mod& want, size_t upto, bool tags, const char* msg) const {
	Mod g; read(g);
	if (want.size() < upto || n < upto) { bad("wrong-size",msg,n,upto); return; }
	for (size_t i = 0; i < upto; ++i) if (g[i].k != want[i].k) { bad("wrong-result",msg,g[i].k,want[i].k); return; }
	if (tags && Tr<E>::tagged) for (size_t i = 0; i < upto; ++i) if (g[i].t != want[i].t) { bad("wrong-order",msg,g[i].t,want[i].t); return; }
    }
    void perm(const Mod& want, const char* msg) const {
	Mod g; read(g); Vec<uint8_t> used; used.resize(want.size());
	for (size_t i = 0; i < n; ++i) { size_t j = 0; while (j < want.size() && (used[j] || g[i].k != want[j].k || (Tr<E>::tagged && g[i].t != want[j].t))) ++j; if (j == want.size()) { bad("not-a-permutation",msg,i,g[i].k); return; } used[j] = 1; }
    }
};

#define OPLIST(X) \
    X(find) X(find_if) X(adjacent_find) X(adjacent_find_p) X(mismatch) X(equal) X(count) X(count_if) X(for_each) X(search) X(search_p) X(find_end) X(find_end_p) X(search_n) X(search_n_p) X(find_first_of) \
    X(lower_bound) X(upper_bound) X(binary_search) X(equal_range) X(lower_bound_p) X(upper_bound_p) X(binary_search_p) X(equal_range_p) X(includes) X(includes_p) X(is_sorted) X(is_sorted_p) X(lexicographical_compare) X(lexicographical_compare_p) \
    X(max_element) X(min_element) X(minmax_element) X(is_heap) X(is_heap_p) \
    X(swap_ranges) X(transform) X(transform2) X(replace) X(replace_if) X(fill) X(fill_n) X(generate) X(generate_n) X(reverse) X(rotate) X(remove) X(remove_if) X(unique) X(unique_p) X(shift_up) X(shift_down) \
    X(sort) X(sort_p) X(stable_sort) X(stable_sort_p) X(partial_sort) X(partial_sort_p) X(nth_element) X(nth_element_p) X(partition) X(stable_partition) X(inplace_merge) X(heap) X(heap_p) X(heap_sort) X(next_permutation) X(prev_permutation) X(random_shuffle) X(next_permutation_p) X(prev_permutation_p) \
    X(copy) X(copy_n) X(copy_backward) X(copy_if) X(replace_copy) X(replace_copy_if) X(reverse_copy) X(rotate_copy) X(merge) X(remove_copy) X(remove_copy_if) X(remove_copy_range) X(unique_copy) X(unique_copy_p) \
    X(set_union) X(set_union_p) X(set_intersection) X(set_intersection_p) X(set_difference) X(set_difference_p) X(set_symmetric_difference) X(set_symmetric_difference_p) X(partial_sort_copy) X(partial_sort_copy_p) X(inserted) X(moved) X(walked) X(whole) \
    X(accumulate) X(accumulate_op) X(inner_product) X(inner_product_op) X(iota) X(partial_sum) X(partial_sum_op) X(adjacent_difference) X(adjacent_difference_op) X(power) X(functors) X(helpers)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_KIND, N_CFG };
const char* const CFG [N_CFG] = { "elements" };
enum { K_TOKC, K_TOKC_R, K_TOKM, K_TOKM_W, K_STR, K_U8, K_U8_R, K_C, K_U16, K_I32, K_I32_W, K_U64, K_FLT, K_N };
enum { P_BOOM, P_ALLOC, P_DONE, P_EMPTY, P_BIG, P_FOUND, P_ABSENT, P_TRACKED, P_PLAIN, P_WRAPPED, P_REVERSED, P_TIES, N_PROBES };
const char* const PROBES [N_PROBES] = { "element_operation_threw","allocation_failed","judged_result","empty_range","more_than_100_elements","found","absent","tracked_elements","plain_elements","checked_iterators","reverse_iterators","equal_keys_in_order" };

void gen(Rng& r, Plan& p, bool faults)
{
    p.cfg[C_KIND] = r.below(K_N);
    const int n = 1 + (int)r.skewed(30);
    const int64_t big = r.chance(120) ? 300 : r.chance(500) ? 6 : 30;
    for (int i = 0; i < n; ++i) {
	Step& st = p.add(r.chance(35) ? OP_whole : r.below(N_OPS),r.skewed(big),r.skewed(big),r.below(1000),r.next()>>20,r.next()>>20,r.below(1000));
	if (st.op == OP_functors || st.op == OP_helpers) continue;	// nothing in them can fail
	if (faults && r.chance(300)) addfault(st,F_THROW,(int)r.skewed(r.chance(600) ? 8 : 80),1,0);
	else if (faults && r.chance(200)) addfault(st,F_ALLOC,(int)r.skewed(r.chance(600) ? 4 : 40),1+(int)r.skewed(2),0);
    }
}
//---------------------------------------------------------------- model
void ksort(Mod& m) { for (size_t i = 1; i < m.size(); ++i) for (size_t j = i; j && klt(m[j].k,m[j-1].k); --j) { KT t = m[j]; m[j] = m[j-1]; m[j-1] = t; } }
bool ksorted(const Mod& m, size_t n) { for (size_t i = 1; i < n; ++i) if (klt(m[i].k,m[i-1].k)) return false; return true; }
bool kheap(const Mod& m, size_t n) { for (size_t i = 1; i < n; ++i) if (klt(m[(i-1)/2].k,m[i].k)) return false; return true; }
size_t kcount(const Mod& m, int64_t k) { size_t n = 0; for (size_t i = 0; i < m.size(); ++i) n += !klt(m[i].k,k) && !klt(k,m[i].k); return n; }
Mod random(Rng& r, size_t n, int64_t keys) { Mod m; m.setn(n); for (size_t i = 0; i < n; ++i) { m[i].k = r.below(keys); m[i].t = (int)i+1; } return m; }
bool kmatch(const Mod& a, size_t i, const Mod& b) { if (i+b.size() > a.size()) return false; for (size_t j = 0; j < b.size(); ++j) if (!keq(a[i+j].k,b[j].k)) return false; return true; }
bool knext(Mod& m, bool prev)
{
    const size_t n = m.size(); if (n < 2) return false;
    for (size_t i = n-1; i--;) if (prev ? klt(m[i+1].k,m[i].k) : klt(m[i].k,m[i+1].k)) {
	size_t j = n; do --j; while (prev ? !klt(m[j].k,m[i].k) : !klt(m[i].k,m[j].k));
	KT t = m[i]; m[i] = m[j]; m[j] = t;
	for (size_t x = i+1, y = n-1; x < y; ++x, --y) { t = m[x]; m[x] = m[y]; m[y] = t; }
	return true;
    }
    for (size_t x = 0, y = n-1; x < y; ++x, --y) { KT t = m[x]; m[x] = m[y]; m[y] = t; }
    return false;
}
#define TRYB(c, ...) do { (c).kind = TH_NONE; try { LIB(__VA_ARGS__); } catch (Boom&) { (c).kind = TH_CRASH; } catch (ustl::bad_alloc&) { (c).kind = TH_ALLOC; } catch (ustl::exception&) { (c).kind = TH_OTHER; } catch (...) { (c).kind = TH_OTHER; } } while (false)
template <typename E, typename I, bool PTR> struct Sorts {
    static bool go(int, Rg<I>&, size_t, Caught&) { return false; }
};
template <typename E, typename I> struct Sorts<E,I,true> {	// these pass the range to qsort
    static bool go(int op, Rg<I>& A, size_t k, Caught& c) {
	g_nothrow = true;
	switch (op) {
	    case OP_sort: TRYB(c, sort (A.f(),A.l())); break;
	    case OP_sort_p: TRYB(c, sort (A.f(),A.l(),Cmp<E>())); break;
	    case OP_nth_element_p: TRYB(c, nth_element (A.f(),A.at(k),A.l(),Cmp<E>())); break;
	}
	g_nothrow = false;
	return true;
    }
};
template <typename I> struct IsPtr { enum { v = 0 }; };
template <typename E> struct IsPtr<E*> { enum { v = 1 }; };

// number algorithms
template <typename E, typename I, bool NUM> struct Nums {
    static bool go(int, Rg<I>&, Rg<I>&, Rg<I>&, Caught&, const Mod&, const Mod&, bool&) { return false; }
};
template <typename E> struct AddOp { E operator()(const E& a, const E& b) const { throwpt(); return E(a + b); } };
template <typename E> struct SubOp { E operator()(const E& a, const E& b) const { throwpt(); return E(a - b); } };
template <typename E> struct SumTo { int64_t operator()(int64_t a, const E& b) const { Tr<E>::id(b); throwpt(); return a*3 + Tr<E>::key(b); } };
template <typename E> struct MulTo { int64_t operator()(const E& a, const E& b) const { throwpt(); return Tr<E>::key(a)*5 - Tr<E>::key(b); } };
struct SumL { int64_t operator()(int64_t a, int64_t b) const { return a + b; } };
template <typename E, typename I> struct Nums<E,I,true> {
    static bool go(int op, Rg<I>& A, Rg<I>& B, Rg<I>& R, Caught& c, const Mod& a, const Mod& b, bool& isout) {
	int64_t got = 0, want = 0; Mod w; const size_t n = a.size(); bool val = false, out = false; ptrdiff_t end = -1;
	switch (op) {
	    case OP_accumulate: val = true; TRYB(c, got = accumulate (A.f(),A.l(),int64_t(11))); want = 11; for (size_t i = 0; i < n; ++i) want += a[i].k; break;
	    case OP_accumulate_op: val = true; TRYB(c, got = accumulate (A.f(),A.l(),int64_t(1),SumTo<E>())); want = 1; for (size_t i = 0; i < n; ++i) want = (int64_t)((uint64_t)want*3 + (uint64_t)a[i].k); break;
	    case OP_inner_product_op: val = true; TRYB(c, got = inner_product (A.f(),A.l(),B.f(),int64_t(5),SumL(),MulTo<E>())); want = 5; for (size_t i = 0; i < n; ++i) want += a[i].k*5 - b[i].k; break;
	    case OP_inner_product: val = true; if (sizeof(E) < 4) return false; TRYB(c, got = inner_product (A.f(),A.l(),B.f(),int64_t(5))); want = 5; for (size_t i = 0; i < n; ++i) want += a[i].k*b[i].k; break;
	    case OP_partial_sum: out = true; TRYB(c, partial_sum (A.f(),A.l(),R.f())); for (size_t i = 0; i < n; ++i) { KT k = { Tr<E>::wrap((i ? w[i-1].k : 0) + a[i].k), 0 }; w.push(k); } break;
	    case OP_partial_sum_op: out = true; TRYB(c, partial_sum (A.f(),A.l(),R.f(),AddOp<E>())); for (size_t i = 0; i < n; ++i) { KT k = { Tr<E>::wrap((i ? w[i-1].k : 0) + a[i].k), 0 }; w.push(k); } break;
	    case OP_adjacent_difference: out = true; TRYB(c, end = adjacent_difference (A.f(),A.l(),R.f()) - R.f()); for (size_t i = 0; i < n; ++i) { KT k = { Tr<E>::wrap(a[i].k - (i ? a[i-1].k : 0)), 0 }; w.push(k); } break;
	    case OP_adjacent_difference_op: out = true; TRYB(c, end = adjacent_difference (A.f(),A.l(),R.f(),SubOp<E>()) - R.f()); for (size_t i = 0; i < n; ++i) { KT k = { Tr<E>::wrap(a[i].k - (i ? a[i-1].k : 0)), 0 }; w.push(k); } break;
	    default: return false;
	}
	if (c.kind == TH_NONE && val && got != want) bad("wrong-result","result",got,want);
	if (c.kind == TH_NONE && out) { R.same(w,n,false,"element of the result"); if (end >= 0 && (size_t)end != n) bad("wrong-end","end of the result",end,n); }
	isout = out;
	return true;
    }
};
template <typename E, bool POD> struct Iota { static void go(size_t, int64_t) {} };
template <typename E> struct Iota<E,true> {
    static void go(size_t n, int64_t v0) {
	if (n+v0 > 120) return;
	Mod m; m.resize(n); Rg<E*> A (m,1); iota (A.f(),A.l(),E(v0)); for (size_t i = 0; i < n; ++i) m[i].k = v0+i; A.same(m,n,false,"counted element");
	Vec<uint32_t> ids; A.intact(ids);
    }
};
//---------------------------------------------------------------- iterators by themselves
template <typename E> struct ValKey { template <typename I> static int64_t at(const I& i) { return Tr<E>::key(*i); } template <typename I> static int64_t idx(const I& i, size_t k) { return Tr<E>::key(i[k]); } template <typename I> static bool arrow(const I& i) { return i.operator->() == &*i.operator->(); } };
template <typename E> struct MoveKey { template <typename I> static int64_t at(const I& i) { E&& e = *i; return Tr<E>::key(e); } template <typename I> static int64_t idx(const I& i, size_t k) { E&& e = i[k]; return Tr<E>::key(e); } };
template <typename E> struct PtrKey { template <typename I> static int64_t at(const I& i) { return Tr<E>::key(**i); } template <typename I> static int64_t idx(const I& i, size_t k) { return Tr<E>::key(*i[k]); } };
template <typename K, typename I> void walk(const char* name, Rng& r, I f, I l, const Mod& w)	// f to l has the elements w
{
    const size_t n = w.size(); size_t p = 0; I i (f), e (l);
    const char* const msg = name;
    for (int q = 20; q--;) {
	const size_t to = r.below((unsigned)n+1), d = to > p ? to-p : p-to; size_t was = p; bool post = false; I o (f);
	switch (r.below(8)) {
	    case 0: if (p < n) { I& s = ++i; ++p; if (&s != &i) bad("wrong-result",msg); } break;
	    case 1: if (p) { --i; --p; } break;
	    case 2: if (p < n) { o = i++; ++p; post = true; } break;
	    case 3: if (p) { o = i--; --p; post = true; } break;
	    case 4: if (to >= p) i += d; else i -= d; p = to; break;
	    case 5: { I t (i); if (to >= p) t = i + d; else t = i - d; if ((t == f) != !to) bad("wrong-result",msg); if (i == t && to != p) bad("wrong-result",msg); i = t; p = to; break; }
	    case 6: i = f; i += p; break;
	    default: { I t; t = i; i = t; } break;
	}
	if (post && was < n && K::at(o) != w[was].k) { bad("wrong-result",msg,K::at(o),w[was].k); return; }
	if (p < n && K::at(i) != w[p].k) { bad("wrong-result",msg,K::at(i),w[p].k); return; }
	if (p < n) { const size_t k = r.below((unsigned)(n-p)); if (K::idx(i,k) != w[p+k].k) { bad("wrong-result",msg,K::idx(i,k),w[p+k].k); return; } }
	if (i - f != (ptrdiff_t)p || e - i != (ptrdiff_t)(n-p) || f - i != -(ptrdiff_t)p) { bad("wrong-position",msg,i-f,p); return; }
	if ((i == f) != !p || (i == e) != (p == n) || (f < i) != !!p || i < f || e < i || (i < e) != (p < n)) { bad("wrong-result",msg,p,n); return; }
    }
}
// Long ranges on a stack of 128K, as threads have
enum { BIGMAX = 400000 };
uint32_t g_big [BIGMAX]; ucontext_t g_home, g_small; size_t g_bign, g_bigk; unsigned g_bigop; char* g_smallstk;
inline bool bigpred(uint32_t v) { return v % 3 == 0; }
void bigwork(void)
{
    uint32_t *f = g_big, *m = g_big+g_bigk, *l = g_big+g_bign;
    switch (g_bigop) {
	case 0: rotate (f,m,l); break;
	case 1: { memlink b (f,g_bign*4); b.erase (b.begin(),g_bigk*4); break; }
	case 2: { memlink b (f,g_bign*4); b.insert (b.begin(),g_bigk*4); break; }
	case 3: stable_partition (f,l,&bigpred); break;
	case 4: reverse (f,l); break;
	default: make_heap (f,l); break;
    }
}
void bigrange(unsigned op, size_t n, size_t k)
{
    if (!g_smallstk) { g_smallstk = (char*)__real_mmap(0,8<<20,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(g_smallstk+(8<<20)-(128<<10),128<<10,PROT_READ|PROT_WRITE); }
    g_bigop = op; g_bign = n; g_bigk = k;
    for (size_t i = 0; i < n; ++i) g_big[i] = (uint32_t)i*2654435761u;
    getcontext(&g_small); g_small.uc_stack.ss_sp = g_smallstk; g_small.uc_stack.ss_size = 8<<20; g_small.uc_link = &g_home; makecontext(&g_small,&bigwork,0);
    LIB(swapcontext(&g_home,&g_small));
    size_t at = 0;
    #define WANT(i) do { const uint32_t x_ = (uint32_t)(i)*2654435761u; if (g_big[at] != x_) { bad("wrong-result","element of a long range",at,n); return; } ++at; } while (false)
    switch (op) {
	case 0: for (size_t i = 0; i < n; ++i) WANT((i+k) % n); break;
	case 1: for (size_t i = k; i < n; ++i) WANT(i); break;
	case 2: at = k; for (size_t i = 0; i < n-k; ++i) WANT(i); break;
	case 3: for (int q = 1; q >= 0; --q) for (size_t i = 0; i < n; ++i) if (bigpred ((uint32_t)i*2654435761u) == q) WANT(i); break;
	case 4: for (size_t i = n; i--;) WANT(i); break;
	default: for (size_t i = 1; i < n; ++i) if (g_big[(i-1)/2] < g_big[i]) { bad("wrong-result","element of a long heap",i,n); return; } break;
    }
}
// Every kind of algorithm on ranges of hundreds, of some 65536 and of more elements
struct BigGen { uint32_t* n; uint32_t operator() (void) { return (*n)++; } };
inline uint32_t bigadd(uint32_t a, uint32_t b) { return a + b; }
inline uint32_t bigsq(uint32_t a) { return a*a; }
enum { N_LONG = 24 };
void biglong(unsigned form, size_t n, size_t k, uint32_t d)
{
    uint32_t *f = g_big, *l = f+n, *g = f+BIGMAX/2, *h = g+n; size_t i; const uint32_t none = 0xFFFFFFFFu;
    const size_t m = n-k; uint32_t x = (uint32_t)(k/d);
    #define LONG(cond) do { if (!(cond)) { bad("wrong-result","long range: " #cond,n,k); return; } } while (false)
    #define EACH(a,cnt,v) do { for (i = 0; i < (cnt); ++i) if ((a)[i] != (uint32_t)(v)) { bad("wrong-result","element of a long range, " #v,i,n); return; } } while (false)
    for (i = 0; i < n; ++i) { f[i] = (uint32_t)i; g[i] = none; } *l = none; *h = none;
    size_t r = 0; uint32_t *p = 0, *q = 0; bool t = false, u = false;
    switch (form) {
	case 0: for (i = 0; i < n; ++i) f[i] = i < k; LIB(r = count (f,l,1u)); LONG(r == k); LIB(r = count (f,l,0u)); LONG(r == m); break;
	case 1: LIB(r = count_if (f,l,&bigpred)); LONG(r == (n+2)/3); break;
	case 2: case 3: case 4: { for (i = 0; i < n; ++i) f[i] = (uint32_t)i/d; const size_t a = (size_t)x*d, b = hmin<size_t>(n,a+d); const bool in = a < n;
	    if (form == 2) { LIB(p = lower_bound (f,l,x); q = upper_bound (f,l,x)); }
	    else if (form == 3) { pair<uint32_t*,uint32_t*> e (f,f); LIB(e = equal_range (f,l,x)); p = e.first; q = e.second; }
	    else { LIB(p = lower_bound (f,l,x,less<uint32_t>()); q = upper_bound (f,l,x,less<uint32_t>())); }
	    LIB(t = binary_search (f,l,x); u = binary_search (f,l,none));
	    LONG((size_t)(p-f) == hmin(a,n)); LONG((size_t)(q-f) == b); LONG(t == in); LONG(!u); break; }
	case 5: { uint32_t c = 7; BigGen z = { &c }; LIB(p = generate_n (g,n,z)); LONG(p == h); EACH(g,n,i+7); LONG(*h == none); c = 9; LIB(generate (g,h,z)); EACH(g,n,i+9); LONG(*h == none); break; }
	case 6: LIB(p = fill_n (g,n,5u)); LONG(p == h); EACH(g,n,5); LONG(*h == none); LIB(fill (g,h,6u)); EACH(g,n,6); LONG(*h == none); LIB(p = copy_n (f,n,g)); LONG(p == h); EACH(g,n,i); LONG(*h == none); break;
	case 7: if (!m) break; for (i = 0; i < n; ++i) f[i] = i >= k; if (k > 3) f[k-2] = 1; LIB(p = search_n (f,l,m,1u)); LONG(p == f+k || (m == 1 && k > 3 && p == f+k-2)); LIB(p = search_n (f,l,m+1,1u)); LONG(p == l || (!m && p == f)); LIB(p = search_n (f,l,m,1u,equal_to<uint32_t>())); LONG(p == f+k || (m == 1 && k > 3 && p == f+k-2)); break;
	case 8: for (i = 0; i < n; ++i) f[i] = 2; f[k] = k < n ? 1 : none; LIB(p = find (f,l,1u)); LONG(p == f+k); x = 1; LIB(p = find_first_of (f,l,&x,&x+1)); LONG(p == f+k); LIB(p = min_element (f,l)); LONG(p == (k < n ? f+k : f)); if (k < n) f[k] = 3; LIB(p = max_element (f,l)); LONG(p == (k < n ? f+k : f)); *l = none; break;
	case 9: LIB(copy (f,l,g)); LIB(t = equal (f,l,g)); LONG(t); if (k < n) g[k] = none; { pair<uint32_t*,uint32_t*> e (f,f); LIB(e = mismatch (f,l,g)); LONG(e.first == f+k && e.second == g+k); } LIB(t = equal (f,l,g); u = lexicographical_compare (f,l,g,h)); LONG(t == (k == n)); LONG(u == (k < n)); LIB(u = lexicographical_compare (g,h,f,l)); LONG(!u); break;
	case 10: LIB(fill (f,l,1u); x = accumulate (f,l,0u)); LONG(x == n); LIB(x = inner_product (f,l,f,0u)); LONG(x == n); LIB(partial_sum (f,l,g)); EACH(g,n,i+1); LIB(adjacent_difference (g,h,f)); EACH(f,n,1); LIB(iota (f,l,3u)); EACH(f,n,i+3); break;
	case 11: for (i = 0; i < n; ++i) f[i] = (uint32_t)i/d; LIB(p = unique_copy (f,l,g)); LONG((size_t)(p-g) == (n+d-1)/d); EACH(g,p-g,i); LIB(q = unique (f,l)); LONG((size_t)(q-f) == (n+d-1)/d); EACH(f,q-f,i); break;
	case 12: for (i = 0; i < n; ++i) f[i] = i < k ? 1 : (uint32_t)i; LIB(p = remove_copy (f,l,g,1u)); r = 0; for (i = 0; i < n; ++i) if (f[i] != 1) { LONG(g[r] == f[i]); ++r; } LONG((size_t)(p-g) == r); LIB(q = remove (f,l,1u)); LONG((size_t)(q-f) == r); EACH(f,r,g[i]); break;
	case 13: LIB(replace_copy (f,l,g,(uint32_t)k,none)); EACH(g,n,i == k ? none : i); LIB(replace (f,l,(uint32_t)k,none)); EACH(f,n,i == k ? none : i); break;
	case 14: for (i = 0; i < n; ++i) f[i] = i < k ? (uint32_t)(2*i) : (uint32_t)(2*(i-k)+1); LIB(p = merge (f,f+k,f+k,l,g)); LONG(p == h); for (i = 1; i < n; ++i) LONG(g[i-1] <= g[i]); LONG(*h == none); break;
	case 15: LIB(p = set_union (f,l,f+k,l,g)); LONG(p == h); EACH(g,n,i); LIB(p = set_intersection (f,l,f+k,l,g)); LONG((size_t)(p-g) == m); EACH(g,m,i+k); LIB(p = set_difference (f,l,f+k,l,g)); LONG((size_t)(p-g) == k); EACH(g,k,i); LIB(t = includes (f,l,f+k,l)); LONG(t); break;
	case 16: for (i = 0; i < n; ++i) f[i] = (uint32_t)i*2654435761u; LIB(sort (f,l)); r = 0; for (i = 0; i < n; ++i) r += (uint32_t)i*2654435761u; for (i = 0; i < n; ++i) { r -= f[i]; LONG(!i || f[i-1] < f[i]); } LONG(!r); LIB(t = is_sorted (f,l)); LONG(t); break;
	case 17: for (i = 0; i < n; ++i) f[i] = (uint32_t)i*2654435761u; LIB(make_heap (f,l); sort_heap (f,l)); for (i = 1; i < n; ++i) LONG(f[i-1] < f[i]); LIB(t = is_sorted (f,l)); LONG(t); break;
	case 18: LIB(p = transform (f,l,g,&bigsq)); LONG(p == h); EACH(g,n,(uint32_t)i*(uint32_t)i); LIB(p = transform (f,l,f,g,&bigadd)); LONG(p == h); EACH(g,n,2*i); LONG(*h == none); break;
	case 19: LIB(p = reverse_copy (f,l,g)); LONG(p == h); EACH(g,n,n-1-i); LIB(p = rotate_copy (f,f+k,l,g)); LONG(p == h); EACH(g,n,(i+k) % n); LIB(p = swap_ranges (f,l,g)); LONG(p == h); EACH(f,n,(i+k) % n); EACH(g,n,i); break;
	case 20: LIB(copy_backward (f,f+m,l)); EACH(f+k,m,i); break;
	case 21: LIB(copy (f+k,l,f)); EACH(f,m,i+k); break;
	case 22: x = 0; LIB(for_each (f,l,[&](uint32_t v) { x += v; })); { uint32_t y = 0; for (i = 0; i < n; ++i) y += i; LONG(x == y); } LIB(p = copy_if (f,l,g,&bigpred)); LONG((size_t)(p-g) == (n+2)/3); EACH(g,p-g,3*i); LIB(p = remove_if (f,l,&bigpred)); LONG((size_t)(p-f) == n-(n+2)/3); EACH(f,p-f,i/2*3+i%2+1); break;
	default: { uint8_t* b = (uint8_t*)f; const size_t bn = n*4; LIB(fill_n (b,bn,(uint8_t)3)); if (k) b[k*3] = 4; LIB(r = count (b,b+bn,(uint8_t)3)); LONG(r == bn - !!k); LIB(r = count_if (b,b+bn,bind2nd (equal_to<uint8_t>(),(uint8_t)3))); LONG(r == bn - !!k); LONG(*l == none); uint8_t* z = 0; LIB(z = find (b,b+bn,(uint8_t)4)); LONG(z == (k ? b+k*3 : b+bn)); LIB(z = search_n (b,b+bn,bn-k*3-1,(uint8_t)3)); LONG(z == b + (k && bn-k*3-1 > k*3 ? k*3+1 : 0) || bn == k*3+1); break; }
    }
}
// How often the position i is in a list of positions
inline unsigned listed(size_t i, unsigned var) { if (!(var & 32)) return i % 3 == var % 3; return ((var >> 6)*2654435761u >> (i*7 % 29)) & 1 ? 1 + (var & 16 ? (i+var) % 3 : 0) : 0; }
// The forms that take a whole container
enum { N_WHOLE = 37 };
template <typename I> void contained(unsigned form, Rg<I>& A, Rg<I>& R, const Mod& a, const Mod& rm, typename ItTr<I>::elem& v, const KT& kv, typename ItTr<I>::elem& v2, const KT& kv2, size_t k, unsigned var, Caught& c)
{
    typedef typename ItTr<I>::elem E; typedef Tr<E> T; typedef vector<E> V; typedef typename V::iterator VI; typedef typename V::const_iterator VC;
    const size_t n = a.size(); Mod s = a, w, out; int64_t got = 0, want = 0; bool hasout = false, perm = false;
    if (form != 30 && form != 31 && form != 25) g_ord = 0;
    if (form >= 18 && form <= 24) ksort(s);
    LibScope ls; V ctr; const V& cc = ctr;
    TRYB(c, ctr.reserve (n); for (size_t q = 0; q < n; ++q) ctr.push_back (T::mk(s[q].k,s[q].t)));
    if (c.kind != TH_NONE) { for (size_t i = 0; i < ctr.size(); ++i) T::id(ctr[i]); return; }
    w = s;
#define ONE(x) TRYB(c, got = (x))
#define TO(x) do { hasout = true; TRYB(c, got = (x) - R.f()); want = -2; } while (false)
    switch (form) {
	case 0: TO(copy (cc,R.f())); out = s; break;
	case 1: TO(copy_if (ctr,R.f(),Pr<E>())); for (size_t i = 0; i < n; ++i) if (kpr(s[i].k)) out.push(s[i]); break;
	case 2: { Fe<E> fe; if (var & 1) TRYB(c, fe = for_each (ctr,fe)); else TRYB(c, fe = for_each (cc,fe)); got = fe.sum; for (size_t i = 0; i < n; ++i) want += s[i].k*(int64_t)(i+1); break; }
	case 3: ONE(find (cc,v) - cc.begin()); while (want < (int64_t)n && s[want].k != kv.k) ++want; break;
	case 4: ONE(find (ctr,v) - ctr.begin()); while (want < (int64_t)n && s[want].k != kv.k) ++want; break;
	case 5: ONE(find_if (cc,Pr<E>()) - cc.begin()); while (want < (int64_t)n && !kpr(s[want].k)) ++want; break;
	case 6: ONE(find_if (ctr,Pr<E>()) - ctr.begin()); while (want < (int64_t)n && !kpr(s[want].k)) ++want; break;
	case 7: ONE(count (cc,v)); for (size_t i = 0; i < n; ++i) want += s[i].k == kv.k; break;
	case 8: ONE(count_if (cc,Pr<E>())); for (size_t i = 0; i < n; ++i) want += kpr(s[i].k); break;
	case 9: TRYB(c, transform (ctr,Un<E>())); for (size_t i = 0; i < n; ++i) w[i].k = (w[i].k+7)%61; break;
	case 10: TO(transform (ctr,R.f(),Un<E>())); out = s; for (size_t i = 0; i < n; ++i) out[i].k = (out[i].k+7)%61; break;
	case 11: TO(transform (ctr,A.f(),R.f(),Bi<E>())); out = s; for (size_t i = 0; i < n; ++i) out[i].k = (s[i].k*2+a[i].k)%61; break;
	case 12: TRYB(c, replace (ctr,v,v2)); for (size_t i = 0; i < n; ++i) if (w[i].k == kv.k) w[i] = kv2; break;
	case 13: TRYB(c, replace_if (ctr,Pr<E>(),v2)); for (size_t i = 0; i < n; ++i) if (kpr(w[i].k)) w[i] = kv2; break;
	case 14: TO(replace_copy (cc,R.f(),v,v2)); out = s; for (size_t i = 0; i < n; ++i) if (s[i].k == kv.k) out[i] = kv2; break;
	case 15: TO(replace_copy_if (cc,R.f(),Pr<E>(),v2)); out = s; for (size_t i = 0; i < n; ++i) if (kpr(s[i].k)) out[i] = kv2; break;
	case 16: TRYB(c, fill (ctr,v)); for (size_t i = 0; i < n; ++i) w[i] = kv; break;
	case 17: TRYB(c, generate (ctr,Gn<E>())); for (size_t i = 0; i < n; ++i) { w[i].k = (int64_t)i*5%59; w[i].t = (int)i+1; } break;
	case 18: ONE(lower_bound (cc,v) - cc.begin()); while (want < (int64_t)n && s[want].k < kv.k) ++want; break;
	case 19: ONE(lower_bound (ctr,v) - ctr.begin()); while (want < (int64_t)n && s[want].k < kv.k) ++want; break;
	case 20: ONE(upper_bound (cc,v) - cc.begin()); while (want < (int64_t)n && s[want].k <= kv.k) ++want; break;
	case 21: ONE(upper_bound (ctr,v) - ctr.begin()); while (want < (int64_t)n && s[want].k <= kv.k) ++want; break;
	case 22: if (var & 1) ONE(binary_search (cc,v)); else ONE(binary_search (ctr,v)); for (size_t i = 0; i < n; ++i) want |= s[i].k == kv.k; break;
	case 23: TRYB(c, pair<VC,VC> p = equal_range (cc,v); got = (p.first-cc.begin())*1000+(p.second-cc.begin())); for (size_t i = 0; i < n; ++i) want += (s[i].k < kv.k)*1000+(s[i].k <= kv.k); break;
	case 24: TRYB(c, pair<VI,VI> p = equal_range (ctr,v); got = (p.first-ctr.begin())*1000+(p.second-ctr.begin())); for (size_t i = 0; i < n; ++i) want += (s[i].k < kv.k)*1000+(s[i].k <= kv.k); break;
	case 25: TRYB(c, unique (ctr,Eq<E>())); w.clear(); for (size_t i = 0; i < n; ++i) if (!w.size() || !keq(w.back().k,s[i].k)) w.push(s[i]); break;
	case 26: TRYB(c, unique (ctr)); w.clear(); for (size_t i = 0; i < n; ++i) if (!w.size() || w.back().k != s[i].k) w.push(s[i]); break;
	case 27: TO(unique_copy (cc,R.f())); for (size_t i = 0; i < n; ++i) if (!out.size() || out.back().k != s[i].k) out.push(s[i]); break;
	case 28: g_nothrow = true; TRYB(c, sort (ctr)); g_nothrow = false; perm = true; ksort(w); break;
	case 29: TRYB(c, stable_sort (ctr)); ksort(w); break;
	case 30: g_nothrow = true; TRYB(c, sort (ctr,Cmp<E>())); g_nothrow = false; perm = true; ksort(w); break;
	case 31: TRYB(c, stable_sort (ctr,Cmp<E>())); ksort(w); break;
	case 32: TRYB(c, remove (ctr,v)); w.clear(); for (size_t i = 0; i < n; ++i) if (s[i].k != kv.k) w.push(s[i]); break;
	case 33: TRYB(c, remove_if (ctr,Pr<E>())); w.clear(); for (size_t i = 0; i < n; ++i) if (!kpr(s[i].k)) w.push(s[i]); break;
	case 34: { VI rr [192]; size_t nr = 0; w.clear(); for (size_t i = 0; i < n; ++i) if (unsigned t = listed (i,var)) while (t--) rr[nr++] = ctr.begin()+i; else w.push(s[i]); TRYB(c, remove (ctr,&rr[0],&rr[0]+nr)); break; }
	case 35: TRYB(c, reverse (ctr)); for (size_t i = 0; i < n; ++i) w[i] = s[n-1-i]; break;
	default: if (var % 5 == 0) { rand_config(var,(int)(var/8 % 4)); TRYB(c, random_shuffle (ctr)); if (c.kind == TH_NONE) { Vec<uint8_t> used; used.resize(n); for (size_t i = 0; i < n; ++i) { size_t q = 0; while (q < n && (used[q] || T::key(ctr[i]) != s[q].k || (T::tagged && T::tag(ctr[i]) != s[q].t))) ++q; if (q == n) { bad("not-a-permutation","shuffled container",i,n); break; } used[q] = 1; } w.clear(); for (size_t i = 0; i < n; ++i) { KT q = { T::key(ctr[i]), T::tag(ctr[i]) }; w.push(q); } } break; }
	    else if (var % 5 == 1) { TO(remove_copy (cc,R.f(),v)); for (size_t i = 0; i < n; ++i) if (s[i].k != kv.k) out.push(s[i]); break; }
	    else if (var % 5 == 2) { TO(remove_copy_if (cc,R.f(),Pr<E>())); for (size_t i = 0; i < n; ++i) if (!kpr(s[i].k)) out.push(s[i]); break; }
	    if (!n) break;
	    { const off_t by = (off_t)(k % n)*(var & 8 ? 1 : -1); TRYB(c, rotate (ctr,by)); for (size_t i = 0; i < n; ++i) w[i] = s[(i+n-by)%n]; } break;
    }
    if (c.kind == TH_NONE) {
	if (hasout) { want = out.size(); if (got != want) bad("wrong-position","returned position",got,want); for (size_t i = out.size(); i < n; ++i) out.push(rm[i]); R.same(out,n,true,"element of the result"); }
	else if (got != want) bad("wrong-result","answer about a whole container",got,want);
	if (ctr.size() != w.size()) bad("wrong-size","elements left in the container",ctr.size(),w.size());
	else for (size_t i = 0; i < w.size(); ++i) if (T::key(ctr[i]) != w[i].k && (!perm || klt(T::key(ctr[i]),w[i].k) || klt(w[i].k,T::key(ctr[i])))) { bad("wrong-result","element of the container",T::key(ctr[i]),w[i].k); break; }
	else if (!perm && T::tagged && T::tag(ctr[i]) != w[i].t) { bad("wrong-order","element of the container",T::tag(ctr[i]),w[i].t); break; }
    } else if (hasout || form == 2 || (form >= 3 && form <= 8) || (form >= 18 && form <= 24))
	for (size_t i = 0; i < n; ++i) if (i >= ctr.size() || T::key(ctr[i]) != s[i].k) { bad("wrong-result","element of a container that was only read",i,n); break; }
    for (size_t i = 0; i < ctr.size(); ++i) { const uint32_t d = T::id(ctr[i]); if (T::tok) for (size_t j = 0; j < i; ++j) if (T::id(ctr[j]) == d) bad("duplicate-element","the same object occurs twice",i,j); }
    if (perm && T::tagged && c.kind == TH_NONE) for (size_t i = 0; i < ctr.size(); ++i) for (size_t j = 0; j < i; ++j) if (T::tag(ctr[i]) == T::tag(ctr[j])) { bad("not-a-permutation","sorted container",i,j); return; }
#undef ONE
#undef TO
}
//---------------------------------------------------------------- one call
template <typename I> void one(const Step& st)
{
    typedef typename ItTr<I>::elem E;
    typedef Tr<E> T;
    const int op = st.op;
    Rng r ((uint64_t)st.a[3]);
    const unsigned var = (uint64_t)st.a[4] & 0xffffff;
    const int64_t keys = var % 4 == 0 ? 2 : var % 4 == 1 ? 5 : 60;
    size_t n = (uint64_t)st.a[0] % 301, m = (uint64_t)st.a[1] % 301; const size_t k = n ? (uint64_t)st.a[2] % (n+1) : 0;
    g_ord = var/4 % 3; g_pm = 2+var/16 % 3; g_pr = var/64 % g_pm; g_gen = 0;
    const size_t pad = var/128 % 3 ? 0 : var/512 % 4;
    if (!n) probe(P_EMPTY); if (n > 100) probe(P_BIG);
    const bool tok = T::tok; if (tok) probe(P_TRACKED); else probe(P_PLAIN);
    Caught c; c.kind = TH_NONE;
    Mod a = random(r,n,keys), b, w; KT kv = { (int64_t)r.below(keys), 5000 }, kv2 = { (int64_t)r.below(T::top), 6000 };
    // which order applies and what the inputs must look like
    bool usesord = false, bsorted = false, asorted = false, bsame = false, ismut = false, isout = false; int need = 0; (void)need;
    switch (op) {
	case OP_lower_bound: case OP_upper_bound: case OP_binary_search: case OP_equal_range: asorted = true; break;
	case OP_lower_bound_p: case OP_upper_bound_p: case OP_binary_search_p: case OP_equal_range_p: asorted = usesord = true; break;
	case OP_includes: case OP_merge: case OP_set_union: case OP_set_intersection: case OP_set_difference: case OP_set_symmetric_difference: asorted = bsorted = true; break;
	case OP_includes_p: case OP_set_union_p: case OP_set_intersection_p: case OP_set_difference_p: case OP_set_symmetric_difference_p: asorted = bsorted = usesord = true; break;
	case OP_is_sorted: case OP_is_heap: asorted = var/4096 % 2; break;
	case OP_is_sorted_p: case OP_is_heap_p: asorted = var/4096 % 2; usesord = true; break;
	case OP_adjacent_find_p: case OP_search_p: case OP_find_end_p: case OP_search_n_p: case OP_lexicographical_compare_p: case OP_sort_p: case OP_stable_sort_p: case OP_partial_sort_p: case OP_nth_element_p: case OP_unique_p: case OP_unique_copy_p: case OP_heap_p: case OP_next_permutation_p: case OP_prev_permutation_p: case OP_partial_sort_copy_p: case OP_whole: usesord = true; break;
	case OP_mismatch: case OP_equal: case OP_swap_ranges: case OP_transform2: case OP_inner_product: case OP_inner_product_op: bsame = true; break;
    }
    if (!usesord) g_ord = 0;
    if (bsame) m = n;
    if (op == OP_search || op == OP_search_p || op == OP_find_end || op == OP_find_end_p) { m %= var/4096 % 3 ? 4 : n+1; }
    if (op == OP_find_first_of) m %= 6;
    const size_t runlen = 1 + (var/4096 % 3 ? m % 4 : m % 24);
    if (op == OP_search_n || op == OP_search_n_p) for (int q = var/8192 % 4; q && n; --q) { const size_t at = r.below(n), e = hmin(n,at+runlen+r.below(3)-1); for (size_t i = at; i < e; ++i) a[i].k = kv.k; }
    b = random(r,m,keys); for (size_t i = 0; i < m; ++i) b[i].t += 1000;
    if (asorted) ksort(a);
    if (bsorted) ksort(b);
    if (op == OP_inplace_merge) { Mod x, y; for (size_t i = 0; i < n; ++i) (i < k ? x : y).push(a[i]); ksort(x); ksort(y); a.clear(); a.append(x.data(),x.size()); a.append(y.data(),y.size()); }
    if ((op == OP_mismatch || op == OP_equal || op == OP_lexicographical_compare) && var/4096 % 2) { for (size_t i = 0; i < hmin(n,m); ++i) b[i] = a[i]; if (n && m && var/8192 % 2) b[r.below(hmin(n,m))].k = r.below(keys); }
    if ((op == OP_search || op == OP_search_p || op == OP_find_end || op == OP_find_end_p) && m <= n && var/8192 % 4) { const size_t at = var/32768 % 3 == 0 ? 0 : var/32768 % 3 == 1 ? n-m : r.below(n-m+1); for (size_t i = 0; i < m; ++i) b[i].k = a[at+i].k; }
    if (asorted || op == OP_lower_bound) for (size_t i = 1; i < n; ++i) if (a[i].k == a[i-1].k) { probe(P_TIES); break; }
    const int64_t live0 = g_live;
    {
    // harness objects: the ranges, the values and the space for results
    size_t rn = 0;
    switch (op) {
	case OP_copy: case OP_copy_n: case OP_replace_copy: case OP_replace_copy_if: case OP_reverse_copy: case OP_rotate_copy: case OP_transform: case OP_transform2: case OP_partial_sum: case OP_partial_sum_op: case OP_adjacent_difference: case OP_adjacent_difference_op: case OP_copy_backward: case OP_moved: case OP_whole: rn = n; break;
	case OP_merge: rn = n+m; break;
	case OP_copy_if: for (size_t i = 0; i < n; ++i) rn += kpr(a[i].k); break;
	case OP_remove_copy: for (size_t i = 0; i < n; ++i) rn += a[i].k != kv.k; break;
	case OP_remove_copy_if: for (size_t i = 0; i < n; ++i) rn += !kpr(a[i].k); break;
	case OP_remove_copy_range: for (size_t i = 0; i < n; ++i) rn += !listed (i,var); break;
	case OP_unique_copy: case OP_unique_copy_p: for (size_t i = 0; i < n; ++i) if (!i || !keq(w.back().k,a[i].k)) w.push(a[i]); rn = w.size(); w.clear(); break;
	case OP_partial_sort_copy: case OP_partial_sort_copy_p: rn = m; break;
	case OP_set_union: case OP_set_union_p: case OP_set_intersection: case OP_set_intersection_p: case OP_set_difference: case OP_set_difference_p: case OP_set_symmetric_difference: case OP_set_symmetric_difference_p: {
	    size_t i = 0, j = 0; const bool un = op == OP_set_union || op == OP_set_union_p, in = op == OP_set_intersection || op == OP_set_intersection_p, sy = op == OP_set_symmetric_difference || op == OP_set_symmetric_difference_p;
	    while (i < n || j < m) {
		if (j >= m || (i < n && klt(a[i].k,b[j].k))) { if (!in) w.push(a[i]); ++i; }
		else if (i >= n || klt(b[j].k,a[i].k)) { if (un || sy) w.push(b[j]); ++j; }
		else { if (un || in) w.push(a[i]); ++i; ++j; }
	    }
	    rn = w.size(); break; }
    }
    Mod rm; rm.resize(rn); for (size_t i = 0; i < rn; ++i) { rm[i].k = 9; rm[i].t = -9; }
    Rg<I> A (a,pad), B (b,pad), R (rm,pad);
    char vm [2][sizeof(E)] __attribute__((aligned(16))); E& v = *new (vm[0]) E (T::mk(kv.k,kv.t)); E& v2 = *new (vm[1]) E (T::mk(kv2.k,kv2.t));
    const int64_t live1 = g_live;
    g_boomed = 0; ptrdiff_t res = -1, want = -1; bool ok = true;
    int64_t br = -1, bw = -1;
#define POS(expr) TRYB(c, res = (expr) - A.f())
#define OUT(expr) do { isout = true; TRYB(c, res = (expr) - R.f()); } while (false)
#define YES(expr) TRYB(c, br = (expr))
    switch (op) {
	case OP_find: POS(find (A.f(),A.l(),v)); for (want = 0; want < (ptrdiff_t)n && a[want].k != kv.k; ++want) {} break;
	case OP_find_if: POS(find_if (A.f(),A.l(),Pr<E>())); for (want = 0; want < (ptrdiff_t)n && !kpr(a[want].k); ++want) {} break;
	case OP_adjacent_find: POS(adjacent_find (A.f(),A.l())); for (want = 0; want+1 < (ptrdiff_t)n && a[want].k != a[want+1].k; ++want) {} if (want+1 >= (ptrdiff_t)n) want = n; break;
	case OP_adjacent_find_p: POS(adjacent_find (A.f(),A.l(),Eq<E>())); for (want = 0; want+1 < (ptrdiff_t)n && !keq(a[want].k,a[want+1].k); ++want) {} if (want+1 >= (ptrdiff_t)n) want = n; break;
	case OP_mismatch: { ptrdiff_t r2 = 0; if (var & 0x10000) TRYB(c, pair<I,I> pr = mismatch (A.f(),A.l(),B.f()); res = pr.first-A.f(); r2 = pr.second-B.f()); else TRYB(c, pair<I,I> pr = mismatch (A.f(),A.l(),B.f(),Eq<E>()); res = pr.first-A.f(); r2 = pr.second-B.f()); for (want = 0; want < (ptrdiff_t)n && a[want].k == b[want].k; ++want) {} if (c.kind == TH_NONE && r2 != res) bad("wrong-result","the two positions differ",r2,res); break; }
	case OP_equal: if (var & 0x10000) YES(equal (A.f(),A.l(),B.f())); else YES(equal (A.f(),A.l(),B.f(),Eq<E>())); bw = 1; for (size_t i = 0; i < n; ++i) bw &= a[i].k == b[i].k; break;
	case OP_count: YES(count (A.f(),A.l(),v)); bw = 0; for (size_t i = 0; i < n; ++i) bw += a[i].k == kv.k; break;
	case OP_count_if: YES(count_if (A.f(),A.l(),Pr<E>())); bw = 0; for (size_t i = 0; i < n; ++i) bw += kpr(a[i].k); break;
	case OP_for_each: { Fe<E> fe; TRYB(c, fe = for_each (A.f(),A.l(),fe)); br = fe.sum; bw = 0; for (size_t i = 0; i < n; ++i) bw += a[i].k*(int64_t)(i+1); break; }
	case OP_search: case OP_search_p: if (op == OP_search) POS(search (A.f(),A.l(),B.f(),B.l())); else POS(search (A.f(),A.l(),B.f(),B.l(),Eq<E>())); for (want = 0; want <= (ptrdiff_t)n && !kmatch(a,want,b); ++want) {} if (want > (ptrdiff_t)n) want = n; break;
	case OP_find_end: case OP_find_end_p: if (op == OP_find_end) POS(find_end (A.f(),A.l(),B.f(),B.l())); else POS(find_end (A.f(),A.l(),B.f(),B.l(),Eq<E>())); want = n; for (size_t i = 0; i+m <= n; ++i) if (kmatch(a,i,b)) want = i; break;
	case OP_search_n: case OP_search_n_p: { const size_t q = runlen; if (op == OP_search_n) POS(search_n (A.f(),A.l(),q,v)); else POS(search_n (A.f(),A.l(),q,v,Eq<E>())); want = n; for (size_t i = 0; i+q <= n && want == (ptrdiff_t)n; ++i) { bool y = true; for (size_t j = 0; j < q; ++j) y &= keq(a[i+j].k,kv.k); if (y) want = i; } break; }
	case OP_find_first_of: if (var & 0x10000) POS(find_first_of (A.f(),A.l(),B.f(),B.l())); else POS(find_first_of (A.f(),A.l(),B.f(),B.l(),Eq<E>())); for (want = 0; want < (ptrdiff_t)n; ++want) { bool y = false; for (size_t j = 0; j < m; ++j) y |= a[want].k == b[j].k; if (y) break; } break;
	case OP_lower_bound: case OP_lower_bound_p: if (op == OP_lower_bound) POS(lower_bound (A.f(),A.l(),v)); else POS(lower_bound (A.f(),A.l(),v,Cmp<E>())); for (want = 0; want < (ptrdiff_t)n && klt(a[want].k,kv.k); ++want) {} break;
	case OP_upper_bound: case OP_upper_bound_p: if (op == OP_upper_bound) POS(upper_bound (A.f(),A.l(),v)); else POS(upper_bound (A.f(),A.l(),v,Cmp<E>())); for (want = 0; want < (ptrdiff_t)n && !klt(kv.k,a[want].k); ++want) {} break;
	case OP_binary_search: case OP_binary_search_p: if (op == OP_binary_search) YES(binary_search (A.f(),A.l(),v)); else YES(binary_search (A.f(),A.l(),v,Cmp<E>())); bw = kcount(a,kv.k) > 0; probe(bw ? P_FOUND : P_ABSENT); break;
	case OP_equal_range: case OP_equal_range_p: { ptrdiff_t hi = 0; if (op == OP_equal_range) TRYB(c, pair<I,I> q = equal_range (A.f(),A.l(),v); res = q.first-A.f(); hi = q.second-A.f()); else TRYB(c, pair<I,I> q = equal_range (A.f(),A.l(),v,Cmp<E>()); res = q.first-A.f(); hi = q.second-A.f()); for (want = 0; want < (ptrdiff_t)n && klt(a[want].k,kv.k); ++want) {} if (c.kind == TH_NONE && hi-res != (ptrdiff_t)kcount(a,kv.k)) bad("wrong-result","elements in the range",hi-res,kcount(a,kv.k)); break; }
	case OP_includes: case OP_includes_p: { if (op == OP_includes) YES(includes (A.f(),A.l(),B.f(),B.l())); else YES(includes (A.f(),A.l(),B.f(),B.l(),Cmp<E>())); bw = 1; for (size_t i = 0; i < m; ++i) bw &= kcount(a,b[i].k) >= kcount(b,b[i].k); break; }
	case OP_is_sorted: case OP_is_sorted_p: if (op == OP_is_sorted) YES(is_sorted (A.f(),A.l())); else YES(is_sorted (A.f(),A.l(),Cmp<E>())); bw = ksorted(a,n); break;
	case OP_is_heap: case OP_is_heap_p: if (op == OP_is_heap) YES(is_heap (A.f(),A.l())); else YES(is_heap (A.f(),A.l(),Cmp<E>())); bw = kheap(a,n); break;
	case OP_lexicographical_compare: case OP_lexicographical_compare_p: { if (op == OP_lexicographical_compare) YES(lexicographical_compare (A.f(),A.l(),B.f(),B.l())); else YES(lexicographical_compare (A.f(),A.l(),B.f(),B.l(),Cmp<E>())); bw = n < m; for (size_t i = 0; i < hmin(n,m); ++i) { if (klt(a[i].k,b[i].k)) { bw = 1; break; } if (klt(b[i].k,a[i].k)) { bw = 0; break; } } break; }
	case OP_max_element: case OP_min_element: { const bool mx = op == OP_max_element; if (mx) { if (var & 0x10000) POS(max_element (A.f(),A.l())); else POS(max_element (A.f(),A.l(),Cmp<E>())); } else if (var & 0x10000) POS(min_element (A.f(),A.l())); else POS(min_element (A.f(),A.l(),Cmp<E>())); want = 0; for (size_t i = 1; i < n; ++i) if (mx ? klt(a[want].k,a[i].k) : klt(a[i].k,a[want].k)) want = i; break; }
	case OP_minmax_element: { ptrdiff_t hi = 0; if (var & 0x10000) TRYB(c, pair<I,I> q = minmax_element (A.f(),A.l()); res = q.first-A.f(); hi = q.second-A.f()); else TRYB(c, pair<I,I> q = minmax_element (A.f(),A.l(),Cmp<E>()); res = q.first-A.f(); hi = q.second-A.f()); ok = false; if (c.kind == TH_NONE && n) { if (res < 0 || hi < 0 || (size_t)res >= n || (size_t)hi >= n) bad("wrong-result","position",res,hi); else for (size_t i = 0; i < n; ++i) if (klt(a[i].k,a[res].k) || klt(a[hi].k,a[i].k)) { bad("wrong-result","not the least or the greatest element",res,hi); break; } } break; }
	case OP_swap_ranges: ismut = true; TRYB(c, res = swap_ranges (A.f(),A.l(),B.f()) - B.f()); want = n; if (c.kind == TH_NONE) { A.same(b,n,true,"swapped element"); B.same(a,n,true,"swapped element"); } break;
	case OP_transform: OUT(transform (A.f(),A.l(),R.f(),Un<E>())); want = n; for (size_t i = 0; i < n; ++i) { KT q = { (a[i].k+7)%61, a[i].t }; w.push(q); } if (c.kind == TH_NONE) R.same(w,n,true,"transformed element"); break;
	case OP_transform2: OUT(transform (A.f(),A.l(),B.f(),R.f(),Bi<E>())); want = n; for (size_t i = 0; i < n; ++i) { KT q = { (a[i].k*2+b[i].k)%61, a[i].t }; w.push(q); } if (c.kind == TH_NONE) R.same(w,n,true,"transformed element"); break;
	case OP_replace: ismut = true; ok = false; TRYB(c, replace (A.f(),A.l(),v,v2)); for (size_t i = 0; i < n; ++i) w.push(a[i].k == kv.k ? kv2 : a[i]); if (c.kind == TH_NONE) A.same(w,n,true,"element"); break;
	case OP_replace_if: ismut = true; ok = false; TRYB(c, replace_if (A.f(),A.l(),Pr<E>(),v2)); for (size_t i = 0; i < n; ++i) w.push(kpr(a[i].k) ? kv2 : a[i]); if (c.kind == TH_NONE) A.same(w,n,true,"element"); break;
	case OP_fill: ismut = true; ok = false; TRYB(c, fill (A.f(),A.l(),v)); w.insert_n(0,n,kv); if (c.kind == TH_NONE) A.same(w,n,true,"element"); break;
	case OP_fill_n: ismut = true; TRYB(c, res = fill_n (A.at(0),k,v) - A.f()); want = k; for (size_t i = 0; i < n; ++i) w.push(i < k ? kv : a[i]); if (c.kind == TH_NONE) A.same(w,n,true,"element"); break;
	case OP_generate: ismut = true; ok = false; TRYB(c, generate (A.f(),A.l(),Gn<E>())); for (size_t i = 0; i < n; ++i) { KT q = { (int64_t)i*5%59, (int)i+1 }; w.push(q); } if (c.kind == TH_NONE) A.same(w,n,true,"generated element"); break;
	case OP_generate_n: ismut = true; POS(generate_n (A.f(),k,Gn<E>())); want = k; for (size_t i = 0; i < n; ++i) { KT q = { (int64_t)i*5%59, (int)i+1 }; w.push(i < k ? q : a[i]); } if (c.kind == TH_NONE) A.same(w,n,true,"generated element"); break;
	case OP_reverse: ismut = true; ok = false; TRYB(c, reverse (A.f(),A.l())); for (size_t i = n; i--;) w.push(a[i]); if (c.kind == TH_NONE) A.same(w,n,true,"reversed element"); break;
	case OP_rotate: if (var/65536 % 8 == 1) { const size_t bn = r.chance(300) ? 1 + r.below(900) : r.chance(600) ? 65000 + r.below(1500) : 1 + r.below(BIGMAX/2-1); biglong(var/16 % N_LONG,bn,r.below((unsigned)bn+1),1 + r.below(r.chance(500) ? 10 : (unsigned)bn)); } if (var/65536 % 8 == 0) { const size_t bn = 1000 + r.below(BIGMAX-1000), bk = r.below(r.chance(700) ? (unsigned)bn : 1000); bigrange(var/16 % 6,bn,bk); } ismut = true; ok = false; TRYB(c, rotate (A.f(),A.at(k),A.l())); for (size_t i = 0; i < n; ++i) w.push(a[(i+k)%n]); if (c.kind == TH_NONE) A.same(w,n,true,"rotated element"); break;
	case OP_remove: ismut = true; POS(ustl::remove (A.f(),A.l(),v)); for (size_t i = 0; i < n; ++i) if (a[i].k != kv.k) w.push(a[i]); want = w.size(); if (c.kind == TH_NONE && res == want) A.same(w,w.size(),true,"kept element"); break;
	case OP_remove_if: ismut = true; POS(remove_if (A.f(),A.l(),Pr<E>())); for (size_t i = 0; i < n; ++i) if (!kpr(a[i].k)) w.push(a[i]); want = w.size(); if (c.kind == TH_NONE && res == want) A.same(w,w.size(),true,"kept element"); break;
	case OP_unique: case OP_unique_p: ismut = true; if (op == OP_unique) POS(unique (A.f(),A.l())); else POS(unique (A.f(),A.l(),Eq<E>())); for (size_t i = 0; i < n; ++i) if (!w.size() || !keq(w.back().k,a[i].k)) w.push(a[i]); want = w.size(); if (c.kind == TH_NONE && res == want) A.same(w,w.size(),true,"kept element"); break;
	case OP_shift_up: { ismut = true; const size_t s = n ? m % (n+1) : 0; TRYB(c, res = copy_backward (A.f(),A.at(n-s),A.l()) - A.f()); want = s; for (size_t i = 0; i < n; ++i) w.push(i < s ? a[i] : a[i-s]); if (c.kind == TH_NONE) A.same(w,n,true,"copied element"); break; }
	case OP_shift_down: { ismut = true; const size_t s = n ? m % (n+1) : 0; POS(copy (A.at(s),A.l(),A.f())); want = n-s; for (size_t i = 0; i < n; ++i) w.push(i+s < n ? a[i+s] : a[i]); if (c.kind == TH_NONE) A.same(w,n,true,"copied element"); break; }
	case OP_sort: case OP_sort_p: case OP_nth_element_p: ismut = true; ok = false; if (!Sorts<E,I,IsPtr<I>::v>::go(op,A,hmin(k,n ? n-1 : 0),c)) break; w = a; ksort(w); if (c.kind == TH_NONE) { Mod g; A.read(g); A.perm(a,"sorted range"); if (op != OP_nth_element_p) { if (!ksorted(g,n)) bad("not-sorted","range is not in order"); } else if (n && k < n) { for (size_t i = 0; i < n; ++i) if (i < k ? klt(g[k].k,g[i].k) : klt(g[i].k,g[k].k)) { bad("not-sorted","element on the wrong side of the nth"); break; } } } break;
	case OP_stable_sort: case OP_stable_sort_p: ismut = true; ok = false; if (op == OP_stable_sort) TRYB(c, stable_sort (A.f(),A.l())); else TRYB(c, stable_sort (A.f(),A.l(),Cmp<E>())); w = a; ksort(w); if (c.kind == TH_NONE) A.same(w,n,true,"sorted element"); break;
	case OP_partial_sort: case OP_partial_sort_p: ismut = true; ok = false; if (op == OP_partial_sort) TRYB(c, partial_sort (A.f(),A.at(k),A.l())); else TRYB(c, partial_sort (A.f(),A.at(k),A.l(),Cmp<E>())); w = a; ksort(w); if (c.kind == TH_NONE) { A.perm(a,"sorted range"); A.same(w,k,false,"sorted element"); } break;
	case OP_nth_element: ismut = true; ok = false; if (!n) break; { const size_t q = hmin(k,n-1); TRYB(c, nth_element (A.f(),A.at(q),A.l())); if (c.kind == TH_NONE) { Mod g; A.read(g); A.perm(a,"range"); for (size_t i = 0; i < n; ++i) if (i < q ? klt(g[q].k,g[i].k) : klt(g[i].k,g[q].k)) { bad("not-sorted","element on the wrong side of the nth"); break; } } } break;
	case OP_partition: case OP_stable_partition: ismut = true; if (op == OP_partition) POS(partition (A.f(),A.l(),Pr<E>())); else POS(stable_partition (A.f(),A.l(),Pr<E>())); for (size_t i = 0; i < n; ++i) if (kpr(a[i].k)) w.push(a[i]); want = w.size(); for (size_t i = 0; i < n; ++i) if (!kpr(a[i].k)) w.push(a[i]); if (c.kind == TH_NONE && res == want) { if (op == OP_stable_partition) A.same(w,n,true,"partitioned element"); else { Mod g; A.read(g); A.perm(a,"partitioned range"); for (size_t i = 0; i < n; ++i) if (kpr(g[i].k) != ((ptrdiff_t)i < want)) { bad("wrong-result","element on the wrong side",i,want); break; } } } break;
	case OP_inplace_merge: ismut = true; ok = false; TRYB(c, inplace_merge (A.f(),A.at(k),A.l())); w = a; ksort(w); if (c.kind == TH_NONE) { A.same(w,n,false,"merged element"); A.perm(a,"merged range"); } break;
	case OP_heap: case OP_heap_p: { ismut = true; ok = false; const bool pr = op == OP_heap_p; if (pr) TRYB(c, make_heap (A.f(),A.l(),Cmp<E>())); else TRYB(c, make_heap (A.f(),A.l())); if (c.kind != TH_NONE) break;
	    Mod g; A.read(g); A.perm(a,"heap"); if (!kheap(g,n)) { bad("not-a-heap","made heap is not one"); break; }
	    for (size_t z = n, q = 0; q < 12 && z; ++q) {	// take some out, put some back
		size_t top = 0; A.read(g); for (size_t i = 1; i < z; ++i) if (klt(g[top].k,g[i].k)) top = i; const int64_t tk = g[top].k;
		const bool push = z < n && (var >> (q+4) & 1);
		if (push) { ++z; if (pr) TRYB(c, push_heap (A.f(),A.at(z),Cmp<E>())); else TRYB(c, push_heap (A.f(),A.at(z))); }
		else { if (pr) TRYB(c, pop_heap (A.f(),A.at(z),Cmp<E>())); else TRYB(c, pop_heap (A.f(),A.at(z))); --z; }
		if (c.kind != TH_NONE) break;
		A.read(g); A.perm(a,"heap");
		if (!kheap(g,z)) { bad("not-a-heap",push ? "not a heap after push_heap" : "not a heap after pop_heap",z); break; }
		if (!push && (klt(g[z].k,tk) || klt(tk,g[z].k))) { bad("wrong-result","pop_heap did not move the greatest element to the end",g[z].k,tk); break; }
	    } break; }
	case OP_heap_sort: ismut = true; ok = false; TRYB(c, make_heap (A.f(),A.l()); sort_heap (A.f(),A.l())); w = a; ksort(w); if (c.kind == TH_NONE) { A.same(w,n,false,"sorted element"); A.perm(a,"sorted range"); } break;
	case OP_next_permutation: case OP_prev_permutation: case OP_next_permutation_p: case OP_prev_permutation_p: { ismut = true; const bool pv = op == OP_prev_permutation || op == OP_prev_permutation_p; w = a; bw = knext(w,pv);
	    if (op == OP_next_permutation) YES(next_permutation (A.f(),A.l())); else if (op == OP_prev_permutation) YES(prev_permutation (A.f(),A.l())); else if (pv) YES(prev_permutation (A.f(),A.l(),Cmp<E>())); else YES(next_permutation (A.f(),A.l(),Cmp<E>()));
	    if (c.kind == TH_NONE) { A.same(w,n,false,"permuted element"); A.perm(a,"permuted range"); } break; }
	case OP_random_shuffle: ismut = true; ok = false; rand_config(st.a[3],(int)(var % 4)); TRYB(c, random_shuffle (A.f(),A.l())); if (c.kind == TH_NONE) A.perm(a,"shuffled range"); break;
	case OP_copy: OUT(copy (A.f(),A.l(),R.f())); want = n; if (c.kind == TH_NONE) R.same(a,n,true,"copied element"); break;
	case OP_copy_n: OUT(copy_n (A.f(),k,R.f())); want = k; if (c.kind == TH_NONE) R.same(a,k,true,"copied element"); break;
	case OP_copy_backward: isout = true; TRYB(c, res = copy_backward (A.at(k),A.l(),R.l()) - R.f()); want = k; for (size_t i = 0; i < n; ++i) w.push(i < k ? rm[i] : a[i]); if (c.kind == TH_NONE) R.same(w,n,true,"copied element"); break;
	case OP_copy_if: OUT(copy_if (A.f(),A.l(),R.f(),Pr<E>())); for (size_t i = 0; i < n; ++i) if (kpr(a[i].k)) w.push(a[i]); want = rn; if (c.kind == TH_NONE) R.same(w,rn,true,"copied element"); break;
	case OP_replace_copy: OUT(replace_copy (A.f(),A.l(),R.f(),v,v2)); for (size_t i = 0; i < n; ++i) w.push(a[i].k == kv.k ? kv2 : a[i]); want = n; if (c.kind == TH_NONE) R.same(w,n,true,"copied element"); break;
	case OP_replace_copy_if: OUT(replace_copy_if (A.f(),A.l(),R.f(),Pr<E>(),v2)); for (size_t i = 0; i < n; ++i) w.push(kpr(a[i].k) ? kv2 : a[i]); want = n; if (c.kind == TH_NONE) R.same(w,n,true,"copied element"); break;
	case OP_reverse_copy: OUT(reverse_copy (A.f(),A.l(),R.f())); for (size_t i = n; i--;) w.push(a[i]); want = n; if (c.kind == TH_NONE) R.same(w,n,true,"copied element"); break;
	case OP_rotate_copy: OUT(rotate_copy (A.f(),A.at(k),A.l(),R.f())); for (size_t i = 0; i < n; ++i) w.push(a[(i+k)%n]); want = n; if (c.kind == TH_NONE) R.same(w,n,true,"copied element"); break;
	case OP_merge: OUT(merge (A.f(),A.l(),B.f(),B.l(),R.f())); w = a; w.append(b.data(),b.size()); want = rn; if (c.kind == TH_NONE) { R.perm(w,"merged range"); ksort(w); R.same(w,rn,false,"merged element"); } break;
	case OP_remove_copy: OUT(remove_copy (A.f(),A.l(),R.f(),v)); for (size_t i = 0; i < n; ++i) if (a[i].k != kv.k) w.push(a[i]); want = rn; if (c.kind == TH_NONE) R.same(w,rn,true,"copied element"); break;
	case OP_remove_copy_if: OUT(remove_copy_if (A.f(),A.l(),R.f(),Pr<E>())); for (size_t i = 0; i < n; ++i) if (!kpr(a[i].k)) w.push(a[i]); want = rn; if (c.kind == TH_NONE) R.same(w,rn,true,"copied element"); break;
	case OP_remove_copy_range: { I rr [376]; size_t nr = 0; if (n > 120) { ok = false; break; } for (size_t i = 0; i < n; ++i) if (unsigned t = listed (i,var)) while (t--) rr[nr++] = A.at(i); else w.push(a[i]); OUT(remove_copy (A.f(),A.l(),R.f(),&rr[0],&rr[0]+nr)); want = rn; if (c.kind == TH_NONE) R.same(w,rn,true,"copied element"); break; }
	case OP_unique_copy: case OP_unique_copy_p: if (op == OP_unique_copy) OUT(unique_copy (A.f(),A.l(),R.f())); else OUT(unique_copy (A.f(),A.l(),R.f(),Eq<E>())); for (size_t i = 0; i < n; ++i) if (!w.size() || !keq(w.back().k,a[i].k)) w.push(a[i]); want = rn; if (c.kind == TH_NONE) R.same(w,rn,true,"copied element"); break;
#define SETOP(name) case OP_##name: case OP_##name##_p: if (op == OP_##name) OUT(name (A.f(),A.l(),B.f(),B.l(),R.f())); else OUT(name (A.f(),A.l(),B.f(),B.l(),R.f(),Cmp<E>())); want = rn; if (c.kind == TH_NONE) R.same(w,rn,true,"element of the result"); break;
	SETOP(set_union) SETOP(set_intersection) SETOP(set_difference) SETOP(set_symmetric_difference)
	case OP_partial_sort_copy: case OP_partial_sort_copy_p: if (op == OP_partial_sort_copy) OUT(partial_sort_copy (A.f(),A.l(),R.f(),R.l())); else OUT(partial_sort_copy (A.f(),A.l(),R.f(),R.l(),Cmp<E>())); w = a; ksort(w); want = hmin(n,rn); if (c.kind == TH_NONE) { Mod g; R.read(g); for (size_t i = 0; i < (size_t)want; ++i) if (klt(g[i].k,w[i].k) || klt(w[i].k,g[i].k)) { bad("wrong-result","element of the result",g[i].k,w[i].k); break; }
		Vec<uint8_t> used; used.resize(n); for (size_t i = 0; i < (size_t)want; ++i) { size_t q = 0; while (q < n && (used[q] || a[q].k != g[i].k || (T::tagged && a[q].t != g[i].t))) ++q; if (q == n) { bad("wrong-result","element of the result that is not in the input",g[i].k,i); break; } used[q] = 1; } } break;
	case OP_inserted: {	// through back_inserter and inserter into a container
	    if (n > 60) { ok = false; break; }
	    ok = false; LibScope ls; vector<E> ctr; bool built = true; { HxScope hx; }
	    if (var & 0x40000) {	// one after the other, as a program writes it, into the middle of what is there
		list<E> fr; const size_t at = n ? k % n : 0; const unsigned form = (var >> 8) % 8; const bool front = form >= 6;
		g_pm = 1 << 30; g_pr = -7;
		TRYB(c,
		    for (size_t q = 0; q < n && !front; ++q) ctr.push_back (*A.at(q));
		    switch (form) {
			case 0: { insert_iterator<vector<E> > i = inserter(ctr,ctr.begin()+at); for (size_t q = 0; q < n; ++q) *i++ = *A.at(q); break; }
			case 1: set_union (A.f(),A.l(),A.l(),A.l(),inserter(ctr,ctr.begin()+at),Cmp<E>()); break;
			case 2: { back_insert_iterator<vector<E> > i = back_inserter(ctr); for (size_t q = 0; q < n; ++q) *i++ = *A.at(q); break; }
			case 3: remove_copy_if (A.f(),A.l(),inserter(ctr,ctr.begin()+at),Pr<E>()); break;
			case 4: { insert_iterator<vector<E> > i = inserter(ctr,ctr.begin()+at); for (size_t q = 0; q < n; ++q) { *i = *A.at(q); ++i; } break; }
			case 5: copy (A.at(k),A.l(),copy (A.f(),A.at(k),inserter(ctr,ctr.begin()+at))); break;
			case 6: { front_insert_iterator<list<E> > i = front_inserter(fr); for (size_t q = 0; q < n; ++q) *i++ = *A.at(q); break; }
			default: copy (A.f(),A.l(),front_inserter(fr)); break;
		    });
		if (c.kind == TH_NONE) {
		    if (front) for (size_t q = n; q--;) w.push(a[q]);
		    else { const size_t p0 = form == 2 ? n : at; w.append(a.data(),p0); w.append(a.data(),n); w.append(a.data()+p0,n-p0); }
		    vector<E>& got = front ? fr : ctr;
		    if (got.size() != w.size()) bad("wrong-size","elements inserted",got.size(),w.size());
		    else for (size_t i = 0; i < w.size(); ++i) if (T::key(got[i]) != w[i].k || (T::tagged && T::tag(got[i]) != w[i].t)) { bad("wrong-result","inserted element",i,form); break; }
		}
		for (size_t i = 0; i < ctr.size(); ++i) T::id(ctr[i]); for (size_t i = 0; i < fr.size(); ++i) T::id(fr[i]);
		break;
	    }
	    TRYB(c, if (var & 0x10000) copy (A.f(),A.l(),back_inserter(ctr)); else copy (A.f(),A.l(),inserter(ctr,ctr.begin())));
	    if (c.kind == TH_NONE && built) { if (ctr.size() != n) bad("wrong-size","elements inserted",ctr.size(),n); else for (size_t i = 0; i < n; ++i) if (T::key(ctr[i]) != a[i].k || T::tag(ctr[i]) != (T::tagged ? a[i].t : 0)) { bad("wrong-result","inserted element",i); break; } }
	    for (size_t i = 0; i < ctr.size(); ++i) T::id(ctr[i]);
	    break; }
	case OP_whole: { if (n > 60) { ok = false; break; } ok = false; isout = true; contained<I>((unsigned)(r.next() % N_WHOLE),A,R,a,rm,v,kv,v2,kv2,k,var >> 3,c); break; }
	case OP_moved: { typedef move_iterator<I> MI; ismut = isout = true; MI mf (A.f()), ml (A.l()); const size_t q = n ? k : 0;
	    if (var & 0x20000) TRYB(c, res = copy (mf,ml,R.f()) - R.f()); else { TRYB(c, const ptrdiff_t d = ml - mf; if (d != (ptrdiff_t)n) bad("wrong-result","distance of move iterators",d,n); else res = copy (mf+q,ml,copy (mf,ml-(n-q),R.f())) - R.f()); }
	    want = n; if (c.kind == TH_NONE && res == want) R.same(a,n,true,"moved element"); break; }
	case OP_walked: { ok = false; typedef reverse_iterator<I> RI; typedef move_iterator<I> MI; Mod rv; for (size_t i = n; i--;) rv.push(a[i]);
	    { const RI rf = make_reverse_iterator(A.l()), rl (A.f()); walk<ValKey<E> > ("reverse_iterator",r,rf,rl,rv); if (rf.base() != A.l() || rl.base() != A.f()) bad("wrong-result","base of a reverse_iterator"); if (n && &*rf != rf.operator->()) bad("wrong-result","reverse_iterator operator->"); }
	    { const MI mf = make_move_iterator(A.f()), ml (A.l()); walk<MoveKey<E> > ("move_iterator",r,mf,ml,a); if (mf.base() != A.f() || ml.base() != A.l()) bad("wrong-result","base of a move_iterator"); if (n && mf.operator->() != &*A.f()) bad("wrong-result","move_iterator operator->"); }
	    { size_t ix [64]; Mod im; const size_t nx = n ? r.below(64) : 0; for (size_t q = 0; q < nx; ++q) { ix[q] = r.below((unsigned)n); im.push(a[ix[q]]); }
	      typedef index_iterate<I,const size_t*> XI; const XI xf = index_iterator(A.f(),(const size_t*)ix), xl (A.f(),ix+nx); walk<PtrKey<E> > ("index_iterate",r,xf,xl,im); if (xf.base() != ix || (n && !(xf == A.f()))) bad("wrong-result","base of an index_iterate");
	      vector<size_t> vx; vector<I> vi; TRYB(c, vx.assign (ix,ix+nx); indexv_to_iteratorv (A.f(),vx,vi)); if (c.kind == TH_NONE) { if (vi.size() != nx) bad("wrong-size","indexv_to_iteratorv",vi.size(),nx); else for (size_t q = 0; q < nx; ++q) if (T::key(*vi[q]) != im[q].k) { bad("wrong-result","indexv_to_iteratorv",q); break; } } LIB(vx.deallocate(); vi.deallocate()); }
	    break; }
	case OP_iota: { ok = false; Iota<E,!T::tok && T::num>::go(n,var % 7); break; }
	case OP_power: { ok = false; const unsigned e = m % 20; int64_t x = 1+k % 7; uint64_t q = 1; for (unsigned i = 0; i < e; ++i) q *= x; uint64_t g1 = 0, g2 = 0; LIB(g1 = power (uint64_t(x),e); g2 = power (uint64_t(x),e,multiplies<uint64_t>())); if (g1 != q) bad("wrong-result","power",g1,q); if (g2 != q) bad("wrong-result","power with an operation",g2,q); break; }
	default: ok = false; if (!Nums<E,I,T::num>::go(op,A,B,R,c,a,b,isout)) {} break;
    }
    if (c.kind == TH_CRASH) { probe(P_BOOM); if (!g_boomed) bad("spurious-throw","threw without a failure"); }
    if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed"); }
    if (c.kind == TH_OTHER) bad("wrong-exception","threw another exception than the element's");
    if (c.kind == TH_NONE) { probe(P_DONE); if (ok && want >= 0 && res != want) bad("wrong-position","returned position",res,want); if (ok && bw >= 0 && br != bw) bad("wrong-result","returned value",br,bw); if (g_boomed) bad("swallowed","an element's exception did not arrive"); }
    // whatever happened: inputs that are only read are unchanged, everything is alive, nothing else was touched
    if (!ismut) A.same(a,n,true,"element of an input that is only read");
    if (op != OP_swap_ranges) B.same(b,m,true,"element of an input that is only read");
    if (!isout) R.same(rm,rn,true,"unrelated element");
    Vec<uint32_t> ids; A.intact(ids); B.intact(ids); R.intact(ids); T::id(v); T::id(v2);
    if (T::key(v) != kv.k || T::key(v2) != kv2.k) bad("outside","a value passed in was changed");
    if (g_live != live1) bad(g_live > live1 ? "element-leak" : "lost-element","elements alive after the call",g_live-live0,live1-live0);
    v.~E(); v2.~E();
    }
    if (g_live != live0) bad("element-leak","elements alive in the end",g_live,live0);
}
void exec(const Plan& p)
{
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op];
	if (st.op == OP_functors) { if (!st.nf) LIB(functors_run(st.a[3])); continue; }
	if (st.op == OP_helpers) { LIB(helpers_run(st.a[3]); limits_run(st.a[4])); continue; }
	switch ((int)((uint64_t)p.cfg[C_KIND] % K_N)) {
	    case K_TOKC: one<TokC*>(st); break;
	    case K_TOKC_R: probe(P_REVERSED); one<reverse_iterator<TokC*> >(st); break;
	    case K_TOKM: one<TokM*>(st); break;
	    case K_TOKM_W: probe(P_WRAPPED); one<Chk<TokM> >(st); break;
	    case K_STR: one<string*>(st); break;
	    case K_U8: one<uint8_t*>(st); break;
	    case K_U8_R: probe(P_REVERSED); one<reverse_iterator<uint8_t*> >(st); break;
	    case K_C: one<char*>(st); break;
	    case K_U16: one<uint16_t*>(st); break;
	    case K_I32: one<int32_t*>(st); break;
	    case K_I32_W: probe(P_WRAPPED); one<Chk<int32_t> >(st); break;
	    case K_U64: one<uint64_t*>(st); break;
	    case K_FLT: one<float*>(st); break;
	}
    }
    sim.step = 0; what = "end";
    if (g_live) bad("element-leak","elements alive in the end",g_live);
    arena_check_leaks("A01","after the algorithms");
}
const Scenario S = { "alg", "A01", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
