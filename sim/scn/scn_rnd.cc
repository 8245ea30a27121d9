// random_shuffle: a permutation of the range and nothing else, whatever the random numbers are.
#include "common.h"
using namespace ustl;

namespace {
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("K02",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }
struct Tri { uint32_t a; uint16_t b; uint8_t c; bool operator==(const Tri& v) const { return a == v.a && b == v.b && c == v.c; } };
enum { OP_bytes, OP_ints, OP_structs, OP_longs, OP_string, OP_vector, OP_strings, OP_owners, OP_backwards, OP_all, N_OPS };
const char* const OPS [N_OPS] = { "bytes","ints","structs","longs","string","vector","vector_of_strings","vector_of_owners","backwards","every_permutation" };
enum { C_UNUSED, N_CFG };
const char* const CFG [N_CFG] = { "unused" };
enum { P_EMPTY, P_ONE, P_CONST, P_SUB, P_ALL, P_CHANGED, P_BIG, N_PROBES };
const char* const PROBES [N_PROBES] = { "empty_range","single_element","constant_random_numbers","part_of_a_container","all_permutations_seen","order_changed","more_than_1000_elements" };

void gen(Rng& r, Plan& p, bool faults)
{
    const int n = 1 + (int)r.skewed(20);
    for (int i = 0; i < n; ++i) p.add(r.chance(15) ? (int)OP_all : (int)r.below(OP_all),r.chance(50) ? r.below(3000) : r.skewed(60),r.next()>>20,r.below(1000),r.below(1000),faults ? r.below(7) : 0);
}
// Elements of the range must be those of orig in some order; sorted compare by counting.
template <typename T> void perm(const T* now, const T* orig, size_t n)
{
    HxScope hx; Vec<uint8_t> used; used.resize(n); memset(used.data(),0,n); bool moved = false;
    size_t hint = 0;
    for (size_t i = 0; i < n; ++i) {
	size_t k = n; for (size_t q = 0; q < n; ++q) { size_t j = (hint+q) % n; if (!used[j] && now[i] == orig[j]) { k = j; break; } }
	if (k == n) { bad("not-a-permutation","element is not one of the original ones, or occurs too often",i,-1); return; }
	used[k] = 1; hint = k+1; moved |= k != i;
    }
    if (moved) probe(P_CHANGED);
}
void calls(size_t n) { if (g_randcalls > 4*n+16) bad("too-many-random-numbers","random numbers used",g_randcalls,n); }
template <typename T> void raw(size_t n, uint64_t seed, unsigned a, unsigned b)
{
    enum { FR = 8 };
    Vec<T> o; { HxScope hx; o.resize(n+FR); memset((void*)o.data(),0,(n+FR)*sizeof(T)); Rng r(seed); for (size_t i = 0; i < n+FR; ++i) { uint64_t v[2] = { seed & 1 ? i*0x0101010101ull : r.next() % 9, r.next() }; if (sizeof(T) == sizeof(Tri)) { Tri t; memset((void*)&t,0,sizeof(t)); t.a = v[0]; t.b = i; t.c = v[0]; memcpy((void*)&o[i],&t,sizeof(T)); } else memcpy((void*)&o[i],v,sizeof(T)); } }
    T* m = (T*)arena_place((n+FR)*sizeof(T),o.data()); T* e = m+FR;
    size_t lo = n ? a % (n+1) : 0, hi = n ? b % (n+1) : 0; if (lo > hi) { size_t t = lo; lo = hi; hi = t; } if (a & 1) { lo = 0; hi = n; } else probe(P_SUB);
    if (lo == hi) probe(P_EMPTY); if (lo+1 == hi) probe(P_ONE); if (hi-lo > 1000) probe(P_BIG);
    Caught c; TRY(c, random_shuffle (e+lo,e+hi)); if (c.kind) bad("exception",thname(c.kind)); calls(hi-lo);
    for (size_t i = 0; i < n+FR; ++i) if ((i < FR+lo || i >= FR+hi) && !(m[i] == o[i])) { bad("outside","element outside the range changed",(long long)i-FR,lo); break; }
    perm(e+lo,o.data()+FR+lo,hi-lo);
}
int g_made, g_gone;
struct Owner { uint32_t id; void* m; explicit Owner(uint32_t i = 0) : id (i), m (malloc (1)) { ++g_made; } Owner(const Owner& o) : id (o.id), m (malloc (1)) { ++g_made; } Owner(Owner&& o) : id (o.id), m (o.m) { o.m = 0; ++g_made; } Owner& operator=(const Owner& o) { id = o.id; return *this; } ~Owner() { free (m); m = (void*)0xDEAD; ++g_gone; } bool operator==(const Owner& o) const { return id == o.id; } };

void exec(const Plan& p)
{
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op]; const size_t n = st.a[0]; const uint64_t seed = st.a[1]; const unsigned a = st.a[2], b = st.a[3];
	rand_config(seed,(int)st.a[4]); if (st.a[4] == 1 || st.a[4] == 2) probe(P_CONST);
	Caught c; c.kind = TH_NONE;
	switch (st.op) {
	    case OP_bytes: raw<uint8_t>(n,seed,a,b); break;
	    case OP_ints: raw<uint32_t>(n,seed,a,b); break;
	    case OP_structs: raw<Tri>(n,seed,a,b); break;
	    case OP_longs: raw<uint64_t>(n,seed,a,b); break;
	    case OP_string: { string s, o; { HxScope hx; s.resize (n); for (size_t i = 0; i < n; ++i) s[i] = 'a'+(i*7+seed)%26; o = s; } TRY(c, random_shuffle (s)); calls(n); if (s.size() != n || s.c_str()[n]) bad("not-a-permutation","size",s.size(),n); else perm(s.begin(),o.begin(),n); break; }
	    case OP_vector: { vector<uint16_t> v, o; { HxScope hx; for (size_t i = 0; i < n; ++i) v.push_back (uint16_t(i*31+seed)); o = v; } const uint16_t* was = v.begin(); TRY(c, random_shuffle (v)); calls(n); if (v.size() != n || v.begin() != was) bad("not-a-permutation","size or place",v.size(),n); else perm(&*v.begin(),&*o.begin(),n); break; }
	    case OP_strings: { LibScope ls; vector<string> v, o; for (size_t i = 0; i < n % 40; ++i) { string s; s.resize (i % 23,char('a'+i%26)); v.push_back (s); } o = v; TRY(c, random_shuffle (v)); calls(n % 40); if (v.size() != n % 40) bad("not-a-permutation","size",v.size(),n % 40); else perm(&*v.begin(),&*o.begin(),n % 40); break; }
	    case OP_owners: { LibScope ls; g_made = g_gone = 0; { vector<Owner> v, o; v.reserve (n % 60); o.reserve (n % 60); for (size_t i = 0; i < n % 60; ++i) { v.push_back (Owner (i)); o.push_back (Owner (i)); } TRY(c, random_shuffle (v.begin(),v.end())); calls(n % 60); perm(&*v.begin(),&*o.begin(),n % 60); } if (g_made != g_gone) bad("lost-object","objects constructed and destroyed",g_gone,g_made); break; }
	    case OP_backwards: { vector<uint32_t> v, o; { HxScope hx; for (size_t i = 0; i < n; ++i) v.push_back (i); o = v; } const size_t skip = n ? a % (n+1) : 0; TRY(c, random_shuffle (v.begin()+skip,v.end())); calls(n); for (size_t i = 0; i < skip; ++i) if (v[i] != i) { bad("outside","element outside the range changed",i,skip); break; } if (n) perm(&*v.begin(),&*o.begin(),n); break; }
	    case OP_all: {	// with evenly distributed numbers every permutation is about equally likely
		rand_config(seed,0); enum { T = 24*400 }; static int cnt [256]; memset(cnt,0,sizeof(cnt)); const int z = 3 + a % 2, np = z == 3 ? 6 : 24;
		for (int t = 0; t < T; ++t) { uint8_t v [4] = { 0, 1, 2, 3 }; LIB(random_shuffle (v,v+z)); int key = 0; for (int i = 0; i < z; ++i) key = key*4+v[i]; ++cnt[key & 255]; }
		int seen = 0; for (int i = 0; i < 256; ++i) if (cnt[i]) { ++seen; if (cnt[i] < T/np/2 || cnt[i] > T/np*3/2) bad("uneven","times a permutation came up",cnt[i],T/np); }
		if (seen != np) bad("uneven","permutations seen",seen,np); probe(P_ALL); break; }
	}
	if (c.kind) bad("exception",thname(c.kind));
    }
    sim.step = 0; what = "end"; arena_check_leaks("K02","after shuffling");
}
const Scenario SC = { "rnd", "K02", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&SC);
}
