// Binary serialisation: values written, stored, damaged or cut short, and read back.
#include "common.h"
#include <errno.h>
#include <stdio.h>
using namespace ustl;

namespace {
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("D01",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

//---------------------------------------------------------------- making values, and looking at them without the library's comparisons
u64 rnd(Rng& r) { switch (r.below(4)) { case 0: return r.below(4); case 1: return r.below(300); case 2: return ~r.below(3); default: return r.next(); } }
#define SCALAR(T) void mk(T& v, Rng& r, int) { v = (T)rnd(r); } void dump(Bytes& b, const T& v) { b.append((const u8*)&v,sizeof(v)); }
template <typename T> void mk(vector<T>& v, Rng& r, int n);
template <typename T> void dump(Bytes& b, const vector<T>& v);
template <size_t N, typename T> void mk(tuple<N,T>& v, Rng& r, int n);
template <size_t N, typename T> void dump(Bytes& b, const tuple<N,T>& v);
template <size_t N> void mk(bitset<N>& v, Rng& r, int);
template <size_t N> void dump(Bytes& b, const bitset<N>& v);
SCALAR(u8) SCALAR(u16) SCALAR(u32) SCALAR(unsigned long) SCALAR(int) SCALAR(wchar_t) SCALAR(double) SCALAR(float) SCALAR(short)
void mk(bool& v, Rng& r, int) { v = r.below(2); }
void dump(Bytes& b, const bool& v) { b.push(*(const u8*)&v); }
void dumpn(Bytes& b, size_t n) { b.append((const u8*)&n,sizeof(n)); }
int g_huge;	// one text, block or vector per run may be longer than 16 bits count
void mk(string& v, Rng& r, int n) { n = r.chance(2) && !g_huge++ ? 65532+(int)r.below(8) : r.chance(100) ? 0 : r.chance(60) ? 126+(int)r.below(4) : r.chance(15) ? 2046+(int)r.below(4) : (int)r.skewed(n); v.resize (n); for (int i = 0; i < n; ++i) v[i] = r.chance(100) ? 0 : (char)('A'+r.below(60)); }
void dump(Bytes& b, const string& v) { dumpn(b,v.size()); b.append((const u8*)v.begin(),v.size()); if (v.size() && v.c_str()[v.size()]) bad("unterminated","a string read back is not terminated",v.size()); }
void mk(memblock& v, Rng& r, int n) { n = r.chance(12) && !g_huge++ ? 65532+(int)r.below(8) : (int)r.skewed(n*2); v.resize (n); for (int i = 0; i < n; ++i) v.begin()[i] = (char)r.below(256); }
void dump(Bytes& b, const memblock& v) { dumpn(b,v.size()); b.append((const u8*)v.begin(),v.size()); }
template <size_t NX, size_t NY, typename T> void mk(matrix<NX,NY,T>& v, Rng& r, int n) { for (size_t i = 0; i < NX*NY; ++i) mk(v.begin()[i],r,n); }
template <size_t NX, size_t NY, typename T> void dump(Bytes& b, const matrix<NX,NY,T>& v) { for (size_t i = 0; i < NX*NY; ++i) dump(b,v.begin()[i]); }
// values written through the wrappers and stream functors
struct Long4 { unsigned long v; const char* p; Long4() : v(0),p(0) {} void read(istream& is) { is >> long4grain (v) >> ptr4grain (p); } void write(ostream& os) const { os << long4grain (v) << ptr4grain (p); } streamsize stream_size() const { return long4grain(v).stream_size()+ptr4grain(p).stream_size(); } };
void mk(Long4& v, Rng& r, int) { v.v = rnd(r); v.p = (const char*)rnd(r); }
void dump(Bytes& b, const Long4& v) { b.append((const u8*)&v.v,8); b.append((const u8*)&v.p,8); }
struct Gaps { u8 a, b; u16 c; u32 d; u64 e; Gaps() : a(0),b(0),c(0),d(0),e(0) {}
    void read(istream& is) { is >> a >> ios::talign<u32>() >> d >> ios::skip (3) >> b >> ios::talign<u16>() >> c >> ios::align (16) >> ios::talign<u64>() >> e; }
    void write(ostream& os) const { os << a << ios::talign<u32>() << d << ios::skip (3) << b << ios::talign<u16>() << c << ios::align (16) << ios::talign<u64>() << e; }
    streamsize stream_size() const { const u32 x = 0; return stream_size_of(a) + (stream_align_of(x)-1) + stream_size_of(d) + ios::skip(3).stream_size() + 28; } };
void mk(Gaps& v, Rng& r, int) { v.a = r.next(); v.b = r.next(); v.c = rnd(r); v.d = rnd(r); v.e = rnd(r); }
void dump(Bytes& b, const Gaps& v) { b.push(v.a); b.push(v.b); b.append((const u8*)&v.c,2); b.append((const u8*)&v.d,4); b.append((const u8*)&v.e,8); }
// in a byte order of its own
struct Orders { u16 s; int16_t t; u32 i; int32_t j; u64 l; int64_t m; Orders() : s(0),t(0),i(0),j(0),l(0),m(0) {}
    void read(istream& is) { is >> l >> m >> i >> j >> s >> t; l = be_to_native (l); m = le_to_native (m); i = be_to_native (i); j = be_to_native (j); s = le_to_native (s); t = be_to_native (t); }
    void write(ostream& os) const { os << native_to_be (l) << native_to_le (m) << native_to_be (i) << native_to_be (j) << native_to_le (s) << native_to_be (t); }
    streamsize stream_size() const { return 28; } };
void mk(Orders& v, Rng& r, int) { v.s = rnd(r); v.t = rnd(r); v.i = rnd(r); v.j = rnd(r); v.l = rnd(r); v.m = rnd(r); }
void dump(Bytes& b, const Orders& v) { b.append((const u8*)&v.l,8); b.append((const u8*)&v.m,8); b.append((const u8*)&v.i,4); b.append((const u8*)&v.j,4); b.append((const u8*)&v.s,2); b.append((const u8*)&v.t,2); }
void check_orders(const u8* p, const Orders& v)
{
    u64 l = 0, m = 0; u32 i = 0, j = 0; u16 s = 0, t = 0;
    for (int k = 0; k < 8; ++k) { l = l<<8 | p[k]; m |= (u64)p[8+k]<<8*k; }
    for (int k = 0; k < 4; ++k) { i = i<<8 | p[16+k]; j = j<<8 | p[20+k]; }
    s = p[24] | p[25]<<8; t = p[26]<<8 | p[27];
    if (l != v.l || (int64_t)m != v.m || i != v.i || (int32_t)j != v.j || s != v.s || (int16_t)t != v.t) bad("wrong-value","bytes written in a given order",l,v.l);
    if (bswap (v.l) != __builtin_bswap64 (v.l) || bswap (v.m) != (int64_t)__builtin_bswap64 (v.m) || bswap (v.i) != __builtin_bswap32 (v.i) || bswap (v.j) != (int32_t)__builtin_bswap32 (v.j) || bswap (v.s) != __builtin_bswap16 (v.s) || bswap (v.t) != (int16_t)__builtin_bswap16 (v.t) || bswap ((u8)v.s) != (u8)v.s || bswap ((int8_t)v.s) != (int8_t)v.s
	|| bswap_64 (v.l) != __builtin_bswap64 (v.l) || bswap_32 (v.i) != __builtin_bswap32 (v.i) || bswap_16 (v.s) != __builtin_bswap16 (v.s) || bswap_8 ((u8)v.s) != (u8)v.s) bad("wrong-value","bytes swapped",v.l);
}
struct Link { u8 buf [64]; memlink l; Link() { memset(buf,0x77,64); l.link (buf,64); } void read(istream& is) { l.read (is); } void write(ostream& os) const { l.write (os); } streamsize stream_size() const { return l.stream_size(); } };
void mk(Link& v, Rng& r, int) { const int n = r.below(65); v.l.link (v.buf,n); for (int i = 0; i < n; ++i) v.buf[i] = r.below(256); }
void dump(Bytes& b, const Link& v) { dumpn(b,v.l.size()); if (v.l.size() > 64) bad("overflow","a linked block grew past its buffer",v.l.size(),64); else b.append((const u8*)v.l.begin(),v.l.size()); }
template <typename A, typename B> void mk(pair<A,B>& v, Rng& r, int n) { mk(v.first,r,n); mk(v.second,r,n); }
template <typename A, typename B> void dump(Bytes& b, const pair<A,B>& v) { dump(b,v.first); dump(b,v.second); }
template <size_t N, typename T> void mk(tuple<N,T>& v, Rng& r, int n) { for (size_t i = 0; i < N; ++i) mk(v[i],r,n); }
template <size_t N, typename T> void dump(Bytes& b, const tuple<N,T>& v) { for (size_t i = 0; i < N; ++i) dump(b,v[i]); }
template <typename T, size_t N> void mk(array<T,N>& v, Rng& r, int n) { for (size_t i = 0; i < N; ++i) mk(v[i],r,n); }
template <typename T, size_t N> void dump(Bytes& b, const array<T,N>& v) { for (size_t i = 0; i < N; ++i) dump(b,v[i]); }
template <size_t N> void mk(bitset<N>& v, Rng& r, int) { for (size_t i = 0; i < N; ++i) v.set (i,r.below(2)); }
template <size_t N> void dump(Bytes& b, const bitset<N>& v) { for (size_t i = 0; i < N; ++i) b.push(v.test (i)); }
template <typename T> void mk(vector<T>& v, Rng& r, int n) { n = sizeof(T) <= 2 && r.chance(6) && !g_huge++ ? 65532+(int)r.below(8) : r.chance(100) ? r.chance(300) ? 20+(int)r.below(50) : 20 : (int)r.skewed(6); v.clear(); for (int i = 0; i < n; ++i) { T e = T(); mk(e,r,10); v.push_back (e); } }
template <typename T> void dump(Bytes& b, const vector<T>& v) { dumpn(b,v.size()); for (size_t i = 0; i < v.size(); ++i) dump(b,v[i]); }
template <typename T> void mk(set<T>& v, Rng& r, int) { const int n = r.chance(30) ? 20+(int)r.below(60) : (int)r.skewed(20); v.clear(); for (int i = 0; i < n; ++i) { T e = T(); mk(e,r,10); v.insert (e); } }
template <typename T> void mk(multiset<T>& v, Rng& r, int) { const int n = r.chance(30) ? 20+(int)r.below(60) : (int)r.skewed(20); v.clear(); for (int i = 0; i < n; ++i) { T e = T(); mk(e,r,10); v.insert (e); } }
template <typename K, typename V> void mk(map<K,V>& v, Rng& r, int) { const int n = r.chance(30) ? 20+(int)r.below(60) : (int)r.skewed(20); v.clear(); for (int i = 0; i < n; ++i) { K k = K(); mk(k,r,10); V e = V(); mk(e,r,r.below(2)*4); v.insert (make_pair (k,e)); } }
template <typename K, typename V> void mk(multimap<K,V>& v, Rng& r, int) { const int n = r.chance(30) ? 20+(int)r.below(60) : (int)r.skewed(20); v.clear(); for (int i = 0; i < n; ++i) { K k = K(); mk(k,r,10); V e = V(); mk(e,r,4); v.insert (make_pair (k,e)); } }
void mk(chrono::milliseconds& v, Rng& r, int) { v = chrono::milliseconds (rnd(r)); }
void dump(Bytes& b, const chrono::milliseconds& v) { dumpn(b,v.count()); }
typedef chrono::system_clock::time_point tpoint;
void mk(tpoint& v, Rng& r, int) { v = tpoint (tpoint::duration (rnd(r))); }
void dump(Bytes& b, const tpoint& v) { dumpn(b,v.time_since_epoch().count()); }
// exceptions look at themselves through what they write
template <typename T> struct Exc { T e; Exc(); Exc(int a, const char* s); void read(istream& is) { e.read (is); } void write(ostream& os) const { e.write (os); } streamsize stream_size() const { return e.stream_size(); } };
#define EXC(T,DEF,ARG) template <> Exc<T>::Exc() : e DEF {} template <> Exc<T>::Exc(int a, const char* s) : e ARG { (void)a; (void)s; }
EXC(ustl::exception,(),())
EXC(ustl::bad_alloc,(1),(a))
EXC(error_message,("other"),(s))
EXC(system_error,("other"),(a,system_category(),s))
EXC(file_exception,("other","none"),((errno = a, s),"/some/path"))
EXC(stream_bounds_exception,("other","N4ustl6stringE",1,2,3),((errno = a, s),"N4ustl6stringE",a,a*2,a*3))
template <typename T> void mk(Exc<T>& v, Rng& r, int) { static const char* const S [] = { "", "read", "a longer operation name", "x" }; bt_config(r.skewed(10),r.below(9)); v.~Exc(); new (&v) Exc<T> (r.below(140),S[r.below(4)]); }
template <typename T> void dump(Bytes& b, const Exc<T>& v)
{
    static u8 buf [1<<15] __attribute__((aligned(16)));
    const size_t n = v.e.stream_size(); if (n > sizeof(buf)) return;	// may have become large through damage
    ostream os (buf,sizeof(buf)); v.e.write (os);
    if (os.pos() > sizeof(buf)) bad("wrong-size","an exception read back writes outside the buffer");
    b.append(buf,os.pos());
}
#define TYPES(X) X(0,u8) X(1,u16) X(2,u32) X(3,u64) X(4,int) X(5,wchar_t) X(6,double) X(7,bool) X(8,string) X(9,memblock) X(10,Link) X(11,vector<u8>) X(12,vector<u16>) X(13,vector<u64>) X(14,vector<double>) \
    X(15,vector<string>) X(16,vector<vector<u16> >) X(17,vec_pair) X(18,map8s) X(19,map64s) X(20,set<string>) X(21,multiset<u32>) X(22,multi_su) X(23,list<string>) X(24,tuple3) X(25,tuple2s) X(26,array3) X(27,array2s) X(28,bitset<70>) \
    X(29,pair_s64) X(30,chrono::milliseconds) X(31,tpoint) X(32,pair_u8) X(33,Exc<ustl::exception>) X(34,Exc<ustl::bad_alloc>) X(35,Exc<error_message>) X(36,Exc<system_error>) X(37,Exc<file_exception>) X(38,Exc<stream_bounds_exception>) X(39,tuple4v) X(40,vec_pair16) X(41,vec_vec_s) X(42,float) X(43,vec_bits) X(44,short) X(45,map_s_vec) X(46,vec_tuple) \
    X(47,matrix23) X(48,Long4) X(49,Gaps) X(50,Orders) X(51,vector<bool>) X(52,list<double>) X(53,set<u8>) X(54,pair_d8) X(55,map_map) X(56,tuple2p) X(57,arr_bits) X(58,vector<int>) X(59,vec_list) X(60,map_u16_mem) X(61,vector<short>) X(62,list<u64>) X(63,pair_8v64)
typedef vector<pair<u8,string> > vec_pair; typedef map<u8,string> map8s; typedef map<u64,string> map64s; typedef multimap<string,u32> multi_su; typedef tuple<3,u16> tuple3; typedef tuple<2,string> tuple2s; typedef array<u32,3> array3; typedef array<string,2> array2s;
typedef pair<string,u64> pair_s64; typedef pair<u8,u8> pair_u8; typedef tuple<4,vector<u8> > tuple4v; typedef vector<pair<u16,u32> > vec_pair16; typedef vector<vector<string> > vec_vec_s; typedef vector<bitset<40> > vec_bits; typedef map<string,vector<u16> > map_s_vec; typedef vector<tuple<3,u8> > vec_tuple;
typedef matrix<2,3,u16> matrix23; typedef pair<double,u8> pair_d8; typedef map<u8,map<u8,string> > map_map; typedef tuple<2,pair<u8,u16> > tuple2p; typedef array<bitset<9>,3> arr_bits; typedef vector<list<u8> > vec_list; typedef map<u16,memblock> map_u16_mem; typedef pair<u8,vector<u64> > pair_8v64;
enum { N_TYPES = 64 };

enum { OP_put, OP_read_all, OP_confuse, OP_r_bytes, OP_r_some, OP_r_skip, OP_r_seek, OP_r_seekg, OP_r_align, OP_r_strz, OP_r_int, OP_r_unget, OP_r_utf8, OP_r_link, OP_r_iter, OP_r_clear, OP_r_walk, OP_r_form, N_OPS };
const char* const OPS [N_OPS] = { "put","read_all","confuse","r_bytes","r_some","r_skip","r_seek","r_seekg","r_align","r_strz","r_int","r_unget","r_utf8","r_link","r_iter","r_clear","r_walk","r_form" };
enum { C_MODE, C_SIZE, C_EXC, N_CFG };
const char* const CFG [N_CFG] = { "mode","size","exceptions" };
enum { P_INTACT, P_TRUNC, P_DAMAGED, P_THREW, P_FAILBIT, P_EOFBIT, P_ALLOC, P_MASKED, P_VALUE, P_EMPTY, P_NOTERM, N_PROBES };
const char* const PROBES [N_PROBES] = { "read_intact","truncated","damaged","exception","failbit","eofbit","allocation_failed","exceptions_off","damaged_bytes_read_as_a_value","read_from_empty_stream","no_terminator" };

void gen(Rng& r, Plan& p, bool faults)
{
    const int mode = (int)(p.cfg[C_MODE] = r.below(3));
    p.cfg[C_SIZE] = r.skewed(80); p.cfg[C_EXC] = r.below(4);
    if (mode == 2) {
	const int n = 3 + (int)r.skewed(60);
	for (int i = 0; i < n; ++i) {
	    const int op = OP_r_bytes + (int)r.below(N_OPS-OP_r_bytes);
	    const int64_t amount = r.chance(60) ? (int64_t)r.next() : r.chance(60) ? -(int64_t)r.skewed(100) : r.skewed(40);
	    Step& st = p.add(op,amount,r.below(3),r.below(8),r.below(1000));
	    if (faults && r.chance(80)) addfault(st,F_ALLOC,(int)r.skewed(3),1+(int)r.skewed(2),0);
	}
	return;
    }
    int64_t approx = 0;
    const int n = 1 + (int)r.skewed(8);
    for (int i = 0; i < n; ++i) { p.add(OP_put,r.below(N_TYPES),r.below(1000000),r.skewed(40),r.below(5)); approx += 40; }
    const int reads = 1 + (int)r.skewed(12);
    for (int i = 0; i < reads; ++i) {
	Step& st = p.add(r.chance(750) ? OP_read_all : OP_confuse,r.below(4),r.below(2),r.below(1000),r.below(2));
	if (!faults) continue;
	if (r.chance(450)) addfault(st,F_SHORT,0,1,r.chance(300) ? r.skewed(12) : r.skewed(approx*2));
	if (r.chance(500)) { const int k = 1+(int)r.skewed(2); for (int q = 0; q < k; ++q) addfault(st,F_FLIP,(int)r.skewed(approx*2),r.chance(700) ? 1 : 1+(int)r.skewed(30),r.chance(600) ? 1ll<<r.below(8) : r.chance(300) ? 255 : 256+(int64_t)r.below(3)); }
	if (r.chance(150)) addfault(st,F_ALLOC,(int)r.skewed(10),1+(int)r.skewed(3),0);
    }
}

struct Item { int type; u64 seed; int size, grain; size_t begin, end; Bytes dump; };
Item* g_items; int g_n;
u8* g_buf; size_t g_len; enum { BUFMAX = 1<<19 };
const ios_base::iostate EXC_MASKS [] = { ios_base::allbadbits, ios_base::goodbit, ios_base::eofbit, ios_base::failbit };

template <typename T> struct Hold { char m [sizeof(T)] __attribute__((aligned(16))); T& operator*() { return *(T*)m; } };
template <typename T> void told_size(const T& v, size_t n) { const size_t told = stream_size_of (v); if (told != n) bad("wrong-size",__PRETTY_FUNCTION__,told,n); }
// rounding up to the alignment of its parts depends on the position, which stream_size does not know: never too little
void told_enough(size_t told, size_t n) { if (told < n || told > n+7) bad("wrong-size","stream_size of a value with parts aligned differently",told,n); }
void told_size(const map64s& v, size_t n) { told_enough(stream_size_of (v),n); }
void told_size(const pair_8v64& v, size_t n) { told_enough(stream_size_of (v),n); }
void told_size(const Gaps&, size_t) {}
template <typename T> void look(const T&, const u8*) {}
void look(const Orders& v, const u8* p) { check_orders(p,v); }
template <typename T> void put(Item& it)
{
    Rng r (it.seed); static Hold<T> h; new (h.m) T();
    mk(*h,r,it.size); it.dump.clear(); dump(it.dump,*h);
    ostream os (g_buf,BUFMAX); os.seek (g_len);
    os.align (1u << it.grain); it.begin = os.pos(); os << *h; it.end = os.pos(); os.align (8);	// everything starts aligned
    if (it.grain >= 3) { told_size(*h,it.end-it.begin); look(*h,g_buf+it.begin); }
    if (os.pos() < it.begin) bad("wrong-size","writing moved backwards");
    g_len = os.pos(); it.end = g_len; (*h).~T();
}
template <typename T> void ready(T&) {}
void ready(Link& v) { v.l.link (v.buf,64); }
template <typename T> void get(istream& is, const Item* it, bool prefill, Caught& c, Bytes& d, int grain)
{
    static Hold<T> h; { HxScope hx; bt_config(2,0); new (h.m) T(); if (prefill) { Rng r (99); mk(*h,r,20); ready(*h); } }
    TRY(c, is.align (1u << grain); is >> *h; is.align (8));
    { HxScope hx; d.clear(); dump(d,*h); }
    LIB((*h).~T());
}

void run_read(const Step& st, bool confuse)
{
    // what is left of the stored bytes
    Bytes b; b.setn(g_len); if (g_len) memcpy(b.data(),g_buf,g_len);
    size_t good = g_len; bool flipped = false;
    Fault f;
    for (int q = 0; q < st.nf; ++q) {
	f = st.f[q];
	if (f.kind == F_FLIP) {
	    for (int k = 0; k < f.cnt && (size_t)(f.idx+k) < b.size(); ++k) {
		u8& x = b[f.idx+k]; const u8 was = x;
		if (f.arg < 256) x ^= (u8)f.arg; else x = f.arg == 256 ? 0 : f.arg == 257 ? 0xFF : (u8)(x*7+k+1);
		if (x != was) { flipped = true; good = hmin(good,(size_t)(f.idx+k)); fired(F_FLIP); }
	    }
	}
    }
    size_t cut = g_len;
    for (int q = 0; q < st.nf; ++q) if (st.f[q].kind == F_SHORT && (size_t)st.f[q].arg < cut) { cut = st.f[q].arg; fired(F_SHORT); }
    b.setn(cut); const bool trunc = cut < g_len; good = hmin(good,cut);
    if (trunc) probe(P_TRUNC); if (flipped) probe(P_DAMAGED);
    void* m = arena_place(cut,b.data()); arena_protect_ro(m);
    const ios_base::iostate mask = EXC_MASKS[(u64)st.a[0] % 4]; if (mask != ios_base::allbadbits) probe(P_MASKED);
    const bool prefill = st.a[1];
    Hold<istream> hs; LIB(new (hs.m) istream (m,cut); (*hs).exceptions (mask));
    istream& is = *hs; bool trouble = false, failed = false;
    if (!cut) probe(P_EMPTY);
    arena_reset_peak(); const size_t before = arena_live_bytes();
    for (int k = 0; k < g_n && !(trouble && k > 30); ++k) {
	const Item& it = g_items[k];
	const int type = confuse ? (int)((it.type + st.a[2]) % N_TYPES) : it.type;
	Caught c; Bytes d; c.kind = TH_NONE; static char w [40]; snprintf(w,40,"value %d type %d",k,type); what = w;
	const size_t posb = is.pos();
	switch (type) {
	    #define X(n,T) case n: get<T>(is,&it,prefill,c,d,it.grain); break;
	    TYPES(X)
	    #undef X
	}
	if (is.pos() > is.size()) { bad("bad-position","the stream stands outside its data",is.pos(),is.size()); return; }
	if (c.kind) probe(P_THREW); if (is.rdstate() & ios_base::failbit) probe(P_FAILBIT); if (is.rdstate() & ios_base::eofbit) probe(P_EOFBIT);
	if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed && !flipped && !confuse && !trouble) bad("spurious-throw","threw bad_alloc although no allocation failed"); trouble = true; }
	if (c.kind == TH_OTHER && !flipped && !confuse && !trouble) bad("wrong-exception","threw an unexpected exception");
	if (c.kind == TH_BOUNDS && !(is.rdstate() & mask)) bad("wrong-state","threw although the state does not call for it",is.rdstate(),mask);
	if (c.kind == TH_NONE && !failed && (is.rdstate() & mask)) bad("wrong-state","state set without the exception asked for",is.rdstate(),mask);
	const bool ok = !c.kind && (failed || is.rdstate() == ios_base::goodbit);
	const bool intact = it.end <= good && !confuse && !trouble;
	if (intact && !sim.allocfailed) {
	    probe(P_INTACT);
	    if (c.kind) bad("read-failed","reading intact bytes threw",c.kind,TH_NONE);
	    else if (!ok) bad("read-failed","reading intact bytes set the failure state",is.rdstate());
	    else if (is.pos() != it.end) bad("wrong-position","reading stopped elsewhere than writing",is.pos(),it.end);
	    else if (d != it.dump) bad("wrong-value","the value read differs from the one written",d.size(),it.dump.size());
	} else if (!trouble && !confuse && trunc && !flipped && it.end > cut && !c.kind && !is.fail()) bad("unreported","a value whose bytes are missing was read without complaint",is.pos(),it.end);
	if (flipped && ok && !intact) probe(P_VALUE);
	if (!intact) trouble = true;
	if (is.fail()) failed = true;
	if (arena_peak_bytes() > before + 256*(size_t)cut + 400000) { bad("memory","memory use out of proportion to the bytes stored",arena_peak_bytes()-before,cut); return; }
	(void)posb;
    }
    LIB((*hs).~istream());
}

void exec(const Plan& p)
{
    static Item items [64]; g_items = items; g_n = 0; g_len = 0; g_huge = 0; bt_config(2,0);
    if (!g_buf) g_buf = (u8*)(((uintptr_t)hx_alloc(BUFMAX+16)+15) & ~(uintptr_t)15);
    // raw stream with a model of the position
    const size_t rn = p.cfg[C_SIZE]; Bytes raw; patfill(raw,7,rn); for (size_t i = 0; i < rn; ++i) if (raw[i] < 20) raw[i] = 0;
    void* rm = arena_place(rn,raw.data()); arena_protect_ro(rm);
    static Hold<istream> hr; LIB(new (hr.m) istream (rm,rn); (*hr).exceptions (EXC_MASKS[p.cfg[C_EXC] % 4])); istream& is = *hr;
    size_t pos = 0, size = rn; const u8* base = raw.data();
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op];
	Caught c; c.kind = TH_NONE;
	if (st.op == OP_put) {
	    if (g_n >= 64 || g_len > BUFMAX/2) continue;
	    Item& it = items[g_n]; it.type = (u64)st.a[0] % N_TYPES; it.seed = st.a[1]; it.size = (int)st.a[2]; it.grain = (int)(st.a[3] % 5);
	    switch (it.type) {
		#define X(n,T) case n: put<T>(it); break;
		TYPES(X)
		#undef X
	    }
	    ++g_n; continue;
	}
	if (st.op == OP_read_all || st.op == OP_confuse) { run_read(st,st.op == OP_confuse); continue; }
	// raw operations: done entirely, or reported and not done at all
	bool fits = true, reports = true; size_t to = pos; const u64 amt = (u64)st.a[0]; const size_t rem = size-pos;
	is.clear();
	if (!size) probe(P_EMPTY);
	Bytes wantb; bool cmp = false; static u8 rb [1<<12]; size_t got = 0; static Hold<string> hs; bool isstr = false;
	switch (st.op) {
	    case OP_r_bytes: { fits = amt <= rem; if (fits) to = pos+amt; void* d = arena_place(fits ? amt : hmin<u64>(amt,64),0); TRY(c, is.read (d,amt)); if (!c.kind && fits) { got = amt; if (memcmp(d,base+pos,amt)) bad("wrong-value","bytes read"); } break; }
	    case OP_r_some: { const size_t n = hmin<u64>(amt,rem); fits = amt <= rem; to = pos+n; void* d = arena_place(n,0); TRY(c, got = is.readsome (d,amt)); if (!c.kind && got != n) bad("wrong-count","bytes delivered by readsome",got,n); if (!c.kind && memcmp(d,base+pos,n)) bad("wrong-value","bytes read"); if (c.kind) to = pos; if (!fits && !c.kind) reports = false; break; }
	    case OP_r_skip: fits = amt <= rem || pos+amt <= size; if (fits) to = pos+amt; TRY(c, is.skip (amt)); break;
	    case OP_r_seek: fits = amt <= size; if (fits) to = amt; TRY(c, is.seek (amt)); break;
	    case OP_r_seekg: { const int64_t o = st.a[0]; const u64 t = st.a[1] == 0 ? (u64)o : st.a[1] == 1 ? pos+(u64)o : size-(u64)o; fits = t <= size; if (fits) to = t; TRY(c, is.seekg (o,st.a[1] == 0 ? ios_base::beg : st.a[1] == 1 ? ios_base::cur : ios_base::end)); break; }
	    case OP_r_align: { const size_t g = 1u << ((u64)st.a[2] % 5), t = (pos+g-1)/g*g; fits = t <= size; if (fits) to = t; TRY(c, is.align (g)); if (fits && !c.kind && !is.aligned (g)) bad("wrong-position","not aligned after align"); break; }
	    case OP_r_strz: {
		const u8* z = rem ? (const u8*)memchr(base+pos,0,rem) : 0; fits = z; if (z) to = z-base+1; else probe(P_NOTERM);
		LIB(new (hs.m) string; try { if (st.a[3] & 1) *hs = "previous value"; } catch (...) {}); isstr = true;
		TRY(c, is.read_strz (*hs)); if (!c.kind && fits) { wantb.append(base+pos,z-base-pos); cmp = true; } break; }
	    case OP_r_int: { const int w = st.a[2] % 4; u64 v = 0x55; fits = rem >= (1u<<w); if (fits) to = pos+(1u<<w); u64 wantv = 0x55; if (fits) { wantv = 0; memcpy(&wantv,base+pos,1u<<w); }
		u8 v8 = 0x55; u16 v16 = 0x55; u32 v32 = 0x55; unsigned long v64 = 0x55;
		TRY(c, switch (w) { case 0: is >> v8; v = v8; break; case 1: is >> v16; v = v16; break; case 2: is >> v32; v = v32; break; default: is >> v64; v = v64; });
		if (!c.kind && v != wantv) bad("wrong-value","integer read",v,wantv); break; }
	    case OP_r_unget: fits = pos > 0; if (fits) to = pos-1; TRY(c, is.ungetc()); break;
	    case OP_r_utf8: {	// garbage in, some characters out, but never outside
		const int n = (int)(amt % 20); wchar_t w = 0; TRY(c, { auto u = utf8in (is); for (int k = 0; k < n; ++k) { w ^= *u; ++u; } });
		if (is.pos() > is.size() || is.pos() < pos) bad("bad-position","after reading UTF-8",is.pos(),pos); pos = is.pos(); if (c.kind && c.kind != TH_BOUNDS) bad("wrong-exception","reading UTF-8",c.kind); continue; }
	    case OP_r_iter: {	// iterate over the rest
		Vec<u16> v; TRY(c, { istream_iterator<u16> i (is), e; for (int k = 0; k < 200 && !(i == e); ++k, ++i) { HxScope hx; v.push(*i); } });
		for (size_t k = 0; k < v.size(); ++k) { u16 x; if (pos+2*k+2 > size) { bad("wrong-count","more values than bytes",v.size(),rem/2); break; } memcpy(&x,base+pos+2*k,2); if (x != v[k]) { bad("wrong-value","iterated value",v[k],x); break; } }
		if (!c.kind && v.size() != rem/2) bad("wrong-count","values iterated",v.size(),rem/2);
		if (is.pos() != pos + rem/2*2) bad("wrong-position","after iterating",is.pos(),pos+rem/2*2);
		pos = is.pos(); continue; }
	    case OP_r_link: {
		size = st.a[1] == 0 ? rn : hmin<u64>((u64)st.a[3],rn); size_t keep = pos;
		if (st.a[1] == 2) TRY(c, is.link (rm,size)); else if (st.a[1] == 1) TRY(c, istream o (rm,size); is.swap (o)); else TRY(c, is.relink (rm,size)); (void)keep; pos = 0;
		if (is.pos() || is.size() != size) bad("wrong-position","after linking to other data",is.pos(),0); continue; }
	    case OP_r_walk: {	// back and forth; the stream stands behind the value the iterator holds
		const size_t nv = rem/2; if (!nv) continue;
		Rng q (st.a[3]*7+(u64)st.a[0]); size_t k = 0, k2 = q.below((uint32_t)nv); const u8* vb = base+pos; const size_t at = pos;
		#define VAL(i) ((u16)(vb[2*(i)] | vb[2*(i)+1]<<8))
		LIB(istream o (rm,size); o.exceptions (EXC_MASKS[p.cfg[C_EXC] % 4]); try { o.seek (pos+2*k2); istream_iterator<u16> i (is), j (o), e; int n = 1+(int)q.below(12);
		for (;;) {
		    u16 got2 = *i; { HxScope hx; if (got2 != VAL(k)) bad("wrong-value","value at the iterator",got2,VAL(k)); if (is.pos() != at+2*k+2) bad("wrong-position","of the stream under the iterator",is.pos(),at+2*k+2); if (*j != VAL(k2)) bad("wrong-value","value at the other iterator",*j,VAL(k2));
			if ((i == j) != (k == k2) || (i < j) != (k < k2) || (j < i) != (k2 < k) || i == e || !(i < e) || e < i) bad("wrong-value","comparison of iterators",k,k2); if (i-j != (ptrdiff_t)(k-k2) || j-i != (ptrdiff_t)(k2-k)) bad("wrong-value","difference of iterators",i-j,(ptrdiff_t)(k-k2)); }
		    if (!n--) break;
		    switch (q.below(7)) {
			case 0: if (k+1 < nv) { ++i; ++k; } break;
			case 1: if (k+1 < nv) { if (*(i++) != VAL(k)) bad("wrong-value","postfix ++"); ++k; } break;
			case 2: if (k) { --i; --k; } break;
			case 3: if (k) { if (*(i--) != VAL(k)) bad("wrong-value","postfix --"); --k; } break;
			case 4: { const size_t d = q.below((uint32_t)(nv-k)); i += d; k += d; break; }
			case 5: { const size_t d = q.below((uint32_t)k+1); i -= d; k -= d; break; }
			default: { const size_t d = q.below((uint32_t)k+1); i = i - d; k -= d; break; }
		    }
		} } catch (...) { bad("read-failed","stepping over intact bytes threw"); });
		#undef VAL
		pos = is.pos(); continue; }
	    case OP_r_form: {	// forms that lead to the operations above
		const int form = (int)((u64)st.a[2]*8+(u64)st.a[1]) % 13; static u8 tmp [256]; memset(tmp,0xC3,sizeof(tmp)); const u8* left = base+pos; const size_t n = hmin<u64>(amt,200); size_t wrote = 0;
		switch (form) {
		    case 0: case 1: { fits = n <= rem; if (fits) to = pos+n; TRY(c, if (form) { memlink l (tmp,n); is.read (l); } else { array<u8,200> l; memcpy(l.begin(),tmp,200); memlink m (l.begin(),n); is.read (m); memcpy(tmp,l.begin(),n); }); if (!c.kind && fits && n && memcmp(tmp,left,n)) bad("wrong-value","bytes read into a linked block"); break; }
		    case 2: case 3: { TRY(c, ostream o (tmp,hmin(rem+st.a[1]%2,sizeof(tmp))); if (form == 2) is.write (o); else o << is; wrote = o.pos()); if (!c.kind && (wrote != rem || memcmp(tmp,left,rem))) bad("wrong-value","unread bytes written",wrote,rem); break; }
		    case 4: { TRY(c, string s; { ostringstream o; is.text_write (o); o.flush(); s = o.str(); } wrote = s.size(); memcpy(tmp,s.begin(),hmin(wrote,sizeof(tmp)))); if (!c.kind && (wrote != rem || memcmp(tmp,left,rem))) bad("wrong-value","unread text written",wrote,rem); break; }
		    case 5: { TRY(c, ostream o (tmp,sizeof(tmp)); o.skip (n); istream i (o); wrote = i.size(); if (i.begin() != (const char*)tmp || i.pos() || i.remaining() != n || i.stream_size() != n) bad("wrong-value","a stream over written bytes",i.size(),n)); break; }
		    case 6: { fits = n <= size; if (fits) to = n; TRY(c, is.iseek (is.begin()+n)); break; }
		    case 7: if (is.tellg() != (off_t)pos || is.ipos() != is.begin()+pos || is.stream_size() != rem || is.end() != is.begin()+size || is.align_size (8) != (8-pos%8)%8 || is.aligned (8) != !(pos%8)) bad("wrong-position","told",is.tellg(),pos); break;
		    case 8: case 9: case 10: case 11: { const size_t osz = is.size(), opos = is.pos(); size = hmin<u64>(n,rn); to = form == 11 ? size/2 : 0; TRY(c, cmemlink l (rm,size); if (form == 8) is.relink (l); else if (form == 9) is.link (l); else if (form == 10) is.link (rm,(const char*)rm+size); else { istream o (l); o.seek (to); const bool un = n & 1; if (un) { is.unlink(); if (is.size() || is.pos() || is.remaining()) bad("wrong-position","after unlinking",is.pos()); } if (n & 2) ::ustl::swap (is,o); else is.swap (o); if (o.size() != (un ? 0 : osz) || o.pos() != (un ? 0 : opos)) bad("wrong-position","the other stream swapped",o.pos(),opos); }); break; }
		    default: { size_t f2 = 0; to = size; TRY(c, ostream o (tmp,sizeof(tmp)); o.read (is); f2 = o.pos()); if (!c.kind && (f2 != rem || memcmp(tmp,left,rem))) bad("wrong-value","bytes moved to another stream",f2,rem); break; }
		}
		break; }
	    case OP_r_clear: TRY(c, is.exceptions (EXC_MASKS[(u64)st.a[2] % 4])); continue;
	}
	if (isstr) { HxScope hx; if (cmp && !sim.allocfailed && ((*hs).size() != wantb.size() || memcmp((*hs).begin(),wantb.data(),wantb.size()) || (*hs).c_str()[wantb.size()])) bad("wrong-value","string read",(*hs).size(),wantb.size()); LIB((*hs).~string()); }
	if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed"); if (is.pos() != pos && is.pos() != to) bad("wrong-position","after a failed allocation",is.pos(),pos); pos = is.pos(); continue; }
	if (c.kind == TH_BOUNDS) probe(P_THREW);
	if (fits) {
	    if (c.kind) bad("read-failed","the operation fits but threw",c.kind);
	    else if (is.rdstate()) bad("read-failed","the operation fits but set the failure state",is.rdstate());
	} else if (reports) {
	    const bool mustThrow = is.exceptions() & (ios_base::failbit | (rem ? 0 : ios_base::eofbit)); (void)mustThrow;
	    if (c.kind && c.kind != TH_BOUNDS) bad("wrong-exception","running past the end",c.kind);
	    if (!is.fail()) bad("unreported","running past the end did not set failbit");
	    if ((c.kind == TH_BOUNDS) != !!(is.rdstate() & is.exceptions())) bad("wrong-state","exception and state disagree",c.kind,is.rdstate());
	}
	if (is.pos() != to) bad("wrong-position","after the operation",is.pos(),to);
	if (is.remaining() != size-to) bad("wrong-count","remaining()",is.remaining(),size-to);
	pos = to;
    }
    sim.step = 0; what = "end";
    LIB((*hr).~istream());
    arena_check_leaks("D01","after every value is gone");
}
const Scenario SC = { "ser", "D01", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&SC);
}
