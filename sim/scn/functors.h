// Function objects, adaptors and small arithmetic helpers: each computes what its name states, on values chosen by the seed.
#pragma once
struct FRec { int a, b; mutable int seen; string s; int geta(void) const { return a; } int bump(void) { return a += 2; } bool odd(void) const { return a & 1; } int add(int v) { b += v; return b; } int has(int v) const { seen += v; return a+v; } };
inline int f_half(int v) { return v/2-1; }
inline int f_mix(int a, int b) { return a*5-b*3; }
inline bool f_neg(int a) { return a < 0; }
// Keeps values from being folded at compile time.
template <typename T> T opaque(T v) { asm volatile ("":"+r"(v)); return v; }
#define SAME(what2,got,want) do { const long long g_ = (long long)(got), w_ = (long long)(want); if (g_ != w_) bad("wrong-result",what2,g_,w_); } while (0)

template <typename T> void functors_on(T x, T y)
{
    const bool xt = x != 0, yt = y != 0;
    SAME("plus",plus<T>()(x,y),(T)(x+y)); SAME("minus",minus<T>()(x,y),(T)(x-y)); SAME("multiplies",multiplies<T>()(x,y),(T)(x*y));
    if (yt) { SAME("divides",divides<T>()(x,y),(T)(x/y)); SAME("modulus",modulus<T>()(x,y),(T)(x%y)); }
    SAME("logical_and",logical_and<T>()(x,y),xt && yt); SAME("logical_or",logical_or<T>()(x,y),xt || yt); SAME("logical_not",logical_not<T>()(x),!xt);
    SAME("bitwise_or",bitwise_or<T>()(x,y),(T)(x|y)); SAME("bitwise_and",bitwise_and<T>()(x,y),(T)(x&y)); SAME("bitwise_xor",bitwise_xor<T>()(x,y),(T)(x^y)); SAME("bitwise_not",bitwise_not<T>()(x),(T)~x);
    SAME("negate",negate<T>()(x),(T)-x); SAME("identity",identity<T>()(x),x);
    SAME("equal_to",equal_to<T>()(x,y),x == y); SAME("not_equal_to",not_equal_to<T>()(x,y),x != y); SAME("greater",greater<T>()(x,y),x > y); SAME("less",less<T>()(x,y),x < y);
    SAME("greater_equal",greater_equal<T>()(x,y),x >= y); SAME("less_equal",less_equal<T>()(x,y),x <= y); SAME("compare",ustl::compare<T>()(x,y),x < y ? -1 : x > y);
    SAME("project1st",(project1st<T,char>()(x,'c')),x); SAME("project2nd",(project2nd<char,T>()('c',y)),y);
    SAME("bind1st",bind1st(minus<T>(),x)(y),(T)(x-y)); SAME("bind2nd",bind2nd(minus<T>(),x)(y),(T)(y-x));
    SAME("compose1",compose1(negate<T>(),bind2nd(plus<T>(),y))(x),(T)-(T)(x+y));
    SAME("compose2",compose2(minus<T>(),bind2nd(plus<T>(),y),bind1st(bitwise_and<T>(),y))(x),(T)((T)(x+y)-(T)(x&y)));
    SAME("unary_negator",unary_negator(bind2nd(less<T>(),y))(x),!(x < y));
    SAME("min",ustl::min(x,y),x < y ? x : y); SAME("max",ustl::max(x,y),x < y ? y : x);
    const pair<T,T> p (x,y); SAME("select1st",(select1st<pair<T,T> >()(p)),x); SAME("select2nd",(select2nd<pair<T,T> >()(p)),y);
    pair<T,T> q (p); select1st<pair<T,T> >()(q) = y; select2nd<pair<T,T> >()(q) = x; SAME("element selected",q.first,y); SAME("element selected",q.second,x);
    pair<long long,T> l (p); l.swap (*&l); SAME("pair converted",l.first,(long long)x); pair<T,T> m; m = l; SAME("pair assigned",m.first,x); SAME("pair assigned",m.second,y); m.swap (q); SAME("pair swapped",m.first,y); SAME("pair swapped",q.second,y);
    ::ustl::swap (m,q); SAME("pair swapped back",m.second,y); SAME("pair equal",m == q,x == y); SAME("pair less",m < q,x < y); SAME("pair less",(make_pair(x,y) < make_pair(x,x)),y < x); SAME("pair not equal",m != q,x != y); SAME("pair greater or equal",m >= q,x >= y);
    { pair<T,T> a (x,x), b (y,x), n; n = pair<long long,T>((long long)y,x); SAME("pair moved from another kind",n.first,y); SAME("pair moved from another kind",n.second,x); pair<T,T> z (pair<long long,T>((long long)x,y)); SAME("pair made from another kind",z.first,x); SAME("pair made from another kind",z.second,y); a.swap (move(b)); SAME("pair swapped with a passing one",a.first,y); SAME("pair swapped with a passing one",a.second,x); a = move(z); SAME("pair moved",a.first,x); SAME("pair moved",a.second,y); }
    T u = x, v = y; ::ustl::swap (u,v); SAME("swap",u,y); SAME("swap",v,x); iter_swap (&u,&v); SAME("iter_swap",u,x); SAME("iter_swap",v,y);
    SAME("exchange",::ustl::exchange (u,y),x); SAME("exchanged",u,y);
}
inline void functors_run(uint64_t seed)
{
    Rng r (seed); const int sh = r.below(3)*16;
    const int64_t x = (int64_t)(r.next() >> 8) >> sh >> r.below(8), y = r.chance(200) ? x : r.chance(150) ? 0 : (int64_t)(r.next() >> 8) >> sh;
    switch (r.below(5)) {
	case 0: functors_on<int>((int)(x%30000)*(r.chance(500) ? 1 : -1),(int)(y%30000)*(r.chance(500) ? 1 : -1)); break;
	case 1: functors_on<unsigned>((unsigned)x,(unsigned)y); break;
	case 2: functors_on<uint64_t>(x,y); break;
	case 3: functors_on<uint8_t>(x,y); break;
	default: functors_on<long>((x%1000000007)*(r.chance(500) ? 1 : -1),(y%1000000007)*(r.chance(500) ? 1 : -1)); break;
    }
    // functions, members and pointers, through the algorithms that take them
    enum { MAXN = 24 }; static char mem [sizeof(FRec)*MAXN] __attribute__((aligned(16))); FRec* f = (FRec*)mem; const int n = (int)r.below(MAXN); FRec* ptr [MAXN]; const FRec* cptr [MAXN]; int v [MAXN], w [MAXN], m [MAXN];
    static const char* const T [] = { "a","b","text longer than it seems","" };
    for (int i = 0; i < n; ++i) { new (f+i) FRec; f[i].a = (int)r.below(9)-4; f[i].b = (int)r.below(1000); f[i].seen = 0; f[i].s = T[r.below(4)]; ptr[i] = f+i; cptr[i] = f+i; v[i] = (int)r.below(200)-100; }
    const int k = (int)r.below(9)-4; int want = 0, at = n, adj = n; const string key (T[r.below(4)]);
    transform (v,v+n,w,ptr_fun(f_half)); for (int i = 0; i < n; ++i) SAME("ptr_fun of one",w[i],f_half(v[i]));
    transform (v,v+n,w,m,ptr_fun(f_mix)); for (int i = 0; i < n; ++i) SAME("ptr_fun of two",m[i],f_mix(v[i],w[i]));
    for (int i = 0; i < n; ++i) want += !f_neg(v[i]); SAME("unary_negator",count_if (v,v+n,unary_negator(ptr_fun(f_neg))),want);
    want = 0; for (int i = 0; i < n; ++i) want += f_mix(k,v[i]) < 7; SAME("bound and composed",count_if (v,v+n,compose1(bind2nd(less<int>(),7),bind1st(ptr_fun(f_mix),k))),want);
    want = 0; for (int i = 0; i < n; ++i) want += f[i].a & 1; SAME("mem_fun_ref",count_if (f,f+n,mem_fun_ref(&FRec::odd)),want); SAME("mem_fun",count_if (cptr,cptr+n,mem_fun(&FRec::odd)),want);
    transform (cptr,cptr+n,w,mem_fun(&FRec::geta)); for (int i = 0; i < n; ++i) SAME("mem_fun of a const member",w[i],f[i].a);
    transform (ptr,ptr+n,m,mem_fun(&FRec::bump)); for (int i = 0; i < n; ++i) { SAME("mem_fun",m[i],w[i]+2); SAME("changed through mem_fun",f[i].a,w[i]+2); f[i].a -= 2; }
    transform (f,f+n,m,mem_fun_ref(&FRec::bump)); for (int i = 0; i < n; ++i) { SAME("mem_fun_ref",m[i],w[i]+2); f[i].a -= 2; }
    for (int i = n; i--;) if (f[i].a == k) at = i; SAME("mem_var_equal_to",find_if (f,f+n,mem_var_equal_to(&FRec::a,k))-f,at);
    at = n; for (int i = n; i--;) if (f[i].s == key) at = i; SAME("mem_var_equal_to of a string",find_if (f,f+n,mem_var_equal_to(&FRec::s,key))-f,at);
    at = n; for (int i = n; i--;) if (f[i].a < k) at = i; SAME("mem_var_less",find_if (f,f+n,mem_var_less(&FRec::a,k))-f,at);
    for (int i = n-1; i-- > 0;) if (f[i].a == f[i+1].a) adj = i; SAME("mem_var_equal_to of two",adjacent_find (f,f+n,mem_var_equal_to(&FRec::a))-f,adj);
    want = -1; for (int i = 0; i < n; ++i) if (want < 0 || f[i].b < f[want].b) want = i; if (n) SAME("mem_var_less of two",min_element (f,f+n,mem_var_less(&FRec::b))-f,want);
    want = 0; for (int i = 0; i < n; ++i) want += f[i].a > k; SAME("const_mem_var1",count_if (f,f+n,const_mem_var1(&FRec::a,bind2nd(greater<int>(),k))),want); SAME("mem_var1",count_if (f,f+n,mem_var1(&FRec::a,bind2nd(greater<int>(),k))),want);
    at = n; for (int i = n-1; i-- > 0;) if (f[i].a > f[i+1].a) at = i; SAME("mem_var2",adjacent_find (f,f+n,mem_var2(&FRec::a,greater<int>()))-f,at); SAME("const_mem_var2",adjacent_find (f,f+n,const_mem_var2(&FRec::a,greater<int>()))-f,at);
    if (n) { want = f->b; int sum = 0; for (int i = 0; i < n; ++i) { sum += v[i]; } for_each (v,v+n,mem_fun(f,&FRec::add)); SAME("mem_fun with an object",f->b,want+sum); transform (v,v+n,m,mem_fun((const FRec*)f,&FRec::has)); for (int i = 0; i < n; ++i) SAME("mem_fun with a const object",m[i],f->a+v[i]); SAME("calls made",f->seen,sum); }
    { const int* q [MAXN]; int* z [MAXN]; for (int i = 0; i < n; ++i) { q[i] = v+i; z[i] = v+i; } want = 0; for (int i = 0; i < n; ++i) want += v[i] < k; SAME("dereference of one",count_if (q,q+n,dereference(bind2nd(less<const int>(),k))),want); SAME("dereference of one",count_if (z,z+n,dereference(bind2nd(less<int>(),k))),want);
      stable_sort (q,q+n,dereference(less<const int>())); for (int i = 1; i < n; ++i) if (*q[i] < *q[i-1] || (*q[i] == *q[i-1] && q[i] < q[i-1])) bad("wrong-result","pointers sorted by what they point at",i); }
    for (int i = 0; i < n; ++i) f[i].~FRec();
}
inline void helpers_run(uint64_t seed)
{
    Rng r (seed); const unsigned sh = r.below(64); const uint64_t x = opaque(r.next() >> sh), y = opaque(r.chance(100) ? x : r.next() >> r.below(64));
    const uint32_t x4 = opaque((uint32_t)x); const int s = opaque((int)(x%2000000)-1000000), t = opaque((int)(y%3000)-1500);
    unsigned hb = 77; for (unsigned i = 0; i < 64; ++i) if (x>>i & 1) hb = i; SAME("FirstBit of 64",FirstBit (x,77),hb);
    hb = 78; for (unsigned i = 0; i < 32; ++i) if (x4>>i & 1) hb = i; SAME("FirstBit of 32",FirstBit (x4,78),hb);
    if (x4 > 1 && x4 <= 0x80000000u) { uint32_t p = 1; while (p < x4) p <<= 1; SAME("NextPow2",NextPow2 (x4),p); }
    const unsigned g = 1+(unsigned)(y%65); SAME("Align",Align ((size_t)x4,g),((size_t)x4+g-1)/g*g); SAME("AlignDown",AlignDown ((size_t)x4,g),(size_t)x4/g*g); SAME("Align",Align ((size_t)x4),((size_t)x4+7)/8*8);
    SAME("DivRU",DivRU (x4>>1,g),((uint64_t)(x4>>1)+g-1)/g); SAME("DivRU",DivRU (s,(int)g),s >= 0 ? (s+(int)g-1)/(int)g : -((-s+(int)g-1)/(int)g));
    const unsigned n4 = 1+(unsigned)(y%31), n8 = 1+(unsigned)(y%63), n2 = 1+(unsigned)(y%15), n1 = 1+(unsigned)(y%7); uint32_t l4 = x4; uint64_t l8 = x; uint16_t l2 = x4; uint8_t l1 = x4;
    for (unsigned i = 0; i < n4; ++i) l4 = l4<<1 | l4>>31; for (unsigned i = 0; i < n8; ++i) l8 = l8<<1 | l8>>63; for (unsigned i = 0; i < n2; ++i) l2 = (uint16_t)(l2<<1 | l2>>15); for (unsigned i = 0; i < n1; ++i) l1 = (uint8_t)(l1<<1 | l1>>7);
    SAME("Rol of 32",Rol (x4,n4),l4); SAME("Ror of 32",Ror (l4,n4),x4); SAME("Rol of 64",Rol (x,n8),l8); SAME("Ror of 64",Ror (l8,n8),x); SAME("Rol of 16",Rol ((uint16_t)x4,n2),l2); SAME("Ror of 16",Ror (l2,n2),(uint16_t)x4); SAME("Rol of 8",Rol ((uint8_t)x4,n1),l1); SAME("Ror of 8",Ror (l1,n1),(uint8_t)x4);
    uint64_t k8 = 0; uint32_t k4 = 0; uint16_t k2 = 0; pack_type ((uint8_t)x,k8); SAME("pack_type",k8,(x&255)*0x0101010101010101ull); pack_type ((uint16_t)x,k8); SAME("pack_type",k8,(x&65535)*0x0001000100010001ull); pack_type (x4,k8); SAME("pack_type",k8,((uint64_t)x4<<32)|x4);
    pack_type ((uint8_t)x,k4); SAME("pack_type",k4,(x&255)*0x01010101u); pack_type ((uint16_t)x,k4); SAME("pack_type",k4,(x&65535)*0x10001u); pack_type ((uint8_t)x,k2); SAME("pack_type",k2,(x&255)*0x101u);
    int q = opaque(r.chance(500) ? 0 : (int)x4); const bool was = !q; SAME("TestAndSet",TestAndSet (&q),was); SAME("set by TestAndSet",q,1);
    SAME("absv",absv (s),s < 0 ? -s : s); SAME("absv",absv (x4),x4); SAME("sign",sign (s),s < 0 ? -1 : s > 0); SAME("sign",sign (x4),x4 > 0); SAME("is_negative",is_negative (s),s < 0); SAME("is_negative",is_negative (x4),0);
    if (s && t) { long long a = s < 0 ? -s : s, b = t < 0 ? -t : t; const long long ab = a*b; while (b) { const long long c = a%b; a = b; b = c; } SAME("gcd",gcd (s,t),a); if (ab/a < 0x7fffffff) SAME("lcm",absv (lcm (s,t)),ab/a); }
    int arr [5] = { 1,2,3,4,5 }; SAME("VectorElement",VectorElement (arr,(size_t)g),arr[g < 4 ? g : 4]); SAME("VectorSize",VectorSize (arr),5); SAME("size_of_elements",size_of_elements (g,arr),g*sizeof(int)); SAME("addressof",addressof (arr[2]) == &arr[2],1);
    SAME("BitMask",BitMask(uint32_t,n4),(uint32_t)((1ull<<n4)-1)); SAME("BitMask",BitMask(uint16_t,n2),(uint16_t)((1u<<n2)-1)); SAME("BitMask",BitMask(uint64_t,n8),(1ull<<n8)-1);
    const void* cv = arr; void* vp = arr; SAME("advance of a void pointer",(const int*)advance (cv,(size_t)8)-arr,2); SAME("advance of a void pointer",(int*)advance (vp,(size_t)12)-arr,3); SAME("distance of void pointers",ustl::distance ((const void*)arr,(const void*)(arr+n1)),n1*sizeof(int)); SAME("distance of void pointers",abs_distance ((const void*)(arr+n1),(const void*)arr),n1*sizeof(int));
}
template <typename T> void limits_of(const char* nm, T lo, T hi, bool sgn, bool integral)
{
    typedef numeric_limits<T> L; const unsigned digits = sizeof(T)*8;	// number of bits, as documented
    if (L::min() != lo || L::max() != hi || L::lowest() != (integral ? lo : T(-hi)) || L::is_signed != sgn || L::is_integer != integral || !L::is_integral || !L::is_specialized || (integral && L::digits != (int)digits)) bad("wrong-result",nm,L::digits,digits);
    if (integral != !(L::infinity() > hi) || (L::quiet_NaN() != L::quiet_NaN()) == integral || (!integral && (T(T(1)+L::epsilon()) == T(1) || !(L::denorm_min() > T(0))))) bad("wrong-result",nm);
}
inline void limits_run(uint64_t seed)
{
    switch (seed % 16) {
	case 0: limits_of<int8_t>("limits of int8_t",-128,127,true,true); break;
	case 1: limits_of<uint8_t>("limits of uint8_t",0,255,false,true); break;
	case 2: limits_of<short>("limits of short",-32768,32767,true,true); break;
	case 3: limits_of<unsigned short>("limits of unsigned short",0,65535,false,true); break;
	case 4: limits_of<int>("limits of int",-__INT_MAX__-1,__INT_MAX__,true,true); break;
	case 5: limits_of<unsigned>("limits of unsigned",0,~0u,false,true); break;
	case 6: limits_of<long>("limits of long",-__LONG_MAX__-1,__LONG_MAX__,true,true); break;
	case 7: limits_of<unsigned long>("limits of unsigned long",0,~0ul,false,true); break;
	case 8: limits_of<long long>("limits of long long",-__LONG_LONG_MAX__-1,__LONG_LONG_MAX__,true,true); break;
	case 9: limits_of<unsigned long long>("limits of unsigned long long",0,~0ull,false,true); break;
	case 10: limits_of<float>("limits of float",__FLT_MIN__,__FLT_MAX__,true,false); SAME("epsilon of float",numeric_limits<float>::epsilon() == __FLT_EPSILON__,1); break;
	case 11: limits_of<double>("limits of double",__DBL_MIN__,__DBL_MAX__,true,false); SAME("epsilon of double",numeric_limits<double>::epsilon() == __DBL_EPSILON__,1); break;
	case 12: limits_of<long double>("limits of long double",__LDBL_MIN__,__LDBL_MAX__,true,false); break;
	case 13: { typedef tuple<3,short> T; const T lo (numeric_limits<T>::min()), hi (numeric_limits<T>::max()); for (int i = 0; i < 3; ++i) { SAME("limits of a tuple",lo[i],-32768); SAME("limits of a tuple",hi[i],32767); } break; }
	case 14: SAME("limits of a pointer",(uintptr_t)numeric_limits<char*>::max() == ~(uintptr_t)0 && !numeric_limits<char*>::min(),1); SAME("limits of bool",numeric_limits<bool>::max() && !numeric_limits<bool>::min(),1); break;
	default: SAME("limits of wchar_t",numeric_limits<wchar_t>::max() == __WCHAR_MAX__,1); SAME("limits of char",numeric_limits<char>::max() == 127 && numeric_limits<char>::min() == -128,1); break;
    }
}
#undef SAME
