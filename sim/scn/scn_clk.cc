// Clocks: what each now() returns against the simulated clocks, under steps, jumps and drift.
#include "common.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
using namespace ustl;
namespace ch = ustl::chrono;

namespace {
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("K01",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }
enum { K_sys, K_hr, K_steady, K_ms, K_us, K_ns, K_s, K_cs, K_third, N_CLK };
const char* const CLK [N_CLK] = { "system_clock","high_resolution_clock","steady_clock","system_clock_ms","system_clock_us","system_clock_ns","system_clock_hr<seconds>","system_clock_hr<1/100 s>","system_clock_hr<1/3 s>" };
const int64_t UNITS [N_CLK] = { 1, 1000000000, 1000000000, 1000, 1000000, 1000000000, 1, 100, 3 };	// per second
typedef ch::duration<intmax_t,ratio<1,100> > centi_t; typedef ch::duration<intmax_t,ratio<1,3> > third_t;
#define OPLIST(X) X(advance) X(wall_jump) X(wall_set) X(now) X(diff) X(add) X(compare) X(time_t) X(cast) X(cast_hr) X(incdec) X(scale) X(stream) X(text) X(point_cast) X(elapsed) X(mixed) X(forms) X(hr_forms) X(suffix) X(ratio)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_START, N_CFG };
const char* const CFG [N_CFG] = { "start" };
enum { P_BEFORE, P_BACK, P_JUMPIN, P_EDGE, P_LAST, P_NEG, P_STEADY, P_FAR, N_PROBES };
const char* const PROBES [N_PROBES] = { "before_the_epoch","wall_clock_stepped_back","jump_during_query","exactly_on_a_second","last_nanosecond_of_a_second","negative_duration","steady_across_a_jump","far_from_the_epoch" };
enum { NS = 4 };
const int64_t SEC = 1000000000, YEAR = 31557600*SEC;
int64_t pick(Rng& r) {		// an amount of time worth trying
    switch (r.below(9)) {
	case 0: return r.range(-2000,2000);
	case 1: return r.range(-3,3)*SEC + r.range(-2001,2001);
	case 2: return r.range(0,1000)*1000000;
	case 3: return r.range(-100,100)*SEC;
	case 4: return r.range(-90000,90000)*SEC + r.range(0,SEC-1);
	case 5: return r.range(-90,90)*YEAR + r.range(0,SEC-1);
	case 6: return r.range(0,SEC);
	case 7: return r.range(-1,1)*SEC/2;
	default: return (int64_t)(r.next() >> 4) % (100*YEAR) - 50*YEAR;
    }
}
void gen(Rng& r, Plan& p, bool faults)
{
    static const int64_t starts [] = { 1700000000, 0, -1, 2147483647, -2147483649ll, 4294967295ll, 1, -86400*365ll*70 };
    p.cfg[C_START] = starts[r.below(8)]*SEC + (r.chance(500) ? r.range(0,SEC-1) : r.range(-3000,3000));
    const int n = 3 + (int)r.skewed(80), c1 = (int)r.below(N_CLK), c2 = r.chance(300) ? (int)K_steady : (int)r.below(N_CLK);
    for (int i = 0; i < n; ++i) {
	const int op = r.chance(300) ? (int)OP_now : r.chance(250) ? (int)r.below(3) : (int)r.below(N_OPS);
	Step& st = p.add(op,r.chance(100) ? r.below(N_CLK) : r.chance(500) ? c1 : c2,r.below(NS),r.below(NS),pick(r),r.range(-50,50));
	if (faults && r.chance(200)) addfault(st,F_CLOCK,(int)r.skewed(2),1,pick(r));
    }
}
typedef __int128 big;
int64_t flr(big a, big b) { big q = a/b; return (int64_t)(q - (a % b != 0 && (a < 0) != (b < 0))); }
int64_t inunits(int64_t ns, int64_t per) { return flr((big)ns*per,SEC); }

// Model of one clock's readings
template <typename C> int64_t cnt(const typename C::time_point& t) { return (int64_t)t.time_since_epoch().count(); }
template <typename D> int64_t dcnt(const D& d) { return (int64_t)d.count(); }
struct Val { bool set; int64_t v; int64_t mono; };

template <typename C> struct Clock {
    typename C::time_point t [NS]; Val m [NS];
    Clock() { for (int i = 0; i < NS; ++i) { m[i].set = false; } }
    void op(const Step& st, int k, int64_t& laststeady)
    {
	const int i = st.a[1], j = st.a[2]; const int64_t arg = st.a[3]; const int small = (int)st.a[4];
	typedef typename C::duration D; typedef typename C::time_point TP;
	const int64_t per = UNITS[k];
	if (st.op != OP_now && (!m[i].set || !m[j].set)) return;
	Caught c; c.kind = TH_NONE;
	switch (st.op) {
	    case OP_now: {
		const int64_t r0 = g_realns, m0 = g_monons; TRY(c, t[i] = C::now()); const int64_t v = cnt<C>(t[i]);
		bool ok = inunits(k == K_steady ? m0 : r0,per) == v; 	// any instant during the call will do
		for (int q = 0; q < g_nclk; ++q) ok |= inunits(k == K_steady ? g_clkmono[q] : g_clkreal[q],per) == v;
		const int64_t nowns = k == K_steady ? g_monons : g_realns;
		if (!ok) bad("wrong-reading",CLK[k],v,inunits(nowns,per));
		if (k == K_steady) { if (v < laststeady) bad("went-backwards",CLK[k],v,laststeady); laststeady = v; }
		m[i].set = true; m[i].v = v; m[i].mono = g_monons;
		if (g_realns < 0) probe(P_BEFORE); if (g_realns % SEC == 0) probe(P_EDGE); if ((g_realns+1) % SEC == 0) probe(P_LAST); if (g_realns > 100*YEAR || g_realns < -100*YEAR) probe(P_FAR);
		sim_mix((uint64_t)v); break; }
	    case OP_diff: { D d; TRY(c, d = t[i] - t[j]); if (dcnt(d) != m[i].v - m[j].v) bad("wrong-difference",CLK[k],dcnt(d),m[i].v-m[j].v); if (m[i].v < m[j].v) probe(P_NEG);
		TP b; TRY(c, b = t[j] + d); if (cnt<C>(b) != m[i].v || !(b == t[i])) bad("wrong-sum",CLK[k],cnt<C>(b),m[i].v);
		TRY(c, b = t[i] - d); if (cnt<C>(b) != m[j].v || !(b == t[j])) bad("wrong-sum",CLK[k],cnt<C>(b),m[j].v);
		TRY(c, b = t[j]; b += d; b -= d; b += d); if (!(b == t[i])) bad("wrong-sum",CLK[k],cnt<C>(b),m[i].v);
		D n; TRY(c, n = -d); if (dcnt(n) != m[j].v-m[i].v || !(n == t[j]-t[i])) bad("wrong-difference","negated",dcnt(n),m[j].v-m[i].v);
		break; }
	    case OP_add: { const int64_t ms = arg/1000000; TP a, b; TRY(c, D d = ch::duration_cast<D>(ch::milliseconds (ms)); a = t[i] + d; b = a - d); if (per >= 1000) {
		    if (cnt<C>(a) != m[i].v + ms*(per/1000)) bad("wrong-sum","plus milliseconds",cnt<C>(a),m[i].v+ms*(per/1000)); }
		if (!(b == t[i]) || cnt<C>(b) != m[i].v) bad("wrong-sum","plus and minus a duration",cnt<C>(b),m[i].v);
		if (ms && per >= 1000 && ((a < t[i]) != (ms < 0) || (t[i] < a) != (ms > 0))) bad("wrong-order",CLK[k],ms); if (ms < 0) probe(P_NEG); break; }
	    case OP_compare: { bool lt, eq, gt; TRY(c, lt = t[i] < t[j]; eq = t[i] == t[j]; gt = t[j] < t[i]); if (lt != (m[i].v < m[j].v) || eq != (m[i].v == m[j].v) || gt != (m[j].v < m[i].v)) bad("wrong-order",CLK[k],m[i].v,m[j].v); break; }
	    case OP_stream: { static char b [64] __attribute__((aligned(16))); TP a, z; TRY(c, ostream os (b,sizeof(b)); os << t[i] << t[j]; istream is (b,os.pos()); is >> a >> z; if (is.remaining()) { HxScope hx; bad("wrong-position","reading time points back",is.remaining(),0); });
		if (!(a == t[i]) || !(z == t[j]) || cnt<C>(a) != m[i].v) bad("wrong-value","read back",cnt<C>(a),m[i].v); break; }
	    case OP_scale: { const int64_t f = small ? small : 7; D d, e, q; TRY(c, d = t[i] - t[j]); const int64_t v = dcnt(d); if (v > 40*YEAR || v < -40*YEAR) break;
		const int64_t g = v > YEAR || v < -YEAR ? f % 3 ? f % 3 : 1 : f;
		
		TRY(c, scale (d,g,e,q)); if (dcnt(e) != v*g) bad("wrong-product",CLK[k],dcnt(e),v*g);
		const int64_t lo = flr(v,g); if (dcnt(q) != lo && dcnt(q) != lo+1) bad("wrong-quotient",CLK[k],dcnt(q),v/g); break; }
	    case OP_text: { D d; TRY(c, d = t[i] - t[j]); const int64_t v = dcnt(d); if (v < 0) break; char e [80]; text (d,v,e,sizeof(e)); string s; TRY(c, ostringstream os; put (os,d); s = os.str());
		if (strcmp(s.c_str(),e)) { sim_fail("K01","wrong-text","text of a %s duration: \"%s\", expected \"%s\"",CLK[k],s.c_str(),e); } break; }
	    case OP_point_cast: { ch::time_point<C,ch::seconds> a; ch::time_point<C,ch::milliseconds> b; ch::time_point<C,ch::nanoseconds> n; if (per > 1 && per < 1000) break;
		TRY(c, a = ch::time_point_cast<ch::seconds>(t[i]); b = ch::time_point_cast<ch::milliseconds>(t[i]); n = ch::time_point_cast<ch::nanoseconds>(t[i]));
		chk ("to seconds",(int64_t)a.time_since_epoch().count(),m[i].v,per,1); chk ("to milliseconds",(int64_t)b.time_since_epoch().count(),m[i].v,per,1000); chk ("to nanoseconds",(int64_t)n.time_since_epoch().count(),m[i].v,per,SEC); break; }
	    case OP_forms: { if (k == K_hr) break; forms (D(),m[i].v - m[j].v,small); TP z, lo, hi, p; bool e [4] = {}; int64_t sz = 0;
		TRY(c, z = TP::zero(); lo = TP::min(); hi = TP::max(); p = t[i]; p += t[j].time_since_epoch(); p -= t[j].time_since_epoch(); e[0] = !(hi < t[i]) && !(t[i] < lo); e[1] = lo < z && z < hi; e[2] = z + t[i].time_since_epoch() == t[i]; e[3] = p == t[i]; sz = t[i].stream_size() + stream_size_of (t[i].time_since_epoch()));
		if (cnt<C>(z) || !e[0] || !e[1] || !e[2] || !e[3]) bad("wrong-order","zero, min and max of a clock",cnt<C>(z),e[0]+e[1]+e[2]+e[3]);
		if (sz != 2*(int64_t) sizeof(intmax_t)) bad("wrong-size",CLK[k],sz,2*sizeof(intmax_t)); break; }
	    case OP_elapsed: { D d; TRY(c, d = t[i] - t[j]); if (k != K_steady) break; probe(P_STEADY); const int64_t e = m[i].mono - m[j].mono; if (dcnt(d) - e > 1000 || e - dcnt(d) > 1000) bad("wrong-elapsed",CLK[k],dcnt(d),e); break; }
	}
	if (c.kind) bad("unexpected-exception",thname(c.kind));
    }
    static void chk(const char* w, int64_t got, int64_t v, int64_t from, int64_t to) {
	const big n = (big)v*to; if (got != flr(n,from) && got != (int64_t)(n/from)) bad("wrong-conversion",w,got,(long long)(n/from)); }
    template <typename D> static void scale(const D& d, int64_t g, D& e, D& q) { e = d; e *= g; q = d; q /= g; }
    static void scale(const ch::high_resolution_clock::duration& d, int64_t g, ch::high_resolution_clock::duration& e, ch::high_resolution_clock::duration& q)
	{ e = ch::high_resolution_clock::duration (d.count() * (intmax_t) g); q = ch::high_resolution_clock::duration (d.count() / (intmax_t) g); }
    template <typename D> static void put(ostringstream& os, const D& d) { os << d; }
    static void put(ostringstream& os, const ch::high_resolution_clock::duration& d) { d.count().text_write (os); }	// << is ambiguous
    template <typename D> static void text(const D&, int64_t v, char* e, size_t n) { const int64_t p = (int64_t)D::period::den; snprintf(e,n,"%ld%s",(long)v,p == SEC ? "_ns" : p == 1000000 ? "_us" : p == 1000 ? "_ms" : p == 1 ? "_s" : ""); }
    static void forms(const ch::high_resolution_clock::duration&, int64_t, int64_t) {}
    template <typename D> static void forms(const D&, int64_t v, int64_t sm)
    {
	const int64_t g = sm ? sm : 13; D d, e, q; int64_t x [10]; bool b [4]; Caught c;
	TRY(c, d = D (v); e = +d; x[0] = e.count(); q = ++e; x[1] = e.count(); x[2] = q.count(); q = e++; x[3] = e.count(); x[4] = q.count(); q = e--; x[5] = e.count(); x[6] = q.count(); --e; x[7] = e.count(); e %= intmax_t (g); x[8] = e.count(); e = d; e %= D (g); x[9] = e.count(); b[0] = D::zero().count() == 0; b[1] = !(d < D::min()); b[2] = !(D::max() < d); b[3] = D::min() < D::max() && D::min().count() < 0);
	const int64_t w [10] = { v, v+1, v+1, v+2, v+1, v+1, v+2, v, v % g, v % g };
	if (c.kind) bad("unexpected-exception",thname(c.kind));
	for (int n = 0; n < 10; ++n) if (x[n] != w[n]) { bad("wrong-sum",n < 8 ? "stepping a duration" : "remainder of a duration",x[n],w[n]); break; }
	for (int n = 0; n < 4; ++n) if (!b[n]) { bad("wrong-order","zero, min and max of a duration",n); break; }
    }
    static void text(const ch::high_resolution_clock::duration&, int64_t v, char* e, size_t n) { snprintf(e,n,"%ld.%09ld",(long)(v/SEC),(long)(v%SEC)); }
};
template <typename F, typename T> void castone(const char* w, int64_t v)
{
    const int64_t fn = F::period::num, fd = F::period::den, tn = T::period::num, td = T::period::den;
    const big num = (big)v*fn*td, den = (big)fd*tn, e = num/den;	// toward zero
    if (e > (big)4e18 || e < -(big)4e18 || (big)v*fn*td/tn > (big)9e18 || (big)v*fn*td/tn < -(big)9e18) return;	// does not fit
    T t; LIB(t = ch::duration_cast<T>(F (v))); if ((int64_t)t.count() != (int64_t)e) bad("wrong-conversion",w,(int64_t)t.count(),(int64_t)e);
}
template <typename D> void suf(int64_t v, const char* sfx)
{
    char e [64]; { HxScope hx; snprintf (e,sizeof(e),"%ld%s",(long) v,sfx); }
    string s; LIB(ostringstream os; os << D (v); s = os.str()); if (strcmp (s.c_str(),e)) sim_fail ("K01","wrong-text","text of a duration: \"%s\", expected \"%s\"",s.c_str(),e);
}
// The ratios units are made of: arithmetic and order of every pair, in lowest terms, against wide integers.
struct RatioRow { int64_t n1, d1, n2, d2, r [8]; bool b [6]; };
template <typename A, typename B, intmax_t BN, intmax_t BD> constexpr RatioRow ratiorow(int64_t n1, int64_t d1)
{
    typedef ustl::ratio<(BN ? BN : 3),BD> D_;
    return RatioRow { n1, d1, BN, BD,
	{ ratio_add<A,B>::num, ratio_add<A,B>::den, ratio_subtract<A,B>::num, ratio_subtract<A,B>::den, ratio_multiply<A,B>::num, ratio_multiply<A,B>::den, ratio_divide<A,D_>::num, ratio_divide<A,D_>::den },
	{ ratio_equal<A,B>::value, ratio_not_equal<A,B>::value, ratio_less<A,B>::value, ratio_less_equal<A,B>::value, ratio_greater<A,B>::value, ratio_greater_equal<A,B>::value } };
}
#define RATIOS(X,...) X(1,3,##__VA_ARGS__) X(-2,7,##__VA_ARGS__) X(4,6,##__VA_ARGS__) X(5,-10,##__VA_ARGS__) X(1,1000000000,##__VA_ARGS__) X(1,1000000,##__VA_ARGS__) X(1000,1,##__VA_ARGS__) X(1000000,1,##__VA_ARGS__) X(3600,1,##__VA_ARGS__) X(0,5,##__VA_ARGS__) X(604800,3,##__VA_ARGS__) X(-9,-15,##__VA_ARGS__) X(1,-1000,##__VA_ARGS__)
#define RATIOS2(X,...) X(1,3,##__VA_ARGS__) X(-2,7,##__VA_ARGS__) X(4,6,##__VA_ARGS__) X(5,-10,##__VA_ARGS__) X(1,1000000000,##__VA_ARGS__) X(1,1000000,##__VA_ARGS__) X(1000,1,##__VA_ARGS__) X(1000000,1,##__VA_ARGS__) X(3600,1,##__VA_ARGS__) X(0,5,##__VA_ARGS__) X(604800,3,##__VA_ARGS__) X(-9,-15,##__VA_ARGS__) X(1,-1000,##__VA_ARGS__)
#define RROW(n2,d2,n1,d1) ratiorow<ustl::ratio<n1,d1>,ustl::ratio<n2,d2>,n2,d2> (n1,d1),
#define RROWS(n1,d1) RATIOS2(RROW,n1,d1)
const RatioRow RATIOROWS [] = { RATIOS(RROWS) };
void ratiocheck(uint64_t at)
{
    const RatioRow& t = RATIOROWS [at % (sizeof(RATIOROWS)/sizeof(RATIOROWS[0]))];
    const int64_t q2 = t.n2 ? t.n2 : 3;
    const big num [4] = { (big)t.n1*t.d2+(big)t.n2*t.d1, (big)t.n1*t.d2-(big)t.n2*t.d1, (big)t.n1*t.n2, (big)t.n1*t.d2 };
    const big den [4] = { (big)t.d1*t.d2, (big)t.d1*t.d2, (big)t.d1*t.d2, (big)t.d1*q2 };
    static const char* const W [4] = { "sum of ratios","difference of ratios","product of ratios","quotient of ratios" };
    for (int i = 0; i < 4; ++i) {
	big n = num[i], d = den[i], a = n < 0 ? -n : n, b = d < 0 ? -d : d; while (b) { const big m = a % b; a = b; b = m; }
	n /= a; d /= a; if (d < 0) { n = -n; d = -d; }
	if (t.r[i*2] != (int64_t)n) bad("wrong-conversion",W[i],t.r[i*2],(int64_t)n);
	if (t.r[i*2+1] != (int64_t)d) bad("wrong-conversion",W[i],t.r[i*2+1],(int64_t)d);
    }
    const big df = (t.d1 < 0) == (t.d2 < 0) ? num[1] : -num[1];
    const bool w [6] = { df == 0, df != 0, df < 0, df <= 0, df > 0, df >= 0 };
    for (int i = 0; i < 6; ++i) if (t.b[i] != w[i]) bad("wrong-order","ratios",t.b[i],w[i]);
}
void exec(const Plan& p)
{
    { HxScope hx; setenv("TZ","UTC0",1); tzset(); }
    g_realns = p.cfg[C_START];
    Clock<ch::system_clock> sys; Clock<ch::high_resolution_clock> hr; Clock<ch::steady_clock> st8; Clock<ch::system_clock_ms> ms; Clock<ch::system_clock_us> us; Clock<ch::system_clock_ns> ns; Clock<ch::system_clock_hr<ch::seconds> > sec; Clock<ch::system_clock_hr<centi_t> > cs; Clock<ch::system_clock_hr<third_t> > th;
    int64_t laststeady = 0;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op]; const int k = (int)st.a[0]; const int64_t arg = st.a[3];
	const int64_t R = 200*YEAR;
	switch (st.op) {
	    case OP_advance: { const int64_t d = arg < 0 ? -arg : arg; if (g_realns+d < R && g_monons+d < R) { g_realns += d; g_monons += d; sim_tick(d < 3600*SEC ? d : 3600*SEC); } break; }
	    case OP_wall_jump: if (g_realns+arg < R && g_realns+arg > -R) { g_realns += arg; fired(F_CLOCK); if (arg < 0) probe(P_BACK); } break;
	    case OP_wall_set: { static const int64_t T [] = { 0, -1, 1, 999999999, 1000000000, -1000000000, -999999999, 2147483647999999999ll, 2147483648000000000ll }; const int64_t v = T[(uint64_t)arg % 9] - 1000*(int64_t)((uint64_t)st.a[4] % 3); if (v < g_realns) probe(P_BACK); g_realns = v; fired(F_CLOCK); break; }
	    case OP_time_t: { if (!sys.m[st.a[1]].set) break; time_t tt = 0; Caught c; TRY(c, tt = ch::system_clock::to_time_t (sys.t[st.a[1]])); if (tt != sys.m[st.a[1]].v) bad("wrong-conversion","to_time_t",tt,sys.m[st.a[1]].v);
		ch::system_clock::time_point b; TRY(c, b = ch::system_clock::from_time_t (tt)); if (!(b == sys.t[st.a[1]])) bad("wrong-conversion","from_time_t",b.time_since_epoch().count(),tt);
		char e [64]; { HxScope hx; struct tm g; gmtime_r(&tt,&g); strftime(e,sizeof(e),"%a %b %e %H:%M:%S %Y",&g); }
		string s; TRY(c, ostringstream os; os << b; s = os.str()); if (strcmp(s.c_str(),e)) sim_fail("K01","wrong-text","text of a system_clock time: \"%s\", expected \"%s\"",s.c_str(),e); break; }
	    case OP_cast: { const int64_t v = arg; castone<ch::nanoseconds,ch::microseconds>("ns to us",v); castone<ch::nanoseconds,ch::milliseconds>("ns to ms",v); castone<ch::nanoseconds,ch::seconds>("ns to s",v); castone<ch::nanoseconds,ch::minutes>("ns to min",v); castone<ch::nanoseconds,ch::hours>("ns to hours",v); castone<ch::nanoseconds,ch::days>("ns to days",v);
		const int64_t s = v/SEC, m = v/1000000; castone<ch::seconds,ch::nanoseconds>("s to ns",s); castone<ch::seconds,ch::milliseconds>("s to ms",s); castone<ch::seconds,ch::weeks>("s to weeks",s); castone<ch::seconds,ch::years>("s to years",s); castone<ch::seconds,ch::months>("s to months",s); castone<ch::milliseconds,ch::hours>("ms to hours",m); castone<ch::milliseconds,ch::nanoseconds>("ms to ns",m);
		castone<ch::hours,ch::seconds>("hours to s",s/3600); castone<ch::hours,ch::milliseconds>("hours to ms",s/3600); castone<ch::days,ch::weeks>("days to weeks",s/86400); castone<ch::years,ch::days>("years to days",s/86400/365); castone<ch::weeks,ch::microseconds>("weeks to us",s/86400/7); castone<ch::seconds,third_t>("s to thirds",s); castone<third_t,ch::milliseconds>("thirds to ms",s); castone<centi_t,ch::seconds>("1/100 s to s",m/10); castone<centi_t,third_t>("1/100 s to 1/3 s",m/10); castone<ch::minutes,ch::seconds>("min to s",s/60); break; }
	    case OP_cast_hr: { typedef ch::high_resolution_clock::duration H; const int64_t v = arg; H h; LIB(h = ch::duration_cast<H>(ch::nanoseconds (v))); if (dcnt(h) != v) bad("wrong-conversion","ns to timespec",dcnt(h),v);
		if (h.count().tv_nsec < 0 || h.count().tv_nsec >= SEC) bad("wrong-conversion","timespec nanoseconds",h.count().tv_nsec);
		int64_t g; LIB(g = ch::duration_cast<ch::nanoseconds>(h).count()); if (g != v) bad("wrong-conversion","timespec to ns",g,v);
		LIB(g = ch::duration_cast<ch::milliseconds>(h).count()); Clock<ch::system_clock>::chk ("timespec to ms",g,v,SEC,1000);
		LIB(g = ch::duration_cast<ch::microseconds>(h).count()); Clock<ch::system_clock>::chk ("timespec to us",g,v,SEC,1000000);
		LIB(g = ch::duration_cast<ch::seconds>(h).count()); Clock<ch::system_clock>::chk ("timespec to s",g,v,SEC,1);
		LIB(g = ch::duration_cast<ch::minutes>(h).count()); const int64_t fl = flr(v,60*SEC); if (g != fl && g != v/(60*SEC)) bad("wrong-conversion","timespec to min",g,fl);
		LIB(h = ch::duration_cast<H>(ch::milliseconds (v/1000000))); if (dcnt(h) != v/1000000*1000000) bad("wrong-conversion","ms to timespec",dcnt(h),v/1000000*1000000);
		LIB(h = ch::duration_cast<H>(ch::seconds (v/SEC))); if (dcnt(h) != v/SEC*SEC) bad("wrong-conversion","s to timespec",dcnt(h),v/SEC*SEC); break; }
	    case OP_incdec: { ch::hrtime_t h, o; LIB(h = ch::hrtime_t (intmax_t(arg)); o = h); int64_t v = arg; for (int q = 0; q < 6; ++q) { bool up = ((uint64_t)st.a[4] >> q) & 1; LIB(if (up) ++h; else --h); v += up ? 1 : -1; if ((intmax_t) h != v || h.tv_nsec < 0 || h.tv_nsec >= SEC) { bad("wrong-sum","counting nanoseconds",(intmax_t) h,v); break; } }
		if ((o < h) != (arg < v) || (h == o) != (arg == v)) bad("wrong-order","counted nanoseconds",arg,v);
		if (v < 4000000000000000000ll && v > -4000000000000000000ll) {	// a time added to and subtracted from itself
		    typedef ch::high_resolution_clock::duration H; typedef ch::high_resolution_clock::time_point P; H d, e; P p, q;
		    LIB(o = h; o += o; d = H (h); d += d; p = P (H (h)); p += p.time_since_epoch());
		    if ((intmax_t) o != 2*v || dcnt(d) != 2*v || dcnt(p.time_since_epoch()) != 2*v) bad("wrong-sum","a time added to itself",(intmax_t) o,2*v);
		    LIB(o -= o; e = d; e -= e; q = p; q -= q.time_since_epoch());
		    if ((intmax_t) o || o.tv_sec || o.tv_nsec || dcnt(e) || dcnt(q.time_since_epoch())) bad("wrong-sum","a time subtracted from itself",(intmax_t) o,0);
		} break; }
	    case OP_mixed: {	// a deadline computed in other units, as users do
		Clock<ch::high_resolution_clock>& c = hr; const int i = st.a[1]; if (!c.m[i].set) break; const int64_t m = arg/1000000, s = arg/SEC; ch::high_resolution_clock::time_point a; LIB(a = c.t[i] + ch::milliseconds (m)); if (cnt<ch::high_resolution_clock>(a) != c.m[i].v + m*1000000) bad("wrong-sum","timespec plus milliseconds",cnt<ch::high_resolution_clock>(a),c.m[i].v+m*1000000);
		bool lt; LIB(lt = a < c.t[i]); if (lt != (m < 0)) bad("wrong-order","deadline",m); LIB(a = a - ch::milliseconds (m); a += ch::seconds (s); a -= ch::nanoseconds (s)); if (cnt<ch::high_resolution_clock>(a) != c.m[i].v + s*SEC - s) bad("wrong-sum","timespec plus seconds minus nanoseconds",cnt<ch::high_resolution_clock>(a),c.m[i].v+s*SEC-s); break; }
	    case OP_hr_forms: { typedef ch::hrtime_t H; const int64_t v = arg; const int64_t s = flr(v,SEC), n = v - s*SEC; struct timespec ts; ts.tv_sec = s; ts.tv_nsec = n;
		H z, a, b, e, f, u [6]; bool ok [4]; double x = 0; float y = 0; int64_t sz = 0; Caught c;
		TRY(c, a = H (ts); b = H (time_t (s), long (n)); e = +a; u[0] = e++; u[1] = e; u[2] = e--; u[3] = e; u[4] = -a; u[5] = -u[4]; ok[0] = z == H (0,0); ok[1] = a == b; ok[2] = a == H (intmax_t (v)); ok[3] = !(a < b); x = double (a); y = float (a); sz = a.stream_size(); f = H (double (s)));
		if (c.kind) bad("unexpected-exception",thname(c.kind));
		for (int q = 0; q < 4; ++q) if (!ok[q]) bad("wrong-conversion","building a timespec",q);
		const int64_t w [6] = { v, v+1, v+1, v, -v, v };
		for (int q = 0; q < 6; ++q) if ((intmax_t) u[q] != w[q] || u[q].tv_nsec < 0 || u[q].tv_nsec >= SEC) { bad("wrong-sum",q < 4 ? "stepping a timespec" : "negating a timespec",(intmax_t) u[q],w[q]); break; }
		if ((int64_t) x != s && (int64_t) (x+1e-6) != s && (int64_t)(x+1) != s+(s < 0 ? 1 : 0)) { if (x < s - 1 || x > s + 2) bad("wrong-conversion","timespec to double",(int64_t) x,s); }
		const double fe = y - x, tol = (x < 0 ? -x : x)*1e-6 + 1e-6; if (fe > tol || fe < -tol) bad("wrong-conversion","timespec to float",(int64_t) y,(int64_t) x);
		const double xe = x - ((double) s + n/1e9); if (xe > 1e-3 || xe < -1e-3) bad("wrong-conversion","timespec to double",(int64_t) x,s);
		if (f.tv_sec != s || f.tv_nsec) bad("wrong-conversion","whole seconds from a double",f.tv_sec,s);
		if (sz != 16) bad("wrong-size","timespec",sz,16);
		// from seconds with a fraction, before the epoch too
		{ const double dv = (double)(s % 1000000) + (st.a[4] % 5 ? n/1e9 : n*1e-19); const float fv = (float) dv; H hd, hf;
		  TRY(c, hd = H (dv); hf = H (fv));
		  const double ed = (hd.tv_sec - (int64_t) dv)*1e9 + hd.tv_nsec - (dv - (int64_t) dv)*1e9, ef = (hf.tv_sec - (int64_t) fv)*1e9 + hf.tv_nsec - ((double) fv - (int64_t) fv)*1e9;
		  if (hd.tv_nsec < 0 || hd.tv_nsec >= SEC || ed > 2 || ed < -2) bad("wrong-conversion","double to timespec",hd.tv_nsec,(int64_t)((dv-(int64_t) dv)*1e9));
		  if (hf.tv_nsec < 0 || hf.tv_nsec >= SEC || ef > 66 || ef < -66) bad("wrong-conversion","float to timespec",hf.tv_nsec,(int64_t)((fv-(int64_t) fv)*1e9)); }
		// products and quotients against wide integers
		const int64_t g = st.a[4] ? st.a[4] : 3; H m, q; TRY(c, m = a * intmax_t (g); q = a / intmax_t (g)); const big pr = (big) v*g;
		if (pr < (big) 4e18 && pr > -(big) 4e18 && ((intmax_t) m != (int64_t) pr || m.tv_nsec < 0 || m.tv_nsec >= SEC)) bad("wrong-product","timespec",(intmax_t) m,(int64_t) pr);
		const int64_t ql = flr(v,g); if (((intmax_t) q != ql && (intmax_t) q != ql+1) || q.tv_nsec < 0 || q.tv_nsec >= SEC) bad("wrong-quotient","timespec",(intmax_t) q,ql);
		break; }
	    case OP_ratio: ratiocheck ((uint64_t)arg); break;
	    case OP_suffix: { const int64_t v = arg % 100000; suf<ch::minutes> (v,"_min"); suf<ch::hours> (v,"_hours"); suf<ch::days> (v,"_days"); suf<ch::weeks> (v,"_weeks"); suf<ch::years> (v,"_years"); suf<ch::months> (v,"_months"); suf<ch::centuries> (v,"_centuries"); suf<ch::millenia> (v,"_millenia"); suf<ch::nanoseconds> (v,"_ns"); suf<ch::microseconds> (v,"_us"); suf<ch::milliseconds> (v,"_ms"); suf<ch::seconds> (v,"_s"); suf<third_t> (v,""); break; }
	    default: switch (k) {
		case K_sys: sys.op(st,k,laststeady); break; case K_hr: hr.op(st,k,laststeady); break; case K_steady: st8.op(st,k,laststeady); break; case K_ms: ms.op(st,k,laststeady); break;
		case K_us: us.op(st,k,laststeady); break; case K_ns: ns.op(st,k,laststeady); break; case K_s: sec.op(st,k,laststeady); break; case K_cs: cs.op(st,k,laststeady); break; default: th.op(st,k,laststeady);
	    }
	}
	for (int q = 0; q < g_nclk; ++q) if (fault_at(F_CLOCK,q)) probe(P_JUMPIN);
	sim_sig(st.op*16+k);
    }
}
const Scenario SC = { "clk", "K01", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&SC);
}
