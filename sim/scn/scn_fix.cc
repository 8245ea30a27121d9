// Output streams over fixed memory blocks: nothing outside the block is ever written.
#include "common.h"
#include <stdio.h>
using namespace ustl;

namespace {
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("D02",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }
enum { B_bytes, B_int, B_align, B_skip, B_seek, B_seekp, B_strz, B_string, B_vector, B_pairs, B_exc, B_insert, B_erase, B_read, B_utf8, B_iter, B_mask, B_clear, B_relink, B_swap, B_memlink, B_form,
    T_write, T_char, T_int, T_double, T_bool, T_wchar, T_format, T_seekp, T_flush, T_str, T_mask, T_state, T_link, T_width, T_object, T_flags, T_num, T_manip, T_group, T_form, N_OPS };
const char* const OPS [N_OPS] = { "bytes","int","align","skip","seek","seekp","strz","string","vector","pairs","exception","insert","erase","read","utf8","iterator","mask","clear","relink","swap","memlink","form",
    "t_write","t_char","t_int","t_double","t_bool","t_wchar","t_format","t_seekp","t_flush","t_str","t_mask","t_state","t_link","t_width","t_object","t_flags","t_num","t_manip","t_group","t_form" };
enum { C_SIZE, C_KIND, C_EXC, N_CFG };
const char* const CFG [N_CFG] = { "size","kind","exceptions" };
enum { P_REFUSED, P_CUT, P_THREW, P_EMPTY, P_FULL, P_GREW, P_ALLOC, P_EXACT, P_MASKED, P_TERM, N_PROBES };
const char* const PROBES [N_PROBES] = { "refused","cut_short","exception","empty_block","block_full","continued_in_own_memory","allocation_failed","filled_exactly","exceptions_off","terminator_in_last_byte" };
const ios_base::iostate MASKS [] = { ios_base::allbadbits, ios_base::goodbit, ios_base::eofbit, ios_base::failbit };
enum { FRONT = 32, MAXB = 300 };

void gen(Rng& r, Plan& p, bool faults)
{
    p.cfg[C_SIZE] = r.chance(80) ? 0 : r.skewed(200); p.cfg[C_KIND] = r.below(2); p.cfg[C_EXC] = r.below(4);
    const int n = 2 + (int)r.skewed(60); const int room = (int)p.cfg[C_SIZE];
    for (int i = 0; i < n; ++i) {
	const int op = p.cfg[C_KIND] ? T_write + (int)r.below(N_OPS-T_write) : (int)r.below(T_write);
	const int64_t amt = r.chance(50) ? (int64_t)r.next() : r.chance(50) ? -(int64_t)r.skewed(100) : r.chance(120) ? room + r.range(-3,3) : r.skewed(hmax(room/3,4));
	Step& st = p.add(op,amt,r.below(4),r.next()>>20,r.below(1000));
	if (faults && r.chance(150)) addfault(st,F_ALLOC,(int)r.skewed(4),1+(int)r.skewed(2),0);
    }
}

struct Block { uint8_t* m; uint8_t* p; size_t n; Bytes shadow; bool any;	// what the block must contain
    void make(size_t sz) { n = sz; m = (uint8_t*)arena_place(FRONT+sz,0); p = m+FRONT; for (size_t i = 0; i < FRONT+sz; ++i) m[i] = 0xB0+(i*7)%64; shadow.setn(sz); memcpy(shadow.data(),p,sz); }
    void front() const { for (size_t i = 0; i < FRONT; ++i) if (m[i] != 0xB0+(i*7)%64) { bad("out-of-bounds","wrote before the block",(long long)i-FRONT,0); return; } }
};
Block g_b [3]; int g_cur;
template <typename T> struct Hold { char m [sizeof(T)] __attribute__((aligned(16))); T& operator*() { return *(T*)m; } };

// The bytes a value takes when there is room, starting at an address like at
template <typename T> void plenty(const T& v, const uint8_t* at, Bytes& e)
{
    HxScope hx; static uint8_t buf [1<<16] __attribute__((aligned(64)));
    const size_t o = (uintptr_t)at & 63;
    ostream os (buf+o,sizeof(buf)-o-64); os << v; e.clear(); e.append(buf+o,os.pos());
}

void exec_bin(const Plan& p)
{
    static Hold<ostream> ho; LIB(new (ho.m) ostream); ostream& os = *ho;
    for (int i = 0; i < 3; ++i) g_b[i].make(i ? (size_t)(p.cfg[C_SIZE]*i/2) : (size_t)p.cfg[C_SIZE]);
    g_cur = 0; Block* b = &g_b[0];
    LIB(os.link (b->p,b->n); os.exceptions (MASKS[p.cfg[C_EXC] % 4]));
    size_t pos = 0;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op];
	if (st.op >= T_write) continue;
	Caught c; c.kind = TH_NONE;
	const uint64_t amt = (uint64_t)st.a[0], val = (uint64_t)st.a[2]; const size_t size = b->n, rem = size-pos; const int sel = (uint64_t)st.a[1] % 4, small = amt % 60;
	LIB(os.clear());
	if (!size) probe(P_EMPTY); if (!rem) probe(P_FULL); if (os.exceptions() != ios_base::allbadbits) probe(P_MASKED);
	Bytes e; bool pieces = false, setpos = false; uint64_t np = pos; bool fits = true, unspec = false;
	switch (st.op) {
	    case B_bytes: { fits = amt <= rem; Bytes d; patfill(d,val,fits ? amt : 8); if (fits) e = d; const void* src = arena_place(d.size(),d.data()); TRY(c, os.write (src,amt)); break; }
	    case B_int: { e.append((const uint8_t*)&val,1u<<sel); TRY(c, switch (sel) { case 0: os << (uint8_t)val; break; case 1: os << (uint16_t)val; break; case 2: os << (uint32_t)val; break; default: if (small & 1) os << long4grain((const unsigned long&)val); else if (small & 2) { const char* const q = (const char*)val; os << ptr4grain(q); } else os << val; }); break; }
	    case B_align: { const size_t g = 1u << (amt % 6), nb = (g - ((uintptr_t)(b->p+pos) & (g-1))) & (g-1); e.resize(nb); if (ios::align (g).stream_size() < nb || ios::align (g).stream_size() > g) bad("wrong-size","size told for an alignment",ios::align (g).stream_size(),nb); TRY(c, if (val & 1) os << ios::align (g); else os.align (g)); break; }
	    case B_skip: setpos = true; np = pos+amt; if (ios::skip (amt).stream_size() != amt) bad("wrong-size","size told for a skip",ios::skip (amt).stream_size(),amt); TRY(c, if (val & 1) os << ios::skip (amt); else os.skip (amt)); break;
	    case B_seek: setpos = true; np = amt; TRY(c, if ((val & 1) && amt < (1u<<20)) os.iseek (os.begin()+amt); else os.seek (amt)); break;
	    case B_seekp: setpos = true; np = sel == 0 ? amt : sel == 1 ? pos+amt : size-amt; TRY(c, os.seekp (st.a[0],sel == 0 ? ios_base::beg : sel == 1 ? ios_base::cur : ios_base::end)); break;
	    case B_strz: { char t [64]; for (int i = 0; i < small; ++i) t[i] = 'a'+(i+val)%26; t[small] = 0; e.append((uint8_t*)t,small+1); TRY(c, os.write_strz (t)); break; }
	    case B_string: { string s; { HxScope hx; s.resize (small); for (int i = 0; i < small; ++i) s[i] = 'a'+(i+val)%26; } plenty(s,b->p+pos,e); TRY(c, os << s); break; }
	    case B_vector: { pieces = true; vector<uint16_t> v; { HxScope hx; for (int i = 0; i < small; ++i) v.push_back (uint16_t(val+i*77)); } plenty(v,b->p+pos,e); TRY(c, os << v); break; }
	    case B_pairs: { pieces = true; vector<pair<uint8_t,string> > v; { HxScope hx; for (int i = 0; i < small % 9; ++i) { string s; s.resize ((val+i) % 5, 'q'); v.push_back (make_pair (uint8_t(i+val),s)); } } plenty(v,b->p+pos,e); TRY(c, os << v); break; }
	    case B_exc: { pieces = true; HxScope hx; bt_config(small % 4,0); error_message x ("a message"); plenty(x,b->p+pos,e); { TRY(c, os << x); } break; }
	    case B_memlink: { pieces = true; Bytes d; patfill(d,val,small); cmemlink l (d.data(),small); plenty(l,b->p+pos,e); if (val & 1) { pieces = false; e = d; TRY(c, os.write (l)); } else TRY(c, l.write (os)); break; }
	    case B_read: { Bytes d; patfill(d,val,small); istream is (d.data(),small); const size_t sk = small ? val % (small+1) : 0; e.append(d.data()+sk,small-sk); TRY(c, is.seek (sk); if (sel & 1) is.write (os); else os.read (is)); if (!c.kind && e.size() <= rem && !(sel & 1) && is.remaining()) bad("wrong-position","the source was not consumed",is.remaining(),0); break; }
	    case B_utf8: { const wchar_t w = (wchar_t)(val % 0x110000); HxScope hx; Bytes t; { static char tmp [16]; *utf8out (tmp) = w; t.append((uint8_t*)tmp,Utf8Bytes (w)); } e = t; pieces = true; TRY(c, *utf8out (os) = w); break; }
	    case B_iter: { pieces = true; for (int i = 0; i < small % 20; ++i) { uint32_t v = val*i; e.append((uint8_t*)&v,4); } TRY(c, ostream_iterator<uint32_t> oi (os); for (int i = 0; i < small % 20; ++i) { uint32_t v = val*i; *oi++ = v; }); break; }
	    case B_insert: { const size_t at = pos ? val % (pos+1) : 0; fits = amt <= rem; TRY(c, os.insert (os.begin()+at,amt)); if (fits && !c.kind && !os.fail()) { Bytes s = b->shadow; b->shadow.setn(at); b->shadow.append(b->p+at,amt); b->shadow.append(s.data()+at,size-at-amt); np = pos+amt; setpos = true; } break; }
	    case B_erase: { if (amt > pos) continue; const size_t at = val % (pos-amt+1); TRY(c, os.erase (os.begin()+at,amt)); b->shadow.erase(at,amt); b->shadow.append(b->p+size-amt,amt); np = pos-amt; setpos = true; break; }
	    case B_form: {
		static uint8_t tmp [512]; const ostream& cos = os; size_t f2 = 0;
		switch (sel+4*(val & 1)) {
		    case 0: case 1: setpos = true; np = pos+amt; TRY(c, ostream_iterator<uint32_t> i (os), j (i); i += amt; if (!(i == j) || i < j || j < i) bad("wrong-value","iterators of one stream compared")); break;
		    case 2: setpos = true; np = amt % (size+9); TRY(c, os.iseek (cos.begin()+np)); break;
		    case 3: if ((size_t)os.tellp() != pos || cos.stream_size() != pos || cos.ipos() != cos.begin()+pos || os.ipos() != (char*)b->p+pos || cos.end() != (char*)b->p+size || os.end() != (char*)b->p+size || cos.align_size (4) != (4-pos%4)%4 || cos.aligned (4) != !(pos%4)) bad("wrong-position","told",os.tellp(),pos);
			LIB({ ostream o (tmp,4); ostream_iterator<uint8_t> i (os), j (o); if ((i == j) != !pos || (j < i) != !!pos || i < j) bad("wrong-value","iterators of two streams compared"); }); continue;
		    case 4: case 5: TRY(c, ostream o (tmp,pos+sel); if (sel) o << cos; else cos.write (o); f2 = o.pos()); if (!c.kind && (f2 != pos || memcmp(tmp,b->shadow.data(),pos))) bad("wrong-bytes","the written part copied",f2,pos); break;
		    case 6: TRY(c, ostringstream o; cos.text_write (o); o.flush(); f2 = o.str().size(); memcpy(tmp,o.str().begin(),hmin(f2,sizeof(tmp)))); if (!c.kind && (f2 != pos || memcmp(tmp,b->shadow.data(),pos))) bad("wrong-bytes","the written part as text",f2,pos); break;
		    default: TRY(c, os << endl); e.push('\n'); break;
		}
		break; }
	    case B_mask: TRY(c, os.exceptions (MASKS[sel])); continue;
	    case B_clear: TRY(c, os.clear (sel & 1 ? ios_base::failbit : ios_base::goodbit); os.flush()); break;
	    case B_relink: { g_cur = sel % 3; b = &g_b[g_cur]; TRY(c, memlink l (b->p,b->n); switch (val % 6) { case 0: os.link (b->p,b->n); break; case 1: os.unlink(); os.relink (b->p,b->n); break; case 2: os.link (l); break; case 3: os.relink (l); break; case 4: os.link (b->p,b->p+b->n); break; default: { ostream t (l); t.swap (os); os.relink (t.begin(),t.size()); ::ustl::swap (os,t); os.unlink(); os.relink (l); } }); pos = 0; if (os.pos() || os.size() != b->n) bad("wrong-position","after linking to another block",os.pos(),0); continue; }
	    case B_swap: if (val & 1) { LibScope ls; ostream t; TRY(c, os.swap (t)); if (os.size() || os.pos() || t.pos() != pos || t.size() != size) { HxScope hx; bad("wrong-position","swapped with an empty stream",t.pos(),pos); } TRY(c, t.swap (os)); if (t.size() || t.pos() || os.pos() != pos) { HxScope hx; bad("wrong-position","swapped with an empty stream",os.pos(),pos); } }
		{ Block* o = &g_b[(g_cur+1) % 3]; size_t op = o->n/2; LibScope ls; ostream t (o->p,o->n); TRY(c, t.seek (op); os.swap (t)); if (t.pos() != pos || t.begin() != (char*)b->p) { HxScope hx; bad("wrong-position","swapped stream",t.pos(),pos); } g_cur = (g_cur+1) % 3; b = o; pos = op; if (os.pos() != pos) { HxScope hx; bad("wrong-position","after swapping",os.pos(),pos); } continue; }
	}
	(void)unspec;
	if (setpos && st.op != B_insert && st.op != B_erase) fits = np <= size;
	else if (!setpos && st.op != B_insert) { if (st.op != B_bytes) fits = e.size() <= rem; if (fits) np = pos+e.size(); }
	if (c.kind == TH_BOUNDS) probe(P_THREW);
	if (c.kind && c.kind != TH_BOUNDS && !(c.kind == TH_ALLOC && sim.allocfailed)) bad("wrong-exception","threw something else",c.kind);
	if (c.kind == TH_ALLOC) { probe(P_ALLOC); }
	const size_t is = os.pos();
	if (is > size) { bad("bad-position","the position is outside the block",is,size); return; }
	if (os.remaining() != size-is) bad("wrong-count","remaining()",os.remaining(),size-is);
	if (fits) {
	    if (fits && st.op != B_clear && os.rdstate()) bad("spurious-failure","a write that fits set the failure state",os.rdstate());
	    if (c.kind == TH_BOUNDS) bad("spurious-failure","a write that fits threw");
	    if (!c.kind && is != np) bad("wrong-position","after the operation",is,np);
	    if (!setpos) { const size_t k = hmin(e.size(),is >= pos ? is-pos : 0); if (k) memcpy(b->shadow.data()+pos,e.data(),k); if (e.size() && is == size) probe(P_EXACT); }
	} else {
	    if (!os.fail()) bad("unreported","what did not fit was not reported");
	    if ((c.kind == TH_BOUNDS) != !!(os.rdstate() & os.exceptions())) bad("wrong-state","exception and state disagree",c.kind,os.rdstate());
	    if (pieces) {	// later pieces may fit where an earlier one did not, unless an exception ended the write
		probe(P_CUT);
		if (!(os.exceptions() & ios_base::failbit) ? is == pos : (c.kind || is == pos)) { const size_t k = is-pos; if (is < pos || k > e.size()) bad("wrong-position","after a write cut short",is,pos); else if (k) memcpy(b->shadow.data()+pos,e.data(),k); }
		else { if (is < pos) bad("wrong-position","after a write cut short",is,pos); else memcpy(b->shadow.data()+pos,b->p+pos,is-pos); }
	    } else { probe(P_REFUSED); if (is != pos) bad("wrong-position","a refused write moved the position",is,pos); }
	}
	b->front();
	if (size && memcmp(b->p,b->shadow.data(),size)) { size_t i = 0; while (b->p[i] == b->shadow[i]) ++i; bad(i < pos ? "changed" : "wrong-bytes","byte of the block",i,pos); }
	pos = is;
    }
    LIB(os.~ostream());
}

const uint8_t* zplaceof(uint64_t val, int n) { Bytes d; for (int i = 0; i < n; ++i) d.push((uint8_t)('a'+(i+val) % 26)); return (const uint8_t*)arena_place(n,d.data()); }
// The format C's printf has for the same request
void mkfmt(char* f, int width, bool zero, uint32_t fl, int prec, const char* type)
{
    *f++ = '%'; if (fl & ios_base::left) *f++ = '-';
    if (prec < 0) { if (fl & ios_base::showpos) *f++ = '+'; if (fl & ios_base::showbase) *f++ = '#'; }
    if (width) { if (zero) *f++ = '0'; f += sprintf(f,"%d",width); }
    if (prec >= 0) f += sprintf(f,".%d",prec);
    f += sprintf(f,"%s",type);
    if (prec < 0) { if (fl & ios_base::hex) f[-1] = (fl & ios_base::uppercase) ? 'X' : 'x'; else if (fl & ios_base::oct) f[-1] = 'o'; }
    else if (fl & ios_base::scientific) f[-1] = 'E';
}

// Floating point values of any size, the special ones too
double anydouble(uint64_t v)
{
    static const double S [] = { 0.0, -0.0, 1.0/3, -__builtin_inf(), __builtin_inf(), __builtin_nan(""), 2147483648.0, -2147483649.0, 9007199254740993.0, 9223372036854775808.0, 18446744073709551616.0, 0.5, 1.5, 2.5, 0.125, 1e-310 };
    if (v % 5 == 0) return S[v/5 % 16];
    union { uint64_t u; double d; } b; b.u = v * 0x9E3779B97F4A7C15ull; b.u ^= b.u >> 29;
    if (v % 5 < 3) b.u = (b.u & 0x800FFFFFFFFFFFFFull) | (uint64_t(1023-30 + v/5 % 110) << 52);	// not too large
    return b.d;
}
void exec_text(const Plan& p)
{
    static Hold<ostringstream> ho; Block* b = &g_b[0]; b->make(p.cfg[C_SIZE]);
    LIB(new (ho.m) ostringstream (b->p,b->n); (*ho).exceptions (MASKS[p.cfg[C_EXC] % 4])); ostringstream& os = *ho;
    { static const uint32_t B [] = { ios_base::boolalpha, ios_base::showbase, ios_base::showpoint, ios_base::showpos, ios_base::skipws, ios_base::unitbuf, ios_base::uppercase, ios_base::dec, ios_base::oct, ios_base::hex, ios_base::fixed, ios_base::scientific, ios_base::left, ios_base::right, ios_base::internal };
      check_distinct("D02","format flag",B,15);
      if (ios_base::basefield != (ios_base::dec|ios_base::oct|ios_base::hex) || ios_base::floatfield != (ios_base::fixed|ios_base::scientific) || ios_base::adjustfield != (ios_base::left|ios_base::right|ios_base::internal)) sim_fail("D02","flags-overlap","a field of format flags does not hold its flags"); }
    Bytes cont; int width = 0, prec = 2; uint32_t fl = 0; bool zero = false; bool grown = false; int blocks = 1;
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op];
	if (st.op < T_write) continue;
	Caught c; c.kind = TH_NONE;
	const uint64_t amt = (uint64_t)st.a[0], val = (uint64_t)st.a[2]; const size_t pos = cont.size(), size = os.size(), rem = size-pos; const int sel = (uint64_t)st.a[1] % 4, small = amt % 60;
	const bool good = os.good(); const ios_base::iostate was = os.rdstate();
	Bytes e; char t [1024]; bool text = true, fmt = false, pieces = false;
	if (!size) probe(P_EMPTY); if (os.exceptions() != ios_base::allbadbits) probe(P_MASKED);
	#define TXT(...) { int k = snprintf(t,sizeof(t),__VA_ARGS__); e.append((uint8_t*)t,k); }
	switch (st.op) {
	    case T_write: { const int n = amt % 300; Bytes d; patfill(d,val,n); e = d; const void* src = arena_place(n,d.data()); TRY(c, if (sel & 1) os.write (cmemlink (src,n)); else os.write (src,n)); break; }
	    case T_char: e.push('a'+small % 26); TRY(c, if (sel & 1) os << char('a'+small % 26); else os.put ('a'+small % 26)); break;
	    case T_int: { fmt = true; char f [32]; mkfmt(f,width,zero,fl,-1,sel == 0 ? "d" : sel == 1 ? "u" : sel == 2 ? "hd" : "lld");
		TXT(f,sel == 3 ? (long long)val : sel == 2 ? (long long)(short)val : (long long)(int)val) TRY(c, switch (sel) { case 0: os << (int)val; break; case 1: os << (unsigned)val; break; case 2: os << (short)val; break; default: os << (long long)val; }); break; }
	    case T_double: { fmt = true; double v = val & 64 ? anydouble(val >> 7) : (double)(int64_t)(val % 100000000)*7.25; char f [32]; mkfmt(f,width,zero,fl,prec,"f"); TXT(f,v) if (sel & 1) TRY(c, os << v); else TRY(c, os << (float)v); if (!(sel & 1)) { e.clear(); TXT(f,(double)(float)v) } break; }
	    case T_flags: { const ios_base::fmtflags_bits B [] = { ios_base::left, ios_base::showpos, ios_base::showbase, ios_base::hex, ios_base::uppercase, ios_base::scientific, ios_base::dec, ios_base::oct };
		const ios_base::fmtflags_bits b1 = B[small % 8]; if (sel == 3) { fl = 0; prec = val % 12; TRY(c, os.flags (0); os.precision (prec)); } else if (b1 == ios_base::dec || b1 == ios_base::oct || (b1 == ios_base::hex && sel == 1)) { TRY(c, os.setf (b1,ios_base::basefield)); fl = (fl & ~ios_base::basefield) | b1; } else { TRY(c, os.setf (b1)); fl |= b1; } continue; }
	    case T_num: { char f [32]; const int ty = small % 11; fmt = ty < 8;
		static const char* const F [] = { "ld","lu","hu","llu","u","d","Lf","lf" };
		mkfmt(f,width,zero,fl,ty == 6 || ty == 7 ? prec : -1,F[ty < 8 ? ty : 0]);
		const long double ld = val & 64 ? (long double)anydouble(val >> 7)*(val & 128 ? 1e40L : 1-1e-18L) : (long double)(int64_t)(val % 10000000)*0.3125L - 40000; const double d = val & 64 ? anydouble(val >> 7) : (double)(int64_t)(val >> 3)*-0.125;
		switch (ty) {
		    case 0: TXT(f,(long)(val-(1ull<<43))) TRY(c, os << (long)(val-(1ull<<43))); break;
		    case 1: TXT(f,(unsigned long)val) TRY(c, os << (unsigned long)val); break;
		    case 2: TXT(f,(unsigned)(unsigned short)val) TRY(c, os << (unsigned short)val); break;
		    case 3: TXT(f,(unsigned long long)val*77) TRY(c, os << (unsigned long long)val*77); break;
		    case 4: TXT(f,(unsigned)val) TRY(c, os << (unsigned)val); break;
		    case 5: TXT(f,-(int)(val % 99999)) TRY(c, os << -(int)(val % 99999)); break;
		    case 6: TXT(f,ld) TRY(c, os << ld); break;
		    case 7: TXT(f,d) TRY(c, os << d); break;
		    case 8: e.push((uint8_t)(' '+val % 90)); TRY(c, os << (unsigned char)(' '+val % 90)); break;
		    case 9: e.push((uint8_t)(128+val % 90)); TRY(c, os << (signed char)(128+val % 90)); break;
		    default: { const uint8_t* u = (const uint8_t*)"unsigned text"; e.append(u,13); TRY(c, os.iwrite (u)); break; }
		}
		break; }
	    case T_manip: { const ios_base::fmtflags_bits B [] = { ios_base::left, ios_base::showpos, ios_base::showbase, ios_base::hex, ios_base::uppercase, ios_base::scientific, ios_base::dec, ios_base::oct, ios_base::fixed, ios_base::right, ios_base::boolalpha };
		const ios_base::fmtflags_bits b1 = B[val % 11]; const int w = (int)(amt % 27);
		switch (small % 12) {
		    case 0: TRY(c, os << setw (w)); width = w; break;
		    case 1: TRY(c, os << ios::width (w)); width = w; break;
		    case 2: zero = val & 1; TRY(c, os << setfill (zero ? '0' : ' ')); break;
		    case 3: prec = w; TRY(c, os << setprecision (w)); break;
		    case 4: TRY(c, os << setiosflags (b1)); fl |= b1; break;
		    case 5: TRY(c, os << resetiosflags (b1)); fl &= ~b1; break;
		    case 6: case 7: case 8: { TRY(c, os << b1); const uint32_t g = (b1 & ios_base::basefield) ? ios_base::basefield : (b1 & ios_base::floatfield) ? ios_base::floatfield : (b1 & ios_base::adjustfield) ? ios_base::adjustfield : 0; fl = (fl & ~g) | b1; break; }
		    case 9: { const int bs = sel == 0 ? 8 : sel == 1 ? 16 : 10; TRY(c, os << ios::base (bs)); fl = (fl & ~ios_base::basefield) | (bs == 8 ? ios_base::oct : bs == 16 ? ios_base::hex : ios_base::dec); break; }
		    case 10: TRY(c, os.unsetf (b1)); fl &= ~b1; break;
		    default: TRY(c, os.set_width (w+700)); if (os.width() != w+700) bad("wrong-state","width after it was set",os.width(),w+700); TRY(c, os.set_width (w); os.set_precision (val % 9)); width = w; prec = val % 9; break;
		}
		if (c.kind) bad("spurious-failure","a manipulator threw",c.kind);
		if (os.flags() != fl || os.width() != width || os.precision() != prec || (os.fill() == '0') != zero) bad("wrong-state","format after a manipulator",os.flags(),fl);
		if (os.pos() != pos) bad("wrong-position","a manipulator wrote text",os.pos(),pos);
		continue; }
	    case T_group: { // a value written in pieces
		char f [32]; mkfmt(f,width,zero,fl,-1,"d"); const int n = small % 7; fmt = true; pieces = true;
		#define NUMT(x) { char n_ [64]; const int l_ = snprintf(n_,sizeof(n_),f,(int)(x)); e.append((uint8_t*)n_,l_); }
		#define LISTT(cnt,expr) { e.push('('); for (int i = 0; i < (int)(cnt); ++i) { if (i) e.push(','); expr; } e.push(')'); }
		#define STRT(s_) { const char* q_ = (s_); e.append((const uint8_t*)q_,strlen(q_)); }
		switch (sel + 4*((val >> 32) % 5)) {
		    case 4: { array<int,5> v; for (int i = 0; i < 5; ++i) v[i] = (int)(val-i*1234); LISTT(5,NUMT(v[i])) TRY(c, os << v); break; }
		    case 5: { tuple<3,int> v; for (int i = 0; i < 3; ++i) v[i] = (int)(val^(i*99)); LISTT(3,NUMT(v[i])) TRY(c, os << v); break; }
		    case 6: { bitset<37> v; for (int i = 0; i < 37; ++i) v.set (i,(val >> i) & 1); for (int i = 37; i--;) e.push(((val >> i) & 1) ? '1' : '0'); TRY(c, os << v); break; }
		    case 7: { matrix<3,2,int> v; for (int i = 0; i < 6; ++i) v.begin()[i] = (int)(val+i*31); e.push('('); for (int y = 0; y < 2; ++y) { LISTT(3,NUMT(v.begin()[y*3+i])) } e.push(')'); TRY(c, os << v); break; }
		    case 8: { map<int,string> v; static const char* const W [] = { "", "one", "a longer piece of text", "x" }; { HxScope hx; for (int i = 0; i < n; ++i) v[i*3-4] = W[(val >> i) & 3]; } LISTT(n,{ e.push('('); NUMT(i*3-4) e.push(','); STRT(W[(val >> i) & 3]) e.push(')'); }) TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 9: { set<int> v; { HxScope hx; for (int i = n; i--;) v.insert (i*i); } LISTT(n,NUMT(i*i)) TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 10: { vector<vector<int> > v; { HxScope hx; v.resize (n); for (int i = 0; i < n; ++i) for (int q = 0; q < i % 3; ++q) v[i].push_back (q-i); } LISTT(n,{ const int o_ = i; LISTT(o_ % 3,NUMT(i-o_)) }) TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 11: { vector<uint8_t> v; { HxScope hx; for (int i = 0; i < n; ++i) v.push_back ((uint8_t)(val >> i*5)); } LISTT(n,{ char n_ [16]; snprintf(n_,sizeof(n_),v[i] >= ' ' && v[i] < 127 ? "'%c'" : "%d",v[i]); STRT(n_) }) TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 12: { list<string> v; static const char* const W [] = { "", "two", "some other text of length", "y" }; { HxScope hx; for (int i = 0; i < n; ++i) v.push_back (W[(val >> i) & 3]); } LISTT(n,STRT(W[(val >> i) & 3])) TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 13: { pair<string,pair<int,bool> > v; { HxScope hx; v.first = "name"; v.second = make_pair ((int)val,bool(val & 64)); } STRT("(name,(") NUMT((int)val) STRT(val & 64 ? ",true))" : ",false))") TRY(c, os << v); HxScope hx; v.first.deallocate(); break; }
		    case 14: { const int q = val % 4; STRT(q == 0 ? "2/3" : q == 1 ? "-5/7" : q == 2 ? "1/1000000000" : "0/1") TRY(c, if (q == 0) os << ratio<14,21>(); else if (q == 1) os << ratio<25,-35>(); else if (q == 2) os << nano(); else os << ratio<0,9>()); break; }
		    case 15: { vector<int8_t> v; { HxScope hx; for (int i = 0; i < n; ++i) v.push_back ((int8_t)(val >> i*5)); } LISTT(n,{ char n_ [16]; snprintf(n_,sizeof(n_),v[i] >= ' ' && v[i] < 127 ? "'%c'" : "%d",v[i]); STRT(n_) }) TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 0: case 16: { vector<int> v; { HxScope hx; for (int i = 0; i < n; ++i) v.push_back ((int)(val+i*777)); } e.push('('); for (int i = 0; i < n; ++i) { if (i) e.push(','); NUMT(v[i]) } e.push(')'); TRY(c, os << v); HxScope hx; v.deallocate(); break; }
		    case 1: case 17: { pair<int,int> v ((int)val,-(int)(val % 1000)); e.push('('); NUMT(v.first) e.push(','); NUMT(v.second) e.push(')'); TRY(c, os << v); break; }
		    case 2: case 18: { Bytes d; patfill(d,val,n*3); cmemlink l (d.data(),n*3); e = d; TRY(c, os << l); break; }
		    default: { istream in (zplaceof(val,n),n); in.seek (n/2); for (int i = n/2; i < n; ++i) e.push((uint8_t)('a'+(i+val) % 26)); TRY(c, in.text_write (os)); break; }
		}
		break; }
	    case T_form: {
		switch (small % 5) {
		    case 0: { static uint8_t tmp [64]; ostream o (tmp,sizeof(tmp)); for (int i = 0; i < small; ++i) o << uint8_t('a'+(i+val) % 26); e.append(tmp,small); TRY(c, o.text_write (os)); break; }
		    case 1: e.push('\n'); TRY(c, os << endl); break;
		    case 2: e.push(0); TRY(c, os << ends); break;
		    case 3: { fmt = true; char f [32]; mkfmt(f,width,zero,fl,-1,"lu"); const void* x = (const void*)val; TXT(f,(unsigned long)val) TRY(c, os << x); break; }
		    default: { text = false; string s; { HxScope hx; s.resize (small); for (int i = 0; i < small; ++i) s[i] = 'A'+(i+val) % 50; } TRY(c, os.str (s)); if (!c.kind) { cont.clear(); cont.append((uint8_t*)s.begin(),small); if (os.str() != s) bad("wrong-text","text given to str",os.pos(),small); } HxScope hx; s.deallocate(); break; }
		}
		break; }
	    case T_bool: { TXT("%s",val & 1 ? "true" : "false") TRY(c, os << bool(val & 1)); break; }
	    case T_wchar: { const wchar_t w = (wchar_t)(1 + val % 0xFFFF); { HxScope hx; static char tmp [16]; *utf8out (tmp) = w; e.append((uint8_t*)tmp,Utf8Bytes (w)); } TRY(c, os << w); break; }
	    case T_format: { fmt = true; TXT("<%*s|%u|%-*d>",small*5,"text",(unsigned)val,(int)(val % 40),(int)amt) TRY(c, os.format ("<%*s|%u|%-*d>",small*5,"text",(unsigned)val,(int)(val % 40),(int)amt)); break; }
	    case T_object: { string s; { HxScope hx; s.resize (small); for (int i = 0; i < small; ++i) s[i] = 'A'+i; } e.append((uint8_t*)s.begin(),small); TRY(c, if (sel & 1) os << s; else os << s.c_str()); break; }
	    case T_seekp: { text = false; uint64_t np = sel == 3 ? pos-hmin<uint64_t>(pos,small) : sel == 0 ? amt : sel == 1 ? pos+amt : size-amt; if (np > pos && np <= size) { continue; } TRY(c, if (sel == 3) os.seekp (-(off_t)hmin<uint64_t>(pos,small),ios_base::cur); else os.seekp (st.a[0],sel == 0 ? ios_base::beg : sel == 1 ? ios_base::cur : ios_base::end));
		if (np <= size) { if (os.pos() != np) bad("wrong-position","after seekp",os.pos(),np); cont.setn(np); } else { probe(P_REFUSED); if (!os.fail()) bad("unreported","seeking outside was not reported"); if (os.pos() != pos) bad("wrong-position","a refused seek moved the position",os.pos(),pos); } break; }
	    case T_flush: text = false; TRY(c, if (sel & 1) os << flush; else os.flush()); break;
	    case T_str: { text = false; const string* s = 0; TRY(c, s = &os.str()); if (!c.kind && (s->size() != pos || memcmp(s->begin(),cont.data(),pos))) bad("wrong-text","str()",s->size(),pos); break; }
	    case T_mask: TRY(c, os.exceptions (MASKS[sel])); continue;
	    case T_state: TRY(c, os.clear (sel & 1 ? ios_base::failbit : ios_base::goodbit)); continue;
	    case T_width: { width = small % 30; zero = sel & 1; TRY(c, os.width (width); os.fill (zero ? '0' : ' ')); continue; }
	    case T_link: { if (blocks >= 3 || sel > 1) continue; if (!grown) { b->front(); } b = &g_b[blocks++]; b->make(small); grown = false; TRY(c, memlink l (b->p,b->n); if (sel) os.link (l); else os.link (b->p,b->n)); cont.clear(); if (os.pos() || os.size() != b->n) bad("wrong-position","after linking to another block",os.pos(),0); continue; }
	}
	if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed"); }
	else if (c.kind && c.kind != TH_BOUNDS) bad("wrong-exception","threw something else",c.kind);
	if (os.pos() > os.size()) { bad("bad-position","the position is outside the block",os.pos(),os.size()); return; }
	if (os.remaining() != os.size()-os.pos()) bad("wrong-count","remaining()",os.remaining(),os.size()-os.pos());
	if ((uint8_t*)os.begin() != b->p && b->n) { if (!grown) probe(P_GREW); grown = true; }
	if (text) {
	    const size_t is = os.pos(), k = is >= pos ? is-pos : 0;
	    if (is < pos || k > e.size()) { bad("wrong-position","after writing text",is,pos+e.size()); return; }
	    if (pieces && k < e.size()) cont.append((uint8_t*)os.begin()+pos,k); else cont.append(e.data(),k);
	    const bool room = e.size() + (fmt ? 1 : 0) <= rem;	// formatting needs space for its terminator
	    if (k < e.size()) {
		if (room && !c.kind) bad("lost-text","text that fits was cut",k,e.size());
		if (!c.kind && !os.fail()) bad("unreported","text was cut without setting failbit",k,e.size());
		if (good && !sim.allocfailed && c.kind != TH_BOUNDS) bad("lost-text","text was cut although memory was available",k,e.size());
		if (k) probe(P_CUT); else probe(P_REFUSED);
	    } else { if (c.kind == TH_BOUNDS) bad("spurious-failure","text that was accepted threw"); if (good && !sim.allocfailed && os.rdstate() != was) bad("spurious-failure","text that was accepted set the failure state",os.rdstate(),was); if (is == size) probe(P_EXACT); if (fmt && k && is+1 == size) probe(P_TERM); }
	    if (c.kind == TH_BOUNDS) probe(P_THREW);
	}
	if (os.pos() != cont.size()) { bad("wrong-position","position",os.pos(),cont.size()); return; }
	if (cont.size() && memcmp(os.begin(),cont.data(),cont.size())) { bad("changed","the text accepted so far",cont.size()); return; }
	b->front();
    }
    LIB(os.~ostringstream());
}
void exec(const Plan& p) { bt_config(2,0); if (p.cfg[C_KIND]) exec_text(p); else exec_bin(p); sim.step = 0; what = "end"; for (int i = 0; i < 3; ++i) if (g_b[i].m) g_b[i].front(); arena_check_leaks("D02","after the stream is gone"); }
const Scenario SC = { "fix", "D02", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&SC);
}
