// Strings asked about their text: wherever it lies, however it came there, and while allocations fail.
#include "common.h"
#include <stdio.h>
#include <stdlib.h>
#include "stredit.h"
using namespace ustl;

namespace {
#define OPLIST(X) \
    X(set) X(link) X(literal) X(copy) X(sub) X(edit) X(grow) X(forms) X(utf8) \
    X(find_c) X(find_s) X(find_p) X(find_near) X(rfind_c) X(rfind_s) X(rfind_p) X(first_of) X(first_not_of) X(last_of) X(last_not_of) \
    X(compare) X(relation) X(relation_p) X(relation_c) X(get) X(substr) X(plus) X(hash) X(iterate) X(number) X(to_text) \
    X(w_walk) X(w_at) X(w_dist) X(w_convert) X(w_encode) X(fixed)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_BIG, C_NOMEM, N_CFG };
const char* const CFG [N_CFG] = { "largest_size", "fail_rate" };
enum { P_FOUND, P_MISSED, P_OVERLAP, P_LINKED, P_EQUAL, P_PREFIX, P_HIGH, P_FAILED, P_WIDE, P_LONGCHAR, P_EMPTY, P_NUMBER, P_OWN, N_PROBES };
const char* const PROBES [N_PROBES] = { "found","not_found","periodic_pattern","unterminated_text","equal_texts","one_is_a_prefix","bytes_above_127","query_failed_for_memory","wide_text","long_characters","empty_text","number_parsed","own_text_appended_or_assigned" };
enum { NS = 4 };
struct World { string* s [NS]; Bytes b [NS]; bool term [NS]; };
World* W;

void enc(Bytes& b, uint32_t c)
{
    if (c < 0x80) { b.push((uint8_t)c); return; }
    static const uint32_t lim [] = { 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
    int n = 2; while (n < 6 && c >= lim[n]) ++n;
    b.push((uint8_t)((0xFF00>>n) | (c >> 6*(n-1))));
    for (int k = n-2; k >= 0; --k) b.push(0x80 | (c >> 6*k & 63));
}
uint32_t wch(int64_t id, size_t i)
{
    static const uint32_t t [] = { 'x', 'a', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff };
    const unsigned n = (id & 1) ? 18 : 13; const uint32_t c = t[pat((uint32_t)id,i) % n];
    if (c >= 0x200000) probe(P_LONGCHAR);
    return c;
}
// text of n bytes, of a kind given by id
void gentext(int64_t id, size_t n, Bytes& t)
{
    t.setn(n);
    for (size_t i = 0; i < n; ++i) {
	const uint8_t x = pat((uint32_t)id,i);
	switch (id % 7) {
	    case 0: t[i] = 'a' + x % 2; break;
	    case 1: { const size_t q = i % (2 + id/7%3); t[i] = 'a' + (q ? pat((uint32_t)id,q) % 2 : 0); break; }
	    case 2: t[i] = x; break;
	    case 3: t[i] = (uint8_t)(0x7e + x % 4); break;
	    case 4: t[i] = i+1 == n ? 'b' : 'a'; break;
	    case 5: t[i] = 'a' + x % 5; break;
	    default: t[i] = (uint8_t)(x % 3 ? 'a' : x % 2 ? 0 : 0xFF); break;
	}
    }
    if (id % 7 == 1) probe(P_OVERLAP);
    if (id % 7 == 2 || id % 7 == 3) probe(P_HIGH);
}
const char* roplace(const Bytes& t) { char* p = (char*)arena_place(t.size(),t.data()); if (t.size()) arena_protect_ro(p); return p; }
const char* zplace(Bytes& t) { for (size_t i = 0; i < t.size(); ++i) if (!t[i]) t[i] = 1; Bytes z (t); z.push(0); return roplace(z); }

void gen(Rng& r, Plan& p, bool faults)
{
    const int64_t big = r.chance(12) ? 90000 : r.chance(60) ? 5000 : r.chance(300) ? 200 : r.chance(500) ? 40 : 8;
    p.cfg[C_BIG] = big;
    const unsigned rate = faults ? 350 : 0; p.cfg[C_NOMEM] = rate;
    const int n = 6 + (int)r.skewed(40);
    const unsigned wide = r.chance(350) ? 1 + r.below(3) : 0;
    for (int i = 0; i < n; ++i) {
	int op; const unsigned k = r.below(10);
	if (i < 3 || k < 3) op = r.below(OP_utf8+1);
	else if (k < 3+wide) op = r.chance(350) ? OP_utf8 : OP_w_walk + r.below(5);
	else op = OP_find_c + r.below(N_OPS-OP_find_c);
	if (wide && op < OP_utf8 && r.chance(500)) op = OP_utf8;
	Step& st = p.add(op,r.below(NS),big > 65536 && r.chance(300) ? 65500 + r.below(24000) : r.skewed(big),r.skewed(big),r.below(1000),r.below(NS),r.below(60));
	if (rate && r.chance(rate)) addfault(st,F_ALLOC,(int)r.skewed(2),r.chance(400) ? 1000 : 1 + (int)r.skewed(2),0);
    }
}
int sgn(int v) { return v < 0 ? -1 : v > 0; }
int cmp(const uint8_t* a, size_t n, const uint8_t* b, size_t m)
{
    const size_t k = hmin(n,m);
    for (size_t i = 0; i < k; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return n < m ? -1 : n > m;
}
size_t mfind(const Bytes& h, const Bytes& x, size_t pos)
{
    for (size_t i = pos; i < h.size() && i + x.size() <= h.size(); ++i) if (!memcmp(h.data()+i,x.data(),x.size())) return i;
    return string::npos;
}
size_t mrfind(const Bytes& h, const Bytes& x, size_t pos)	// the last that lies before pos
{
    const size_t e = hmin(pos,h.size());
    if (x.size() > e) return string::npos;
    for (size_t i = e - x.size() + 1; i--;) if (!memcmp(h.data()+i,x.data(),x.size())) return i;
    return string::npos;
}
bool in(const Bytes& x, uint8_t c) { for (size_t i = 0; i < x.size(); ++i) if (x[i] == c) return true; return false; }
size_t mfirst(const Bytes& h, const Bytes& x, size_t pos, bool want) { for (size_t i = pos; i < h.size(); ++i) if (in(x,h[i]) == want) return i; return string::npos; }
size_t mlast(const Bytes& h, const Bytes& x, size_t pos, bool want) { for (size_t i = pos < h.size() ? pos+1 : h.size(); i--;) if (in(x,h[i]) == want) return i; return string::npos; }

void verify(void)
{
    for (int i = 0; i < NS; ++i) {
	const string& s = *W->s[i]; const Bytes& b = W->b[i];
	if (s.size() != b.size() || (b.size() && memcmp(s.c_str(),b.data(),b.size()))) sim_fail("M06","text-changed","string %d does not hold its text after a query",i);
	if (W->term[i] && s.c_str()[s.size()]) sim_fail("M06","text-changed","string %d is no longer terminated",i);
    }
}
Caught c;
const char* g_q; size_t g_p;
void chk(uint64_t got, uint64_t want)
{
    if (c.kind != TH_NONE) return;
    probe(want == (uint64_t)string::npos ? P_MISSED : P_FOUND);
    if (got != want) sim_fail("M06","wrong-answer","%s (at %llu) answered %lld, the text says %lld",g_q,(unsigned long long)g_p,(long long)got,(long long)want);
}
#define ASK(q, e, want) do { g_q = q; uint64_t _r = 0; TRY(c, _r = (uint64_t)(e)); chk(_r,(uint64_t)(want)); } while (false)
void same(const string& r, const Bytes& want)
{
    if (c.kind != TH_NONE) return;
    if (r.size() != want.size() || (want.size() && memcmp(r.c_str(),want.data(),want.size()))) sim_fail("M06","wrong-answer","%s gave a text of %llu bytes, expected %llu, or other text",g_q,(unsigned long long)r.size(),(unsigned long long)want.size());
    if (!r.c_str() || r.c_str()[r.size()]) sim_fail("M06","wrong-answer","%s gave an unterminated text",g_q);
}
// a needle: part of a text, text of its own, or a damaged part
void needle(const Bytes& h, size_t n1, size_t n2, int64_t id, int64_t a5, Bytes& x)
{
    x.clear();
    if (id & 8) { gentext(id/16,1 + n2 % 9,x); return; }
    if (h.size()) { const size_t f = n1 % h.size(), l = 1 + n2 % hmin<size_t>(h.size()-f,12); x.append(h.data()+f,l); }
    if (x.size() && (id & 48) == 48) x[(size_t)a5 % x.size()] ^= 1;
    if (x.empty()) x.push('a');
}
struct Decoded { Vec<uint32_t> c; Vec<size_t> at; };
bool decode(const Bytes& b, Decoded& d)		// false if the text is not proper UTF-8
{
    for (size_t i = 0; i < b.size();) {
	const uint8_t h = b[i]; int n = h < 0x80 ? 1 : h < 0xC0 ? 0 : h < 0xE0 ? 2 : h < 0xF0 ? 3 : h < 0xF8 ? 4 : h < 0xFC ? 5 : h < 0xFE ? 6 : 0;
	if (!n || i + n > b.size()) return false;
	uint32_t v = n == 1 ? h : h & (0xFF>>(n+1));
	for (int k = 1; k < n; ++k) { if ((b[i+k] & 0xC0) != 0x80) return false; v = v<<6 | (b[i+k] & 63); }
	Bytes e; enc(e,v); if (e.size() != (size_t)n) return false;
	d.c.push(v); d.at.push(i); i += n;
    }
    return true;
}

void query(int op, const int64_t* a)
{
    const size_t n1 = (size_t)hmin<int64_t>(hmax<int64_t>(a[1],0),100000), n2 = (size_t)hmin<int64_t>(hmax<int64_t>(a[2],0),100000), a5 = (size_t)hmax<int64_t>(a[5],0);
    const int64_t id = hmax<int64_t>(a[3],0); const int i = (int)((uint64_t)a[0] % NS), j = (int)((uint64_t)a[4] % NS);
    string& s = *W->s[i]; Bytes& b = W->b[i]; const string& s2 = *W->s[j]; const Bytes& b2 = W->b[j];
    Bytes t, x;
    size_t pos = n1 % (b.size()+2); if (id % 5 == 0) pos = string::npos; g_p = pos;
    const char ch = b.size() && (id & 1) ? (char)b[n2 % b.size()] : (char)pat((uint32_t)id,7); Bytes xc; xc.push((uint8_t)ch);
    if (op > OP_utf8 && !W->term[i] && b.size()) probe(P_LINKED);
    if (op > OP_utf8 && b.empty()) probe(P_EMPTY);
    switch (op) {
	case OP_set: { gentext(id,n1,t); const char* p = roplace(t); if (id & 1) { TRY(c, string n (p,n1); s.swap(n)); } else TRY(c, s.assign(p,p+n1)); if (c.kind == TH_NONE) { b = t; W->term[i] = true; } break; }
	case OP_link: { gentext(id,n1,t); const char* p = roplace(t); LIB(s.deallocate()); LIB(s.link(p,n1)); b = t; W->term[i] = false; break; }
	case OP_literal: { gentext(id,n1,t); const char* p = zplace(t); TRY(c, string n (p); s.swap(n)); if (c.kind == TH_NONE) { b = t; W->term[i] = true; } break; }
	case OP_copy: { if (i == j) { TRY(c, s = s2); if (c.kind == TH_NONE) W->term[i] = true; break; } if (id & 1) { if (!W->term[j]) return; TRY(c, string n (s2); s.swap(n)); } else TRY(c, s = s2); if (c.kind == TH_NONE) { b = b2; W->term[i] = true; } break; }
	case OP_sub: { if (!b2.size()) return; if (i == j) probe(P_OWN); const size_t f = n1 % b2.size(), l = hmin(n2,b2.size()-f); t.append(b2.data()+f,l); TRY(c, s.assign(s2,f,l)); if (c.kind == TH_NONE) { b = t; W->term[i] = true; } break; }
	case OP_edit: { if (!b.size()) return; const size_t f = n1 % b.size(); TRY(c, s.replace(s.iat(f),s.iat(f+1),1,ch)); if (c.kind == TH_NONE) { b[f] = (uint8_t)ch; W->term[i] = true; } break; }
	case OP_grow: { if (b.size() > 10000) return;
	    if ((id & 12) == 12 && b2.size()) {	// with a text, which may be its own
		const size_t f = n1 % b2.size(); size_t l = hmin(n2,b2.size()-f); if (i == j) probe(P_OWN);
		switch (id % 5) {
		    case 0: l = b2.size(); t.append(b2.data(),l); TRY(c, s += s2); break;
		    case 1: l = b2.size(); t.append(b2.data(),l); TRY(c, s.append(s2)); break;
		    case 2: t.append(b2.data()+f,l); TRY(c, s.append(s2.iat(f),s2.iat(f+l))); break;
		    case 3: t.append(b2.data()+f,l); TRY(c, s.append(s2,f,l)); break;
		    default: t.append(b2.data()+f,l); TRY(c, s.append(s2.c_str()+f,l)); break;
		}
		if (c.kind == TH_NONE) { b.append(t.data(),t.size()); W->term[i] = true; }
		break;
	    }
	    if (id & 2) TRY(c, s += ch); else TRY(c, s.append(1 + n2 % 9,ch)); if (c.kind == TH_NONE) { const size_t k = id & 2 ? 1 : 1 + n2 % 9; for (size_t q = 0; q < k; ++q) b.push((uint8_t)ch); W->term[i] = true; } break; }
	case OP_forms: {	// any way to edit
	    if (b.size() > 10000) return;
	    StrArgs e; gentext(id,n1,e.zb); e.zt = zplace(e.zb); gentext(id+1,n2 % 50,e.ub); e.ut = roplace(e.ub);
	    const size_t q = n2 % 10; Bytes wm; for (size_t z = 0; z <= q; ++z) { const wchar_t w = (wchar_t)wch(id,z); enc(e.wb,w); if (!z) enc(e.w1,w); wm.append((const uint8_t*)&w,sizeof(w)); }
	    const wchar_t w0 = 0; wm.append((const uint8_t*)&w0,sizeof(w0)); e.wt = (const wchar_t*)arena_place(wm.size(),wm.data()); e.wn = q+1;
	    e.o = &s2; e.ob = &b2; e.at = b.size() ? n1 % (b.size()+1) : 0; e.k = hmin(n2,b.size()-e.at);
	    e.of = b2.size() ? n2 % (b2.size()+1) : 0; e.ol = hmin(n1 % 60,b2.size()-e.of); e.n = a5 % 4; e.ch = ch; e.ro = s.is_linked();
	    Bytes want (b); size_t gp, wp;
	    if (!string_edit((int)((id/2+a[1]) % N_STREDITS),s,e,want,gp,wp,[&](auto&& f) { TRY(c, f()); })) return;
	    if (c.kind == TH_NONE) {
		if (gp != wp) sim_fail("M06","wrong-answer","the edit returned position %lld, expected %lld",(long long)gp,(long long)wp);
		if (!s.is_linked()) W->term[i] = true; else if (want.size() != b.size() || memcmp(want.data(),b.data(),b.size())) W->term[i] = false;
		b.swap(want);
	    }
	    break; }
	case OP_utf8: { for (size_t q = 0; q < n1 && t.size() < 4000; ++q) enc(t,wch(id,q)); const char* p = (id & 2) ? roplace(t) : zplace(t); if (id & 2) TRY(c, s.assign(p,t.size())); else TRY(c, string n (p); s.swap(n)); if (c.kind == TH_NONE) { b = t; W->term[i] = true; } break; }
	case OP_find_c: if (id & 2) ASK("find(char)",s.find(ch,pos),mfind(b,xc,pos)); else ASK("find(uchar)",s.find((unsigned char)ch,pos),mfind(b,xc,pos)); if (id & 4) ASK("find(char)",s.find(ch),mfind(b,xc,0)); break;
	case OP_rfind_c: if (id & 2) ASK("rfind(char)",s.rfind(ch,pos),mlast(b,xc,pos,true)); else ASK("rfind(uchar)",s.rfind((unsigned char)ch,pos),mlast(b,xc,pos,true)); if (id & 4) ASK("rfind(char)",s.rfind(ch),mlast(b,xc,string::npos,true)); break;
	case OP_find_s: case OP_rfind_s: {
	    const string* n = &s2; if (id & 3) { needle(b,n1,n2,id/4,a[5],x); } else x = b2;
	    if (x.empty()) return;
	    string own; if (id & 3) { roplace(x); own.link(roplace(x),x.size()); n = &own; }
	    if (op == OP_find_s) { ASK("find(string)",s.find(*n,pos),mfind(b,x,pos)); ASK("find(string)",s.find(*n),mfind(b,x,0)); }
	    else { ASK("rfind(string)",s.rfind(*n,pos),mrfind(b,x,pos)); ASK("rfind(string)",s.rfind(*n),mrfind(b,x,string::npos)); }
	    break; }
	case OP_find_near: {	// a text made of pieces of what is looked for, so that near misses overlap the matches
	    Rng r (((uint64_t)id*1009 + n1)*61 + a5); const size_t m = 1 + r.below(id & 1 ? 5 : 20); const unsigned let = 1 + r.below(4);
	    for (size_t q = 0; q < m; ++q) x.push((uint8_t)('a' + r.below(let)));
	    if (id & 2) x[m-1] = 'z';
	    for (int q = 2 + (int)r.below(8); q--;) {
		const size_t f = r.below((unsigned)m), l = 1 + r.below((unsigned)(m-f));
		switch (r.below(6)) { case 0: t.append(x.data(),m); break; case 1: t.append(x.data(),l); break; case 2: t.append(x.data()+m-l,l); break; case 3: t.push(x[m-1]); break; case 4: t.append(x.data()+f,l); break; default: t.push((uint8_t)('a' + r.below(let+1))); break; }
	    }
	    const size_t tp = r.chance(500) ? 0 : r.below((unsigned)t.size()+1); g_p = tp;
	    string h, nd; const char* z; if (id & 4) TRY(c, h.assign(z = roplace(t),z+t.size())); else LIB(h.link(roplace(t),t.size()));
	    if (c.kind != TH_NONE) break;
	    LIB(nd.link(roplace(x),m)); z = zplace(x);
	    ASK("find(string)",h.find(nd,tp),mfind(t,x,tp)); ASK("find(text)",h.find(z,tp),mfind(t,x,tp)); ASK("find(pointer,pos,n)",h.find(nd.begin(),tp,m),mfind(t,x,tp));
	    ASK("rfind(string)",h.rfind(nd),mrfind(t,x,string::npos));
	    break; }
	case OP_find_p: case OP_rfind_p: {
	    needle(b,n1,n2,id/4,a[5],x); const char* p = roplace(x);
	    if (op == OP_find_p) ASK("find(pointer,pos,n)",s.find(p,pos,x.size()),mfind(b,x,pos)); else ASK("rfind(pointer,pos,n)",s.rfind(p,pos,x.size()),mrfind(b,x,pos));
	    if (id & 3) { const char* z = zplace(x); if (op == OP_find_p) ASK("find(text)",s.find(z),mfind(b,x,0)); else ASK("rfind(text)",s.rfind(z),mrfind(b,x,string::npos)); }
	    break; }
	case OP_first_of: case OP_first_not_of: case OP_last_of: case OP_last_not_of: {
	    const bool want = op == OP_first_of || op == OP_last_of, first = op == OP_first_of || op == OP_first_not_of;
	    const int form = (int)(a5 % 5);
	    if (form == 0) x = b2; else if (form < 3) x = xc; else { needle(b,n1,n2,id/4,a[5],x); if (!(id & 1)) x.setn(x.size()/2); }
	    const size_t w = first ? mfirst(b,x,pos,want) : mlast(b,x,pos,want); const char* p = form == 3 ? roplace(x) : form == 4 ? zplace(x) : 0; const unsigned char uc = (unsigned char)ch;
	    const size_t w4 = first ? mfirst(b,x,pos,want) : mlast(b,x,pos,want);
	    switch (op*5 + form) {
#define FORMS(name) case OP_##name*5: ASK(#name "(string)",s.find_##name(s2,pos),w); break; case OP_##name*5+1: ASK(#name "(char)",s.find_##name(ch,pos),w); break; case OP_##name*5+2: ASK(#name "(uchar)",s.find_##name(uc,pos),w); break; \
		case OP_##name*5+3: ASK(#name "(pointer,pos,n)",s.find_##name(p,pos,x.size()),w); break; case OP_##name*5+4: ASK(#name "(text)",s.find_##name(p,pos),w4); break;
		FORMS(first_of) FORMS(first_not_of) FORMS(last_of) FORMS(last_not_of)
#undef FORMS
	    }
	    break; }
	case OP_compare: {
	    const size_t p1 = n1 % (b.size()+1), l1 = hmin<size_t>(n2 % 12,b.size()-p1), p2 = b2.size() ? (n2*7+a5) % (b2.size()+1) : 0, l2 = hmin<size_t>(a5 % 12,b2.size()-p2);
	    gentext(id,n1 % 20,x); if (id & 64) { x.clear(); x.append(b.data()+p1,l1); } const char* z = zplace(x);
#define CMP(q, e, want) do { g_q = q; int _r = 0; TRY(c, _r = (e)); const int _w = (want); if (!_w) probe(P_EQUAL); if (c.kind == TH_NONE && sgn(_r) != _w) sim_fail("M06","wrong-answer","%s answered %d, the texts compare %d",q,_r,_w); } while (false)
	    switch (id % 6) {
		case 0: CMP("compare(string)",s.compare(s2),cmp(b.data(),b.size(),b2.data(),b2.size())); break;
		case 1: CMP("compare(pos,n,string)",s.compare(p1,l1,s2),cmp(b.data()+p1,l1,b2.data(),b2.size())); break;
		case 2: CMP("compare(pos,n,string,pos,n)",s.compare(p1,l1,s2,p2,l2),cmp(b.data()+p1,l1,b2.data()+p2,l2)); break;
		case 3: CMP("compare(text)",s.compare(z),cmp(b.data(),b.size(),x.data(),x.size())); break;
		case 4: CMP("compare(pos,n,text)",s.compare(p1,l1,z),cmp(b.data()+p1,l1,x.data(),x.size())); break;
		default: CMP("compare(pos,n,text,n)",s.compare(p1,l1,z,x.size()/2),cmp(b.data()+p1,l1,x.data(),x.size()/2)); break;
	    }
	    if (id % 6 == 0 && i != j && b.size() < b2.size() && !memcmp(b.data(),b2.data(),b.size())) probe(P_PREFIX);
	    break; }
	case OP_relation: {
	    const int w = cmp(b.data(),b.size(),b2.data(),b2.size()); if (!w) probe(P_EQUAL);
	    const string& r = s;
	    ASK("==",r == s2,w == 0); ASK("!=",r != s2,w != 0); ASK("<",r < s2,w < 0); ASK(">",r > s2,w > 0); ASK("<=",r <= s2,w <= 0); ASK(">=",r >= s2,w >= 0);
	    ASK("block ==",static_cast<const cmemlink&>(r) == static_cast<const cmemlink&>(s2),w == 0);
	    break; }
	case OP_relation_p: {
	    if (id & 64) x = b; else gentext(id,n1 % 12,x); if (id & 128) x.setn(x.size()/2); const char* z = zplace(x);
	    if (!W->term[i]) return;
	    const string& r = s; const int w = cmp(b.data(),b.size(),x.data(),x.size()); if (!w) probe(P_EQUAL);
	    switch (id % 12) {
		case 0: ASK("== text",r == z,w == 0); break; case 1: ASK("!= text",r != z,w != 0); break; case 2: ASK("< text",r < z,w < 0); break;
		case 3: ASK("> text",r > z,w > 0); break; case 4: ASK("<= text",r <= z,w <= 0); break; case 5: ASK(">= text",r >= z,w >= 0); break;
		case 6: ASK("text ==",z == r,w == 0); break; case 7: ASK("text !=",z != r,w != 0); break; case 8: ASK("text <",z < r,w > 0); break;
		case 9: ASK("text >",z > r,w < 0); break; case 10: ASK("text <=",z <= r,w >= 0); break; default: ASK("text >=",z >= r,w <= 0); break;
	    }
	    break; }
	case OP_relation_c: {
	    if (!b.size() && !W->term[i]) return;
	    const string& r = s; const int w = cmp(b.data(),b.size(),xc.data(),1);
	    ASK("== char",r == ch,w == 0); ASK("!= char",r != ch,w != 0); ASK("== uchar",r == (unsigned char)ch,w == 0); ASK("!= uchar",r != (unsigned char)ch,w != 0); ASK("< char",r < ch,w < 0); ASK("< uchar",r < (unsigned char)ch,w < 0);
	    break; }
	case OP_get: {
	    if (id & 1) {
		const size_t p1 = n1 % (b.size()+1), l = 1 + n2 % 40, w = hmin(l,b.size()-p1); char* d = (char*)arena_place(l,0); memset(d,'#',l);
		ASK("copy",s.copy(d,l,p1),w); if (memcmp(d,b.data()+p1,w)) sim_fail("M06","wrong-answer","copy delivered other bytes"); for (size_t k = w; k < l; ++k) if (d[k] != '#') sim_fail("M06","wrong-answer","copy wrote more than it reported");
		const size_t l2 = 2 + n2 % 40, w2 = hmin(l2-1,b.size()-p1); char* e = (char*)arena_place(l2,0); memset(e,'#',l2);
		ASK("copyto",s.copyto(e,l2,p1),w2); if (memcmp(e,b.data()+p1,w2) || e[w2]) sim_fail("M06","wrong-answer","copyto delivered other bytes");
	    } else if (b.size()) {
		const size_t p1 = n1 % b.size(); const string& r = s;
		ASK("at",(uint8_t)r.at(p1),b[p1]); ASK("[]",(uint8_t)(W->term[i] ? r[p1] : r.begin()[p1]),b[p1]); ASK("front",(uint8_t)r.front(),b[0]); ASK("back",(uint8_t)r.back(),b[b.size()-1]);
		ASK("size",r.size(),b.size()); ASK("empty",r.empty(),0); ASK("iat",r.iat(pos)-r.begin(),hmin(pos,b.size()));
		if (b.size()) { ASK("at of a variable string",(uint8_t)s.at(p1),b[p1]); ASK("front of a variable string",(uint8_t)s.front(),b[0]); ASK("back of a variable string",(uint8_t)s.back(),b[b.size()-1]); ASK("iat of a variable string",s.iat(p1)-s.begin(),p1); }
		ASK("data",r.data()-r.begin(),0); ASK("c_str",r.c_str()-r.begin(),0); ASK("size up to the capacity",r.capacity() && r.capacity() < r.size(),0); ASK("max_size",r.capacity() && r.max_size() < r.capacity(),0);
	    } else { ASK("empty",s.empty(),1); ASK("size",s.size(),0); ASK("length",s.begin() ? s.end()-s.begin() : 0,0); }
	    break; }
	case OP_substr: {
	    const size_t p1 = n1 % (b.size()+2), l = (id & 1) ? (size_t)string::npos : n2; if (p1 < b.size()) x.append(b.data()+p1,hmin(l,b.size()-p1));
	    g_q = "substr"; if (id & 2) TRY(c, same(s.substr(p1,l),x)); else { g_q = "string(string,pos,n)"; TRY(c, same(string(s,p1,l),x)); }
	    break; }
	case OP_plus: {
	    if (!W->term[i] || b.size() + b2.size() > 20000) return;
	    switch (id % 3) {
		case 0: g_q = "string + string"; x = b; x.append(b2.data(),b2.size()); TRY(c, same(s + s2,x)); break;
		case 1: { g_q = "text + string"; gentext(id,n1 % 30,x); const char* z = zplace(x); x.append(b.data(),b.size()); TRY(c, same(z + s,x)); break; }
		default: { g_q = "string + text"; gentext(id,n1 % 30,t); const char* z = zplace(t); x = b; x.append(t.data(),t.size()); TRY(c, same(s + z,x)); break; }
	    }
	    break; }
	case OP_hash: {
	    const char* p = roplace(b); hashvalue_t h1 = 0; TRY(c, h1 = string::hash(s.begin(),s.end())); ASK("hash",string::hash(p,p+b.size()),h1); ASK("hash_value",hash_value(s.begin(),s.end()),h1);
	    bool nul = false; for (size_t q = 0; q < b.size(); ++q) nul |= !b[q];
	    if (!nul) { Bytes y (b); const char* z = zplace(y); ASK("hash_value(text)",hash_value(z),h1); }
	    break; }
	case OP_iterate: {
	    const string& r = s; size_t k = 0; bool bad = false;
	    switch (id % 5) {
		case 3: LIB(for (string::const_iterator q = r.cbegin(); q != r.cend(); ++q, ++k) bad |= k >= b.size() || (uint8_t)*q != b[k]); break;
		case 4: LIB(for (string::const_reverse_iterator q = r.crbegin(); q != r.crend(); ++q, ++k) bad |= k >= b.size() || (uint8_t)*q != b[b.size()-1-k]); break;
		case 0: LIB(for (string::const_iterator q = r.begin(); q != r.end(); ++q, ++k) bad |= k >= b.size() || (uint8_t)*q != b[k]); break;
		case 1: LIB(for (string::const_reverse_iterator q = r.rbegin(); q != r.rend(); ++q, ++k) bad |= k >= b.size() || (uint8_t)*q != b[b.size()-1-k]); break;
		default: LIB(for (string::reverse_iterator q = s.rbegin(); q != s.rend(); ++q, ++k) bad |= k >= b.size() || (uint8_t)*q != b[b.size()-1-k]); break;
	    }
	    if (bad || k != b.size()) sim_fail("M06","wrong-answer","iterating visited %llu bytes of %llu, or other bytes",(unsigned long long)k,(unsigned long long)b.size());
	    break; }
	case OP_number: {
	    char d [64]; int l = 0; static const int bases [] = { 10, 16, 8, 2, 36, 0 }; const int base = bases[a5 % 6];
	    const int64_t v = (int64_t)pat((uint32_t)id,1) << (id % 56) ^ (int64_t)n1*(id-500);
	    if (id & 1) l = snprintf(d,64,"%s%lld%s",id & 2 ? "  " : "",(long long)v,id & 4 ? "x z" : id & 8 ? "e2" : ""); else l = snprintf(d,64,base == 16 ? "0x%llx." : "%.9g-",base == 16 ? (double)0 : v/1000.0);
	    if (!(id & 1) && base == 16) l = snprintf(d,64,"0x%llx.",(unsigned long long)v);
	    if (id % 50 == 3) l = snprintf(d,64,"none");
	    x.append((const uint8_t*)d,l); const char* z = zplace(x); size_t at = 0; char* e; const bool wi = id & 16; probe(P_NUMBER);
	    TRY(c, string n (z,(size_t)l); s.swap(n)); if (c.kind != TH_NONE) break;
	    b = x; W->term[i] = true;
	    switch (id/32 % 8) {
		case 0: { long w = strtol(z,&e,base); ASK("stoi",stoi(s,wi ? &at : 0,base),(int)w); break; } case 1: { long w = strtol(z,&e,base); ASK("stol",stol(s,wi ? &at : 0,base),w); break; }
		case 2: { unsigned long w = strtoul(z,&e,base); ASK("stoul",stoul(s,wi ? &at : 0,base),w); break; } case 3: { long long w = strtoll(z,&e,base); ASK("stoll",stoll(s,wi ? &at : 0,base),w); break; }
		case 4: { unsigned long long w = strtoull(z,&e,base); ASK("stoull",stoull(s,wi ? &at : 0,base),w); break; }
		case 5: { float w = strtof(z,&e); ASK("stof",stof(s,wi ? &at : 0) == w,1); break; } case 6: { double w = strtod(z,&e); ASK("stod",stod(s,wi ? &at : 0) == w,1); break; }
		default: { long double w = strtold(z,&e); ASK("stold",stold(s,wi ? &at : 0) == w,1); break; }
	    }
	    if (wi && c.kind == TH_NONE && at != (size_t)(e-z)) sim_fail("M06","wrong-answer","the number was said to end at %llu, it ends at %llu",(unsigned long long)at,(unsigned long long)(e-z));
	    break; }
	case OP_to_text: {
	    const long long v = ((long long)pat((uint32_t)id,1) << (id % 56)) * (id & 1 ? -1 : 1) + (long long)n1; const double f = (id-500) * (id & 2 ? 1e18 : 0.0371); char d [400]; int l = 0; g_q = "to_string";
	    string r;
#define TT(T, val, fmt) l = snprintf(d,400,fmt,(T)(val)); TRY(c, string q (to_string((T)(val))); r.swap(q)); break;
	    switch (a5 % 9) {
		case 0: TT(int,v,"%d") case 1: TT(unsigned,v,"%u") case 2: TT(long,v,"%ld") case 3: TT(unsigned long,v,"%lu") case 4: TT(long long,v,"%lld") case 5: TT(unsigned long long,v,"%llu") case 6: TT(float,f,"%f") case 7: TT(double,f,"%f") default: TT(long double,f,"%Lf")
	    }
	    x.append((const uint8_t*)d,l); same(r,x); LIB(r.deallocate());
	    break; }
	case OP_w_walk: case OP_w_at: case OP_w_dist: case OP_w_convert: {
	    if (op == OP_w_convert && b.size() > 20000) return;	// grows a character at a time, and memory is not reused
	    Decoded d; if (!W->term[i] || !decode(b,d)) return; probe(P_WIDE);
	    const string& r = s; const size_t m = d.c.size(), k = m ? n1 % (m+1) : 0, k2 = m ? n2 % (m+1) : 0;
	    if (op == OP_w_walk) {
		size_t q = 0; bool bad = false;
		LIB(for (string::utf8_iterator u = r.utf8_begin(); u < r.utf8_end() && q <= m; ++q) { if (q >= m || (uint32_t)*u != d.c[q] || (size_t)(u.base()-r.begin()) != d.at[q]) bad = true; if (id & 1) ++u; else u++; });
		if (bad || q != m) sim_fail("M06","wrong-answer","walking the characters visited %llu of %llu, or others",(unsigned long long)q,(unsigned long long)m);
		ASK("length",r.length(),m);
	    } else if (op == OP_w_at) {
		ASK("wiat",r.wiat(k)-r.begin(),k < m ? d.at[k] : b.size()); ASK("wiat",s.wiat(k2)-s.begin(),k2 < m ? d.at[k2] : b.size());
		uint32_t v = 0; if (k < m) { LIB(string::utf8_iterator u = r.utf8_begin(); if (id & 1) u += k; else u = u + k; v = (uint32_t)*u); if (v != d.c[k]) sim_fail("M06","wrong-answer","character %llu is %x, expected %x",(unsigned long long)k,v,d.c[k]); }
	    } else if (op == OP_w_dist) {
		const size_t lo = hmin(k,k2), hi = hmax(k,k2); ssize_t g = 0; bool eq = false, lt = false;
		LIB(string::utf8_iterator u = r.utf8_begin(), v = r.utf8_begin(); u += lo; v += hi; g = v - u; eq = u == v; lt = u < v);
		if (g != (ssize_t)(hi-lo)) sim_fail("M06","wrong-answer","characters %llu and %llu are said to be %lld apart",(unsigned long long)lo,(unsigned long long)hi,(long long)g);
		if (eq != (lo == hi) || lt != (lo < hi)) sim_fail("M06","wrong-answer","iterators at characters %llu and %llu compare wrongly",(unsigned long long)lo,(unsigned long long)hi);
		g = 0; LIB(string::utf8_iterator v = r.utf8_begin(); v += k; g = r.utf8_end() - v); if (g != (ssize_t)(m-k)) sim_fail("M06","wrong-answer","character %llu of %llu is said to be %lld from the end",(unsigned long long)k,(unsigned long long)m,(long long)g);
	    } else {
		vector<wchar_t> v; TRY(c, copy(utf8in(r.begin()),utf8in(r.end()),back_inserter(v)));
		if (c.kind == TH_NONE && (v.size() != m || (m && memcmp(v.begin(),d.c.data(),m*sizeof(wchar_t))))) sim_fail("M06","wrong-answer","copying out the characters gave %llu, expected %llu, or others",(unsigned long long)v.size(),(unsigned long long)m);
		if (c.kind == TH_NONE) {
		    ASK("Utf8Bytes",Utf8Bytes(v.begin(),v.end()),b.size());
		    string w; g_q = "utf8out"; TRY(c, copy(v,utf8out(back_inserter(w)))); if (c.kind == TH_NONE && w.size()) same(w,b);
		    LIB(w.deallocate());
		}
		LIB(v.deallocate());
	    }
	    break; }
	case OP_w_encode: {
	    const size_t m = n1 % 20; Vec<uint32_t> w; for (size_t q = 0; q < m; ++q) { w.push(wch(id,q)); enc(x,w[q]); }
	    const wchar_t* p = (const wchar_t*)arena_place(m*sizeof(wchar_t),w.data()); char* o = (char*)arena_place(x.size(),0); char* e = 0;
	    ASK("Utf8Bytes",Utf8Bytes(p,p+m),x.size());
	    LIB(utf8out_iterator<char*> u (o); for (size_t q = 0; q < m; ++q) { const utf8out_iterator<char*> o1 (u); if (!(o1 == u) || o1 < u) sim_fail("M06","wrong-answer","an output iterator differs from its copy"); if (q & 1) { *u++ = p[q]; } else { *u = p[q]; ++u; } if (o1 == u || !(o1 < u) || u < o1 || o1 != o1) sim_fail("M06","wrong-answer","an output iterator equals the one before it"); } e = u.base());
	    if (e != o+x.size() || (x.size() && memcmp(o,x.data(),x.size()))) sim_fail("M06","wrong-answer","encoding %llu characters wrote %lld bytes, expected %llu, or others",(unsigned long long)m,(long long)(e-o),(unsigned long long)x.size());
	    for (size_t q = 0; q < m; ++q) { Bytes y; enc(y,w[q]); ASK("Utf8Bytes",Utf8Bytes(p[q]),y.size()); ASK("Utf8SequenceBytes",Utf8SequenceBytes(y[0]),y.size()); }
	    break; }
	case OP_fixed: {	// a link to memory that it can not resize
	    gentext(id,n1 % 300,x); const size_t m = x.size(); char* p = (char*)arena_place(m,x.data()); const size_t at = m ? n2 % (m+1) : 0, k = m-at ? a5 % (m-at+1) : 0; if (!m) return;
	    memlink l; LIB(l.link((void*)p,m));
	    switch (id % 4) {
		case 0: { LIB(l.insert(l.begin()+at,k)); Bytes y; y.append(x.data(),at); for (size_t q = 0; q < k; ++q) y.push((uint8_t)p[at+q]); y.append(x.data()+at,m-at-k); if (memcmp(p,y.data(),m)) sim_fail("M06","wrong-answer","inserting %llu bytes at %llu of %llu moved the others wrongly",(unsigned long long)k,(unsigned long long)at,(unsigned long long)m); break; }
		case 1: { LIB(l.erase(l.begin()+at,k)); Bytes y; y.append(x.data(),at); y.append(x.data()+at+k,m-at-k); if (memcmp(p,y.data(),m-k)) sim_fail("M06","wrong-answer","erasing %llu bytes at %llu of %llu moved the others wrongly",(unsigned long long)k,(unsigned long long)at,(unsigned long long)m); break; }
		case 2: { const size_t z = 1 + a5 % 7, q = (m-at)/z; gentext(id+1,z,t); const char* f = roplace(t); LIB(l.fill(l.begin()+at,f,z,q)); for (size_t g = 0; g < q*z; ++g) x[at+g] = t[g%z]; if (memcmp(p,x.data(),m)) sim_fail("M06","wrong-answer","filling %llu times %llu bytes at %llu of %llu went wrong",(unsigned long long)q,(unsigned long long)z,(unsigned long long)at,(unsigned long long)m); break; }
		default: { memlink n; LIB(n.swap(l)); if (l.size() || n.size() != m || n.begin() != p) sim_fail("M06","wrong-answer","swap did not exchange the links"); LIB(l.link((const memlink&)n)); bool e = false; LIB(e = l == n); if (!e || memcmp(p,x.data(),m)) sim_fail("M06","wrong-answer","two links to one block differ"); break; }
	    }
	    break; }
    }
}
void exec(const Plan& p)
{
    static World w; W = &w;
    static char ms [NS][sizeof(string)] __attribute__((aligned(16)));
    for (int i = 0; i < NS; ++i) { LIB(w.s[i] = new (ms[i]) string); w.term[i] = true; }
    for (size_t i = 0; i < p.steps.size(); ++i) {
	step_begin(p,i); c.kind = TH_NONE;
	query(p.steps[i].op,p.steps[i].a);
	if (c.kind != TH_NONE) {
	    probe(P_FAILED);
	    if (c.kind != TH_ALLOC) sim_fail("M06","wrong-exception","%s threw %s %s",OPS[p.steps[i].op],thname(c.kind),c.op);
	    if (!sim.allocfailed) sim_fail("M06","spurious-throw","%s threw bad_alloc although no allocation failed",OPS[p.steps[i].op]);
	}
	verify();
    }
    sim.step = 0;
    for (int i = 0; i < NS; ++i) LIB(w.s[i]->~string());
    arena_check_leaks("M06","after destroying every string");
}
const Scenario S = { "txt", "M06", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
