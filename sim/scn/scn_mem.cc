// Strings, memory blocks, vectors of plain values and memory streams while allocations fail.
#include "common.h"
#include <stdio.h>
#include "stredit.h"
using namespace ustl;

namespace {
#define OPLIST(X) \
    X(s_assign) X(s_assign_n) X(s_assign_str) X(s_assign_sub) X(s_append) X(s_append_n) X(s_append_str) X(s_push) X(s_pop) X(s_insert_n) X(s_insert) X(s_insert_rep) \
    X(s_insert_w) X(s_append_w) X(s_assign_w) X(s_assign_wn) X(s_erase) X(s_replace) X(s_replace_n) X(s_resize) X(s_resize_c) X(s_reserve) X(s_shrink) X(s_clear) X(s_linked) X(s_copy) X(s_substr) X(s_plus) \
    X(s_format) X(s_swap) X(s_move) X(s_rebind) X(s_fromblock) X(s_forms) X(s_huge) \
    X(m_assign) X(m_resize) X(m_reserve) X(m_insert) X(m_erase) X(m_shrink) X(m_dealloc) X(m_link) X(m_copylink) X(m_manage) X(m_copy) X(m_assign_m) X(m_swap) X(m_move) X(m_clear) X(m_forms) X(m_huge) \
    X(v_push) X(v_insert_n) X(v_insert_r) X(v_insert) X(v_erase) X(v_resize) X(v_resize_v) X(v_assign_r) X(v_assign_n) X(v_reserve) X(v_shrink) X(v_clear) X(v_dealloc) X(v_link) X(v_copy) X(v_assign_v) X(v_swap) X(v_move) X(v_pop) X(v_emplace) X(v_ctor) X(v_forms) X(v_huge) \
    X(o_put) X(o_str) X(o_int) X(o_float) X(o_format) X(o_write) X(o_wchar) X(o_bool) X(o_string) X(o_get) X(o_set) X(o_fresh) X(o_flush)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_BIG, C_NOMEM, N_CFG };
const char* const CFG [N_CFG] = { "largest_size", "fail_rate" };
enum { P_SBAD, P_MBAD, P_VBAD, P_OBAD, P_LINKS, P_LINKM, P_LINKV, P_LINKO, P_SHRUNK, P_WIDE, P_FORMAT, P_COPYFAIL, P_MIDTEXT, P_HUGE, N_PROBES };
const char* const PROBES [N_PROBES] = { "string_op_failed","block_op_failed","vector_op_failed","stream_op_failed","linked_string_op","linked_block_op","linked_vector_op","fixed_block_stream","shrunk","wide_text","format_failed","copy_failed","text_cut_by_failure", "impossible_size" };
enum { NS = 3, NM = 2, NV = 2, NO = 2 };

struct World {
    string* s [NS]; Bytes bs [NS];
    memblock* m [NM]; Bytes bm [NM];
    vector<int>* v [NV]; Vec<int> bv [NV];
    ostringstream* o [NO]; Bytes bo [NO]; bool ofix [NO];
    const char* src;	// 256 pages of read only text, unterminated
    size_t srcn;
};
World* W;

// n bytes of text at the very end of readable memory
const char* text(int64_t id, size_t n, Bytes& b)
{
    b.setn(n);
    for (size_t i = 0; i < n; ++i) b[i] = (id & 1) ? pat((uint32_t)id,i) : (uint8_t)('a' + pat((uint32_t)id,i) % 26);
    if (id & 1) for (size_t i = 0; i < n; ++i) if (!b[i]) b[i] = 1;
    char* p = (char*)arena_place(n,b.data()); if (n) arena_protect_ro(p); return p;
}
const char* ztext(int64_t id, size_t n, Bytes& b) { text(id & ~1,0,b); b.setn(n); for (size_t i = 0; i < n; ++i) b[i] = 'a' + pat((uint32_t)id,i) % 26; Bytes z (b); z.push(0); char* p = (char*)arena_place(n+1,z.data()); arena_protect_ro(p); return p; }
const int* ints(int64_t id, size_t n, Vec<int>& b) { b.setn(n); for (size_t i = 0; i < n; ++i) b[i] = (int)(pat((uint32_t)id,i)*0x01010101u + i*7 + id); int* p = (int*)arena_place(n*sizeof(int),b.data()); if (n) arena_protect_ro(p); return p; }
void enc(Bytes& b, uint32_t c)
{
    if (c < 0x80) b.push((uint8_t)c);
    else if (c < 0x800) { b.push(0xC0|c>>6); b.push(0x80|(c&63)); }
    else if (c < 0x10000) { b.push(0xE0|c>>12); b.push(0x80|(c>>6&63)); b.push(0x80|(c&63)); }
    else { b.push(0xF0|c>>18); b.push(0x80|(c>>12&63)); b.push(0x80|(c>>6&63)); b.push(0x80|(c&63)); }
}
uint32_t wch(int64_t id, size_t i) { static const uint32_t t [] = { 'x', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x416, 0x20ac }; return t[pat((uint32_t)id,i) % 10]; }

void gen(Rng& r, Plan& p, bool faults)
{
    const int64_t big = r.chance(15) ? 100000 : r.chance(100) ? 20000 : r.chance(400) ? 300 : 24;
    p.cfg[C_BIG] = big;
    const unsigned rate = faults ? (r.chance(400) ? 700 : 300) : 0;
    p.cfg[C_NOMEM] = rate;
    const int n = 4 + (int)r.skewed(44);
    unsigned w [4]; for (int k = 0; k < 4; ++k) w[k] = r.chance(400) ? 0 : 1 + r.below(4);
    if (!(w[0]+w[1]+w[2]+w[3])) w[r.below(4)] = 1;
    for (int i = 0; i < n; ++i) {
	unsigned k = r.below(w[0]+w[1]+w[2]+w[3]); int op;
	if (k < w[0]) op = r.below(OP_m_assign);
	else if ((k -= w[0]) < w[1]) op = OP_m_assign + r.below(OP_v_push-OP_m_assign);
	else if ((k -= w[1]) < w[2]) op = OP_v_push + r.below(OP_o_put-OP_v_push);
	else op = OP_o_put + r.below(N_OPS-OP_o_put);
	Step& st = p.add(op,r.below(6),big > 65536 && r.chance(350) ? 65500 + r.below(34000) : r.skewed(big),r.skewed(big),r.below(1000),r.below(6),r.skewed(4));
	if (rate && r.chance(rate)) addfault(st,F_ALLOC,r.chance(700) ? 0 : (int)r.skewed(3),r.chance(300) ? 1000 : 1 + (int)r.skewed(3),0);
    }
}
void diff(const char* what, int i, const uint8_t* d, size_t n, const Bytes& b)
{
    if (n == b.size() && (!n || !memcmp(d,b.data(),n))) return;
    size_t k = 0; while (k < n && k < b.size() && d[k] == b[k]) ++k;
    sim_fail("M01","wrong-contents","%s %d holds %llu bytes, expected %llu, first difference at %llu",what,i,(unsigned long long)n,(unsigned long long)b.size(),(unsigned long long)k);
}
void verify(void)
{
    for (int i = 0; i < NS; ++i) {
	const string& s = *W->s[i];
	diff("string",i,(const uint8_t*)s.c_str(),s.size(),W->bs[i]);
	if (!s.c_str()) sim_fail("M01","unterminated","string %d has no text",i);
	if (s.c_str()[s.size()]) sim_fail("M01","unterminated","string %d is not terminated",i);
	if (!s.is_linked() && s.capacity() < s.size()) sim_fail("M01","broken-capacity","string %d: capacity %llu below size %llu",i,(unsigned long long)s.capacity(),(unsigned long long)s.size());
	if (!s.is_linked() && arena_block_size(s.c_str()) < s.size()+1) sim_fail("M01","broken-capacity","string %d of %llu bytes is in a block of %llu bytes",i,(unsigned long long)s.size(),(unsigned long long)arena_block_size(s.c_str()));
	if (!s.is_linked() && arena_block_size(s.c_str()) < s.memblock::capacity()) sim_fail("M01","broken-capacity","string %d claims capacity %llu in a block of %llu bytes",i,(unsigned long long)s.memblock::capacity(),(unsigned long long)arena_block_size(s.c_str()));
    }
    for (int i = 0; i < NM; ++i) {
	const memblock& m = *W->m[i];
	diff("block",i,(const uint8_t*)m.cdata(),m.size(),W->bm[i]);
	if (!m.is_linked() && m.capacity() < m.size()) sim_fail("M01","broken-capacity","block %d: capacity %llu below size %llu",i,(unsigned long long)m.capacity(),(unsigned long long)m.size());
	if (!m.is_linked() && arena_block_size(m.cdata()) < m.capacity()) sim_fail("M01","broken-capacity","block %d claims capacity %llu in a block of %llu bytes",i,(unsigned long long)m.capacity(),(unsigned long long)arena_block_size(m.cdata()));
    }
    for (int i = 0; i < NV; ++i) {
	const vector<int>& v = *W->v[i]; const Vec<int>& b = W->bv[i];
	if (v.size() != b.size() || (b.size() && memcmp(v.begin(),b.data(),b.size()*sizeof(int)))) { size_t k = 0; while (k < v.size() && k < b.size() && v[k] == b[k]) ++k; sim_fail("M01","wrong-contents","vector %d holds %llu values, expected %llu, first difference at %llu",i,(unsigned long long)v.size(),(unsigned long long)b.size(),(unsigned long long)k); }
	if (!v.is_linked() && v.capacity() < v.size()) sim_fail("M01","broken-capacity","vector %d: capacity %llu below size %llu",i,(unsigned long long)v.capacity(),(unsigned long long)v.size());
	if (!v.is_linked() && arena_block_size(v.begin()) < v.capacity()*sizeof(int)) sim_fail("M01","broken-capacity","vector %d claims capacity %llu in a block of %llu bytes",i,(unsigned long long)v.capacity(),(unsigned long long)arena_block_size(v.begin()));
    }
    for (int i = 0; i < NO; ++i) {
	const ostringstream& o = *W->o[i];
	if (o.pos() > o.size()) sim_fail("M01","broken-capacity","stream %d: position %llu beyond its end %llu",i,(unsigned long long)o.pos(),(unsigned long long)o.size());
	diff("stream",i,(const uint8_t*)o.begin(),o.pos(),W->bo[i]);
	if (!W->ofix[i] && o.size() && arena_block_size(o.begin()) < o.size()) sim_fail("M01","broken-capacity","stream %d of %llu bytes is in a block of %llu bytes",i,(unsigned long long)o.size(),(unsigned long long)arena_block_size(o.begin()));
    }
}
void ins(Bytes& b, size_t at, const Bytes& t) { Bytes n; n.append(b.data(),at); n.append(t.data(),t.size()); n.append(b.data()+at,b.size()-at); b.swap(n); }
void insv(Vec<int>& b, size_t at, const int* t, size_t k) { Vec<int> n; n.append(b.data(),at); n.append(t,k); n.append(b.data()+at,b.size()-at); b.swap(n); }

// a number of elements of the given size for which there can not be memory
size_t huge(int64_t id, size_t es)
{
    const size_t t [] = { SIZE_MAX, SIZE_MAX/2+1, SIZE_MAX/es, SIZE_MAX/es/2+1, (size_t)1 << 32, (size_t)1 << 31, (size_t)1 << 40, (size_t)1 << 62, SIZE_MAX/4+1, SIZE_MAX/8+1 };
    const size_t b = t[id % 10], d = id/10 % 7;
    return id/70 & 1 ? b - d : b + d < b ? b : b + d;
}
void refused(const char* what, int i, size_t h, bool threw)
{
    if (!threw) sim_fail("M01","wrapped-size","%s %d: asking for %llu elements did not throw",what,i,(unsigned long long)h);
    probe(P_HUGE); ++sim.allocfailed;
}

void step(int op, const int64_t* a)
{
    Caught c; c.kind = TH_NONE;
    const size_t lim = 150000;
    const size_t n1 = (size_t)hmin<int64_t>(hmax<int64_t>(a[1],0),100000), n2 = (size_t)hmin<int64_t>(hmax<int64_t>(a[2],0),100000);
    const int64_t id = hmax<int64_t>(a[3],0); const size_t rep = (size_t)hmin<int64_t>(hmax<int64_t>(a[5],0),4);
    const uint64_t u0 = (uint64_t)a[0], u4 = (uint64_t)a[4];
    Bytes t;
    if (op < OP_m_assign) {
	const int i = (int)(u0 % NS), j = (int)(u4 % NS); string& s = *W->s[i]; Bytes& b = W->bs[i]; Bytes want (b); Bytes wantj (W->bs[j]);
	const size_t at = b.size() ? n1 % (b.size()+1) : 0, k = hmin(n2,b.size()-at);
	if (b.size() > lim && op != OP_s_clear && op != OP_s_erase) { TRY(c, s.resize(10)); if (c.kind == TH_NONE) b.resize(10); verify(); return; }
	if (s.is_linked() && s.size()) probe(P_LINKS);
	switch (op) {
	    case OP_s_assign: { const char* p = (id & 4) ? ztext(id,n1,t) : text(id,n1,t); if (id & 4) TRY(c, s = p); else TRY(c, s.assign(p,n1)); want = t; break; }
	    case OP_s_assign_n: { TRY(c, s.assign(n1,char('A'+id%26))); want.setn(n1); memset(want.data(),'A'+id%26,n1); break; }
	    case OP_s_assign_str: { TRY(c, s = *W->s[j]); want = W->bs[j]; break; }
	    case OP_s_assign_sub: { if (i == j) return; const size_t bn = W->bs[j].size(), f = bn ? n1 % (bn+1) : 0; const size_t l = hmin(n2,bn-f); TRY(c, s.assign(*W->s[j],f,l)); want.clear(); want.append(W->bs[j].data()+f,l); break; }
	    case OP_s_append: { const char* p = (id & 4) ? ztext(id,n1,t) : text(id,n1,t); if (id & 4) TRY(c, s += p); else if (id & 2) TRY(c, s.append(p,p+n1)); else TRY(c, s.append(p,n1)); want.append(t.data(),t.size()); break; }
	    case OP_s_append_n: { TRY(c, s.append(n1,char('A'+id%26))); for (size_t q = 0; q < n1; ++q) want.push('A'+id%26); break; }
	    case OP_s_append_str: { if (i == j) return; if (id & 1) TRY(c, s += *W->s[j]); else TRY(c, s.append(*W->s[j])); want.append(W->bs[j].data(),W->bs[j].size()); break; }
	    case OP_s_push: TRY(c, s.push_back(char('A'+id%26))); want.push('A'+id%26); break;
	    case OP_s_pop: if (!b.size()) return; TRY(c, s.pop_back()); want.setn(b.size()-1); break;
	    case OP_s_insert_n: { if (id & 1) TRY(c, s.insert(s.iat(at),n2,char('A'+id%26))); else TRY(c, s.insert(string::pos_type(at),n2,char('A'+id%26))); t.setn(n2); memset(t.data(),'A'+id%26,n2); ins(want,at,t); break; }
	    case OP_s_insert: { const char* p = text(id,n2,t); if (id & 2) TRY(c, s.insert(s.iat(at),p,p+n2)); else TRY(c, s.insert(string::pos_type(at),p,n2)); ins(want,at,t); break; }
	    case OP_s_insert_rep: { const char* p = text(id,n2,t); TRY(c, s.insert(s.iat(at),p,p+n2,rep)); Bytes m; for (size_t q = 0; q < rep; ++q) m.append(t.data(),t.size()); ins(want,at,m); break; }
	    case OP_s_insert_w: { const wchar_t w = (wchar_t)wch(id,0); const size_t q = hmin<size_t>(n2,200); TRY(c, s.insert(string::pos_type(at),q,w)); for (size_t z = 0; z < q; ++z) enc(t,w); ins(want,at,t); probe(P_WIDE); break; }
	    case OP_s_append_w: case OP_s_assign_w: { const size_t q = hmin<size_t>(n2,100); wchar_t* w = (wchar_t*)arena_place((q+1)*sizeof(wchar_t),0); for (size_t z = 0; z < q; ++z) { w[z] = (wchar_t)wch(id,z); enc(t,w[z]); } w[q] = 0;
		if (op == OP_s_append_w) { if (id & 1) TRY(c, s.append(w)); else TRY(c, s.append(w,w+q)); want.append(t.data(),t.size()); }
		else { if (id & 1) TRY(c, s = w); else TRY(c, s.assign(w,w+q)); want = t; }
		probe(P_WIDE); break; }
	    case OP_s_assign_wn: { const wchar_t w = (wchar_t)wch(id,0); const size_t q = hmin<size_t>(n2,200); TRY(c, s.assign(q,w)); for (size_t z = 0; z < q; ++z) enc(t,w); want = t; break; }
	    case OP_s_erase: { if (!k) return; if (id & 1) TRY(c, s.erase(string::pos_type(at),k)); else if (id & 2) TRY(c, s.erase(s.iat(at),s.iat(at+k))); else TRY(c, s.erase(s.iat(at),k)); want.erase(at,k); break; }
	    case OP_s_replace: { const size_t l = n2 % 40; if (!l && !k) return; const char* p = text(id,l,t); if (id & 2) TRY(c, s.replace(s.iat(at),s.iat(at+k),p,p+l)); else TRY(c, s.replace(string::pos_type(at),k,p,l)); want.erase(at,k); ins(want,at,t); break; }
	    case OP_s_replace_n: { if (!rep && !k) return; const size_t l = 1 + n2 % 9; const char* p = text(id,l,t); TRY(c, s.replace(s.iat(at),s.iat(at+k),p,p+l,rep)); want.erase(at,k); Bytes m; for (size_t q = 0; q < rep; ++q) m.append(t.data(),t.size()); ins(want,at,m); break; }
	    case OP_s_resize: { TRY(c, s.resize(n1)); if (c.kind == TH_NONE && s.size() == n1) for (size_t q = b.size(); q < n1; ++q) s[q] = 'R'; const size_t o = b.size(); want.setn(n1); for (size_t q = o; q < n1; ++q) want[q] = 'R'; break; }
	    case OP_s_resize_c: { TRY(c, s.resize(n1,char('A'+id%26))); const size_t o = b.size(); want.setn(n1); for (size_t q = o; q < n1; ++q) want[q] = 'A'+id%26; break; }
	    case OP_s_reserve: { TRY(c, s.reserve(n1,id & 1)); if (c.kind == TH_NONE && s.capacity() < n1) sim_fail("M01","broken-capacity","string %d: capacity %llu after reserving %llu",i,(unsigned long long)s.capacity(),(unsigned long long)n1); break; }
	    case OP_s_shrink: TRY(c, s.shrink_to_fit()); probe(P_SHRUNK); break;
	    case OP_s_clear: TRY(c, s.clear()); want.clear(); break;
	    case OP_s_linked: { const char* p = ztext(id,n1 % 300,t); TRY(c, string l (p); s = move(l)); want = t; break; }	// s now refers to the literal
	    case OP_s_copy: { TRY(c, string l (*W->s[j]); s.swap(l)); want = W->bs[j]; if (c.kind) probe(P_COPYFAIL); break; }
	    case OP_s_substr: { const size_t bn = W->bs[j].size(), f = bn ? n1 % (bn+1) : 0; const size_t l = hmin(n2,bn-f); TRY(c, s = W->s[j]->substr(f,l)); want.clear(); want.append(W->bs[j].data()+f,l); break; }
	    case OP_s_plus: { const int q = (int)(id % NS); TRY(c, s = *W->s[j] + *W->s[q]); want = W->bs[j]; want.append(W->bs[q].data(),W->bs[q].size()); break; }
	    case OP_s_format: {
		const char* p = ztext(id,n1 % 2000,t); static char tmp [2200]; int m;
		if (id & 1) { TRY(c, s.format("%s|%d|%5.2f",p,(int)id-500,id/3.0)); m = snprintf(tmp,sizeof(tmp),"%s|%d|%5.2f",p,(int)id-500,id/3.0); }
		else { TRY(c, s.format("%s",p)); m = snprintf(tmp,sizeof(tmp),"%s",p); }
		want.clear(); want.append((const uint8_t*)tmp,m); if (c.kind) probe(P_FORMAT); break; }
	    case OP_s_swap: TRY(c, s.swap(*W->s[j])); if (i != j) { want = W->bs[j]; wantj = b; } break;
	    case OP_s_move: { if (i == j) return; TRY(c, s = move(*W->s[j])); want = W->bs[j]; if (c.kind == TH_NONE) { Bytes x; x.append((const uint8_t*)W->s[j]->c_str(),W->s[j]->size()); wantj = x; } break; }
	    case OP_s_rebind: { TRY(c, string l ((const char*)W->bs[0].data(),(size_t)0); l.reserve(n1); l.append(5,'q'); string z (move(l)); s.swap(z)); want.clear(); for (int q = 0; q < 5; ++q) want.push('q'); break; }
	    case OP_s_fromblock: { const int q = (int)(u4 % NM); TRY(c, string l (static_cast<const cmemlink&>(*W->m[q])); s.swap(l)); want = W->bm[q]; break; }
	    case OP_s_huge: {	// more than there can be
		const size_t h = huge(id,1);
		switch ((id/16+n2) % 6) {
		    case 0: TRY(c, s.resize(h)); break;
		    case 1: TRY(c, s.resize(h,'h')); break;
		    case 2: TRY(c, s.reserve(h,n1 & 1)); break;
		    case 3: TRY(c, s.append(h,'h')); break;
		    case 4: TRY(c, s.insert(s.iat(at),h,'h')); break;
		    default: TRY(c, s.assign(h,'h')); break;
		}
		refused("string",i,h,c.kind != TH_NONE);
		break; }
	    case OP_s_forms: {	// the other ways to edit
		StrArgs x; const size_t q = n2 % 40;
		x.zt = ztext(id,hmin<size_t>(n2,3000),x.zb); x.ut = text(id,hmin<size_t>(n1,3000),x.ub);
		wchar_t* w = (wchar_t*)arena_place((q+2)*sizeof(wchar_t),0); for (size_t z = 0; z <= q; ++z) { w[z] = (wchar_t)wch(id,z); enc(x.wb,w[z]); } w[q+1] = 0; enc(x.w1,w[0]);
		x.wt = w; x.wn = q+1; x.o = W->s[j]; x.ob = &W->bs[j];
		x.at = at; x.k = k; x.of = x.ob->size() ? n2 % (x.ob->size()+1) : 0; x.ol = hmin(n1 % 60,x.ob->size()-x.of); x.n = rep; x.ch = char('A'+id%26); x.ro = s.is_linked();
		size_t gp, wp; probe(P_WIDE);
		if (!string_edit((int)((id/2+a[1]) % N_STREDITS),s,x,want,gp,wp,[&](auto&& f) { TRY(c, f()); })) return;
		if (c.kind == TH_NONE && gp != wp) sim_fail("M01","wrong-contents","string %d: the edit returned position %lld, expected %lld",i,(long long)gp,(long long)wp);
		break; }
	}
	if (c.kind == TH_NONE) { b = want; if (i != j) W->bs[j] = wantj; } else probe(P_SBAD);
    } else if (op < OP_v_push) {
	const int i = (int)(u0 % NM), j = (int)(u4 % NM); memblock& m = *W->m[i]; Bytes& b = W->bm[i]; Bytes want (b), wantj (W->bm[j]);
	const size_t at = b.size() ? n1 % (b.size()+1) : 0, k = hmin(n2,b.size()-at);
	if (m.is_linked() && m.size()) probe(P_LINKM);
	if (b.size() > lim) op = OP_m_dealloc;
	switch (op) {
	    case OP_m_assign: { const char* p = text(id,n1,t); TRY(c, m.assign(p,n1)); want = t; break; }
	    case OP_m_resize: { TRY(c, m.resize(n1,id & 1)); const size_t o = b.size(); want.setn(n1); for (size_t q = o; q < n1; ++q) { want[q] = 'R'; if (c.kind == TH_NONE && m.size() == n1) m.begin()[q] = 'R'; } break; }
	    case OP_m_reserve: TRY(c, m.reserve(n1,id & 1)); if (c.kind == TH_NONE && m.capacity() < n1) sim_fail("M01","broken-capacity","block %d: capacity %llu after reserving %llu",i,(unsigned long long)m.capacity(),(unsigned long long)n1); break;
	    case OP_m_insert: { const char* p = text(id,n2,t); memblock::iterator ip = 0; TRY(c, ip = m.insert(m.begin()+at,n2)); if (c.kind == TH_NONE) { if (n2 && ip != m.begin()+at) sim_fail("M01","wrong-contents","insert returned another position"); if (n2) memcpy(ip,p,n2); } ins(want,at,t); break; }
	    case OP_m_erase: { if (!k) return; TRY(c, m.erase(m.begin()+at,k)); want.erase(at,k); break; }
	    case OP_m_shrink: TRY(c, m.shrink_to_fit()); probe(P_SHRUNK); break;
	    case OP_m_dealloc: LIB(m.deallocate()); want.clear(); break;
	    case OP_m_link: { const char* p = text(id,n1,t); LIB(m.deallocate()); LIB(m.link((const void*)p,n1)); want = t; b = t; break; }
	    case OP_m_copylink: TRY(c, m.copy_link()); break;
	    case OP_m_manage: { void* p = 0; const size_t q = hmax<size_t>(n1,1); const char* s = text(id,q,t); LIB(p = malloc(q)); if (!p) return; memcpy(p,s,q); LIB(m.deallocate()); LIB(m.manage(p,q)); want = t; break; }
	    case OP_m_copy: { TRY(c, memblock l (*W->m[j]); m.swap(l)); want = W->bm[j]; if (c.kind) probe(P_COPYFAIL); break; }
	    case OP_m_assign_m: { if (id & 1) TRY(c, m = *W->m[j]); else TRY(c, m = static_cast<const cmemlink&>(*W->m[j])); want = W->bm[j]; break; }
	    case OP_m_swap: TRY(c, m.swap(*W->m[j])); if (i != j) { want = W->bm[j]; wantj = b; } break;
	    case OP_m_move: { if (i == j) return; TRY(c, m = move(*W->m[j])); want = W->bm[j]; if (c.kind == TH_NONE) { Bytes x; x.append((const uint8_t*)W->m[j]->cdata(),W->m[j]->size()); wantj = x; } break; }
	    case OP_m_clear: LIB(m.clear()); want.clear(); break;
	    case OP_m_huge: {
		const size_t h = huge(id,1);
		switch ((id/16+n2) % 5) {
		    case 0: TRY(c, m.resize(h)); break;
		    case 1: TRY(c, m.resize(h,false)); break;
		    case 2: TRY(c, m.reserve(h,n1 & 1)); break;
		    case 3: TRY(c, m.insert(m.begin()+at,h)); break;
		    default: TRY(c, memblock l (h); m.swap (l)); break;
		}
		refused("block",i,h,c.kind != TH_NONE);
		break; }
	    case OP_m_forms: {	// the other ways to make, link and assign
		const size_t q = hmin<size_t>(n1,4000); const char* p = text(id,q,t); const cmemlink cl (p,q); const memlink ml ((const void*)p,q);
		switch ((id/2+a[2]) % 14) {
		    case 0: TRY(c, m.assign (cl)); want = t; break;
		    case 1: TRY(c, m = cl); want = t; break;
		    case 2: TRY(c, m = ml); want = t; break;
		    case 3: TRY(c, memblock l (cl); m.swap (l)); want = t; break;
		    case 4: TRY(c, memblock l (ml); ::ustl::swap (m,l)); want = t; break;
		    case 5: TRY(c, memblock l ((const void*)p,q); m = move(l)); want = t; break;
		    case 6: TRY(c, memblock l (q); if (l.size() != q) sim_fail("M01","wrong-contents","block made of %llu bytes",(unsigned long long)q); if (q) memset(l.begin(),'Z',q); m.swap (l)); want.setn(q); if (q) memset(want.data(),'Z',q); break;
		    case 7: { void* z = 0; const size_t zn = hmax<size_t>(q,1); LIB(z = malloc(zn)); if (!z) return; memset(z,'Y',zn); LIB(m.deallocate()); LIB(memlink l (z,zn); m.manage (l)); want.setn(zn); memset(want.data(),'Y',zn); break; }
		    case 8: TRY(c, ::ustl::swap (m,*W->m[j])); if (i != j) { want = W->bm[j]; wantj = b; } break;
		    case 9: LIB(m.deallocate(); m.link (cl)); want = t; break;
		    case 10: LIB(m.deallocate(); m.link ((const void*)p,(const void*)(p+q))); want = t; break;
		    case 11: {	// changed in place through a link, the end of the block included
			if (m.is_linked() || !b.size()) return;
			const size_t n = b.size(), es = 1+rep, k2 = hmin(k,n-at); t.clear(); text(id,k2,t);
			LIB(memlink l (m); l.insert (l.iat(at),k2); if (k2) memcpy(l.iat(at),t.data(),k2));
			{ Bytes x; x.append(b.data(),at); x.append(t.data(),k2); x.append(b.data()+at,n-at-k2); want = x; }
			const size_t ec = (n-at)/es; const char* e = text(id+1,es,t); LIB(memlink l; l.link (m); l.fill (l.iat(at),e,es,ec)); for (size_t z = 0; z < ec*es; ++z) want[at+z] = e[z%es];
			const size_t f2 = n1 % n, k3 = hmin(n2,n-f2); LIB(memlink l (static_cast<const cmemlink&>(m)); l.erase (l.iat(f2),k3)); for (size_t z = f2; z+k3 < n; ++z) want[z] = want[z+k3]; for (size_t z = n-k3; z < n; ++z) want[z] = m.begin()[z]; // what is uncovered is undefined
			break; }
		    case 12: {	// views
			const memblock& k1 = m; const cmemlink v1 (m), v2 (W->m[j]->begin(),W->m[j]->size()); const size_t w1 = b.size(), w2 = wantj.size(); const bool same = w1 == w2 && (!w1 || !memcmp(b.data(),wantj.data(),w1));
			if ((v1 == v2) != same || (v1 != v2) == same || !(v1 == static_cast<const cmemlink&>(m)) || k1.end() != k1.begin()+w1 || k1.iat (at) != k1.begin()+at || m.end()-m.begin() != (ptrdiff_t)w1 || k1.empty() != !w1 || m.readable_size() != w1 || m.writable_size() != w1 || v1.max_size() != w1 || k1.cdata() != k1.data() || (k1.is_linked() ? k1.max_size() != w1 : k1.max_size() != SIZE_MAX)) sim_fail("M01","wrong-contents","views of block %d",i);
			cmemlink s1 (v1), s2; s2 = v2; s1.swap (s2); if (s1.cdata() != v2.cdata() || s1.size() != w2 || s2.cdata() != v1.cdata() || s2.size() != w1) sim_fail("M01","wrong-contents","swapped views of block %d",i);
			::ustl::swap (s1,s2); if (s1.cdata() != v1.cdata() || s2.size() != w2) sim_fail("M01","wrong-contents","swapped views of block %d",i);
			memlink x1 (m), x2 (m.begin(),at); ::ustl::swap (x1,x2); if (x1.size() != at || x2.size() != w1 || x2.begin() != m.begin()) sim_fail("M01","wrong-contents","swapped links to block %d",i);
			memlink x3, x4; x3 = x1; x4 = v1; if (x3.begin() != x1.begin() || x3.size() != x1.size() || x4.begin() != v1.begin() || x4.size() != w1) sim_fail("M01","wrong-contents","assigned links to block %d",i);
			{ // no memory where some was promised: refused, and what was linked stays linked
			    cmemlink y1 (v1); memlink y2 (m.begin(),at); bool refused1 = false, refused2 = false;
			    { LibScope ls; try { y1.link ((const void*)0,1+n1%5000); } catch (ustl::bad_alloc&) { refused1 = true; } try { y2.link ((void*)0,1+n2%5000); } catch (ustl::bad_alloc&) { refused2 = true; } }
			    if (!refused1 || !refused2) sim_fail("M01","wrong-result","linking to a null block of %d bytes was accepted",(int)(1+n1%5000));
			    if (y1.cdata() != v1.cdata() || y1.size() != w1 || y2.begin() != m.begin() || y2.size() != at) sim_fail("M01","changed-by-failure","a refused link changed the view of block %d",i);
			}
			s2.relink (v1.begin(),at); s1 = s2; s2.unlink(); if (s1.size() != at || s1.begin() != v1.begin() || s2.size() || s2.cdata()) sim_fail("M01","wrong-contents","relinked views of block %d",i);
			return; }
		    default: if (!m.is_linked()) return; LIB(m.relink (p,q)); want = t; break;
		}
		break; }
	}
	if (c.kind == TH_NONE) { b = want; if (i != j) W->bm[j] = wantj; } else probe(P_MBAD);
    } else if (op < OP_o_put) {
	const int i = (int)(u0 % NV), j = (int)(u4 % NV); vector<int>& v = *W->v[i]; Vec<int>& b = W->bv[i]; Vec<int> want (b), wantj (W->bv[j]), x;
	const size_t m1 = hmin<size_t>(n1,5000), m2 = hmin<size_t>(n2,5000), at = b.size() ? m1 % (b.size()+1) : 0, k = hmin(m2,b.size()-at); const int val = (int)(id*1000003 + n1);
	if (v.is_linked() && v.size()) probe(P_LINKV);
	if (b.size() > lim/4) op = OP_v_dealloc;
	switch (op) {
	    case OP_v_push: TRY(c, v.push_back(val)); want.push(val); break;
	    case OP_v_insert_n: { TRY(c, v.insert(v.begin()+at,m2,val)); x.setn(m2); for (size_t q = 0; q < m2; ++q) x[q] = val; insv(want,at,x.data(),m2); break; }
	    case OP_v_insert_r: { const int* p = ints(id,m2,x); TRY(c, v.insert(v.begin()+at,p,p+m2)); insv(want,at,x.data(),m2); break; }
	    case OP_v_insert: { vector<int>::iterator ip = 0; TRY(c, ip = v.insert(v.begin()+at,val)); if (c.kind == TH_NONE && ip != v.begin()+at) sim_fail("M01","wrong-contents","insert returned another position"); insv(want,at,&val,1); break; }
	    case OP_v_erase: { if (!k) return; TRY(c, v.erase(v.begin()+at,k)); want.erase(at,k); break; }
	    case OP_v_resize: { TRY(c, v.resize(m1)); want.resize(m1); break; }
	    case OP_v_resize_v: { TRY(c, v.resize(m1,val)); const size_t o = b.size(); want.setn(m1); for (size_t q = o; q < m1; ++q) want[q] = val; break; }
	    case OP_v_assign_r: { const int* p = ints(id,m2,x); TRY(c, v.assign(p,p+m2)); want = x; break; }
	    case OP_v_assign_n: { TRY(c, v.assign(m2,val)); want.setn(m2); for (size_t q = 0; q < m2; ++q) want[q] = val; break; }
	    case OP_v_reserve: TRY(c, v.reserve(m1,id & 1)); if (c.kind == TH_NONE && v.capacity() < m1) sim_fail("M01","broken-capacity","vector %d: capacity %llu after reserving %llu",i,(unsigned long long)v.capacity(),(unsigned long long)m1); break;
	    case OP_v_shrink: TRY(c, v.shrink_to_fit()); probe(P_SHRUNK); break;
	    case OP_v_clear: TRY(c, v.clear()); want.clear(); break;
	    case OP_v_dealloc: LIB(v.deallocate()); want.clear(); break;
	    case OP_v_link: { const int* p = ints(id,m1,x); LIB(v.deallocate()); LIB(v.link(p,m1)); b = x; want = x; if (id & 1) TRY(c, v.copy_link()); break; }
	    case OP_v_copy: { TRY(c, vector<int> l (*W->v[j]); v.swap(l)); want = W->bv[j]; if (c.kind) probe(P_COPYFAIL); break; }
	    case OP_v_assign_v: TRY(c, v = *W->v[j]); want = W->bv[j]; break;
	    case OP_v_swap: TRY(c, v.swap(*W->v[j])); if (i != j) { want = W->bv[j]; wantj = b; } break;
	    case OP_v_move: { if (i == j) return; TRY(c, v = move(*W->v[j])); want = W->bv[j]; if (c.kind == TH_NONE) { Vec<int> y; y.append(W->v[j]->begin(),W->v[j]->size()); wantj = y; } break; }
	    case OP_v_huge: {
		const size_t h = huge(id,sizeof(int));
		switch ((id/16+m2) % 7) {
		    case 0: TRY(c, v.resize(h)); break;
		    case 1: TRY(c, v.resize(h,val)); break;
		    case 2: TRY(c, v.reserve(h,m1 & 1)); break;
		    case 3: TRY(c, v.insert(v.begin()+at,h,val)); break;
		    case 4: TRY(c, v.assign(h,val)); break;
		    case 5: TRY(c, vector<int> l (h); v.swap (l)); break;
		    default: TRY(c, vector<int> l (h,val); v.swap (l)); break;
		}
		refused("vector",i,h,c.kind != TH_NONE);
		break; }
	    case OP_v_forms: {
		const int* p = ints(id,m1,x);
		switch ((id/2+a[2]) % 7) {
		    case 0: { void* z = 0; const size_t zn = hmax<size_t>(m1,1); LIB(z = malloc(zn*sizeof(int))); if (!z) return; for (size_t q = 0; q < zn; ++q) ((int*)z)[q] = val+(int)q; LIB(v.deallocate()); LIB(v.manage ((int*)z,zn)); want.setn(zn); for (size_t q = 0; q < zn; ++q) want[q] = val+(int)q; break; }
		    case 1: TRY(c, ::ustl::swap (v,*W->v[j])); if (i != j) { want = W->bv[j]; wantj = b; } break;
		    case 2: LIB(v.deallocate(); v.link (p,p+m1)); want = x; break;
		    case 3: LIB(v.deallocate(); vector<int> l; l.link (p,m1); v.link (l)); want = x; break;
		    case 4: { const cmemlink q (v); LIB(memlink w = v; if (w.begin() != (char*)v.begin() || w.size() != v.size()*sizeof(int)) sim_fail("M01","wrong-contents","vector %d as a link",i)); if (q.cdata() != (const char*)v.begin() || q.size() != v.size()*sizeof(int)) sim_fail("M01","wrong-contents","vector %d as a link",i); return; }
		    case 5: if (v.is_linked()) { LIB(v.unlink()); want.clear(); } else { TRY(c, v.insert (v.begin()+at,p,p+m1)); insv(want,at,x.data(),m1); } break;
		    default: {
			const vector<int>& kv = v; const bool same = b.size() == wantj.size() && (!b.size() || !memcmp(b.data(),wantj.data(),b.size()*sizeof(int))); bool eq = false, ne = false; LIB(eq = kv == *W->v[j]; ne = kv != *W->v[j]); if (eq != same || ne == same) sim_fail("M01","wrong-contents","vectors %d and %d compared",i,j);
			if (kv.rbegin().base() != kv.end() || kv.rend().base() != kv.begin() || kv.cdata() != kv.data() || v.data() != kv.data() || kv.iat(at) != kv.begin()+at || kv.cend()-kv.cbegin() != (ptrdiff_t)b.size() || (b.size() && (kv.front() != b[0] || kv.back() != b[b.size()-1] || *kv.crbegin() != kv.back() || kv.at(at < b.size() ? at : 0) != b[at < b.size() ? at : 0]))) sim_fail("M01","wrong-contents","views of vector %d",i);
			return; }
		}
		break; }
	    case OP_v_pop: if (!b.size() || v.is_linked()) return; TRY(c, v.pop_back()); want.pop(); break;
	    case OP_v_emplace: if (id & 1) { TRY(c, v.emplace_back(val)); want.push(val); } else { TRY(c, v.emplace(v.begin()+at,val)); insv(want,at,&val,1); } break;
	    case OP_v_ctor: { const int* p = ints(id,m2,x); if (id % 3 == 0) { TRY(c, vector<int> l (m2,val); v.swap(l)); want.setn(m2); for (size_t q = 0; q < m2; ++q) want[q] = val; } else if (id % 3 == 1) { TRY(c, vector<int> l (m2); v.swap(l)); want.clear(); want.resize(m2); } else { TRY(c, vector<int> l (p,p+m2); v.swap(l)); want = x; } break; }
	}
	if (c.kind == TH_NONE) { b = want; if (i != j) W->bv[j] = wantj; } else probe(P_VBAD);
    } else {
	const int i = (int)(u0 % NO); ostringstream& o = *W->o[i]; Bytes& b = W->bo[i]; char tmp [600]; int q = -1;
	if (b.size() > lim) op = OP_o_fresh;
	if (W->ofix[i]) probe(P_LINKO);
	switch (op) {
	    case OP_o_put: TRY(c, o.put(char('A'+id%26))); t.push('A'+id%26); break;
	    case OP_o_str: { const char* p = ztext(id,n1,t); TRY(c, o << p); break; }
	    case OP_o_int: { const long v = (long)(id*0x123456789abll - a[1]*77777); switch (id % 4) { case 0: TRY(c, o << v); q = snprintf(tmp,600,"%ld",v); break; case 1: TRY(c, o << (int)v); q = snprintf(tmp,600,"%d",(int)v); break; case 2: TRY(c, o << (unsigned short)v); q = snprintf(tmp,600,"%hu",(unsigned short)v); break; default: TRY(c, o << (unsigned long long)v); q = snprintf(tmp,600,"%llu",(unsigned long long)v); } break; }
	    case OP_o_float: { const double v = (id - 500) * (id & 1 ? 1e30 : 0.37); TRY(c, o << v); q = snprintf(tmp,600,"%.2f",v); break; }
	    case OP_o_format: { const char* p = ztext(id,n1 % 500,t); TRY(c, o.format("%s:%ld",p,(long)id)); q = snprintf(tmp,600,"%s:%ld",p,(long)id); t.clear(); break; }
	    case OP_o_write: { const char* p = text(id,n1,t); TRY(c, o.write(p,n1)); break; }
	    case OP_o_wchar: { const wchar_t w = (wchar_t)wch(id,0); TRY(c, o << w); enc(t,w); break; }
	    case OP_o_bool: { TRY(c, o << bool(id & 1)); q = snprintf(tmp,600,"%s",id & 1 ? "true" : "false"); break; }
	    case OP_o_string: { const int z = (int)(u4 % NS); TRY(c, o << *W->s[z]); t = W->bs[z]; break; }
	    case OP_o_get: {
		const string* r = 0; TRY(c, r = &o.str());
		if (c.kind == TH_NONE) { diff("str() of stream",i,(const uint8_t*)r->c_str(),r->size(),b); if (!W->ofix[i] && r->c_str()[r->size()]) sim_fail("M01","unterminated","str() of stream %d is not terminated",i); }
		break; }
	    case OP_o_set: { const int z = (int)(u4 % NS); TRY(c, o.str(*W->s[z])); if (c.kind == TH_NONE) { b = W->bs[z]; W->ofix[i] = false; } break; }
	    case OP_o_fresh: {
		ostringstream* w = 0; const int z = (int)(u4 % NS);
		static char mem [NO][2][sizeof(ostringstream)] __attribute__((aligned(16))); char* at = (char*)&o == mem[i][0] ? mem[i][1] : mem[i][0];
		if (id % 3 == 0) TRY(c, w = new (at) ostringstream);
		else if (id % 3 == 1) TRY(c, w = new (at) ostringstream (*W->s[z]));
		else { void* p = arena_place(n1,0); if (n1) memset(p,'.',n1); TRY(c, w = new (at) ostringstream (p,n1)); }
		if (c.kind == TH_NONE) { LIB(o.~ostringstream()); W->o[i] = w; b.clear(); W->ofix[i] = id % 3 == 2; }
		break; }
	    case OP_o_flush: TRY(c, o.flush()); break;
	}
	if (q >= 0) { t.clear(); t.append((const uint8_t*)tmp,q); }
	if (op != OP_o_get && op != OP_o_set && op != OP_o_fresh && op != OP_o_flush) {
	    if (c.kind == TH_NONE) b.append(t.data(),t.size());
	    else {	// part of the text may have been accepted
		const ostringstream& w = *W->o[i]; const size_t e = w.pos();
		if (e >= b.size() && e - b.size() <= t.size()) { if (e > b.size()) probe(P_MIDTEXT); b.append(t.data(),e-b.size()); }
	    }
	}
	if (c.kind) probe(P_OBAD);
	if (W->o[i]->size() && arena_block_size(W->o[i]->begin())) W->ofix[i] = false;
	if (!W->o[i]->good()) sim_fail("M01","wrong-state","stream %d has state %x",i,(unsigned)W->o[i]->rdstate());
    }
    if (c.kind != TH_NONE) {
	if (c.kind != TH_ALLOC) sim_fail("M01","wrong-exception","threw %s %s",thname(c.kind),c.op);
	if (!sim.allocfailed) sim_fail("M01","spurious-throw","threw bad_alloc although no allocation failed");
    }
    verify();
}
void exec(const Plan& p)
{
    static World w; W = &w;
    static char ms [NS][sizeof(string)] __attribute__((aligned(16))), mm [NM][sizeof(memblock)] __attribute__((aligned(16))), mv [NV][sizeof(vector<int>)] __attribute__((aligned(16))), mo [NO][sizeof(ostringstream)] __attribute__((aligned(16)));
    for (int i = 0; i < NS; ++i) LIB(w.s[i] = new (ms[i]) string);
    for (int i = 0; i < NM; ++i) LIB(w.m[i] = new (mm[i]) memblock);
    for (int i = 0; i < NV; ++i) LIB(w.v[i] = new (mv[i]) vector<int>);
    for (int i = 0; i < NO; ++i) LIB(w.o[i] = new (mo[i]) ostringstream);
    for (size_t i = 0; i < p.steps.size(); ++i) { step_begin(p,i); step(p.steps[i].op,p.steps[i].a); }
    sim.step = 0;
    for (int i = 0; i < NS; ++i) LIB(w.s[i]->~string());
    for (int i = 0; i < NM; ++i) LIB(w.m[i]->~memblock());
    for (int i = 0; i < NV; ++i) LIB(w.v[i]->~vector<int>());
    for (int i = 0; i < NO; ++i) LIB(w.o[i]->~ostringstream());
    arena_check_leaks("M01","after destroying every object");
}
const Scenario S = { "mem", "M01", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
