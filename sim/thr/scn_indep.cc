// T04: threads working on objects of their own, and reading shared constant ones.
// Every step runs twice, first alone, then among the threads; its results must be the same.
#include "thr.h"
#include "common.h"
#include <errno.h>
#include <stdlib.h>
using namespace ustl;

namespace {
#define OPLIST(X) X(str_edit) X(str_find) X(str_format) X(str_utf8) X(str_misc) X(vec_int) X(vec_str) X(vec_sort) X(map_) X(set_) X(multi) X(list_) X(adaptors) X(block) X(link) X(ostr) X(istr) X(ostr_link) X(serial) X(serial_map) X(exc) X(exc_nested) X(exc_text) X(backtrace) X(file_write) X(file_read) X(block_file) X(ofs_write) X(ifs_read) X(algo) X(algo2) X(bits) X(math) X(ptrs) X(tuple_) X(func) X(sh_str) X(sh_vec) X(sh_map) X(sh_block) X(sh_copy) X(sh_text) X(sh_misc)
enum {
#define X(n) OP_##n,
OPLIST(X)
#undef X
N_OPS };
const char* const OPS [N_OPS] = {
#define X(n) #n,
OPLIST(X)
#undef X
};
enum { C_THREADS, C_RATE, C_BRATE, C_FOCUS, N_CFG };
const char* const CFG [N_CFG] = { "threads", "preempt_permille", "switch_permille", "focus" };
enum { P_PREEMPTED, P_ALLOC, P_FILEFAIL, P_EXC, P_SHARED, P_SAMEOP, N_PROBES };
const char* const PROBES [N_PROBES] = { "preempted_within_a_call", "allocation_failed", "file_operation_failed", "exception_caught", "shared_object_read", "two_threads_in_the_same_operation" };
enum { NT = MAXTHR, MAXSTEPS = 128 };

struct Ctx {
    string s, t; vector<int> vi; vector<string> vs; map<string,int> m; set<int> st; multimap<int,string> mm; multiset<int> ms; list<int> l; memblock mb; string text;
    stack<int> stk; queue<int> q; priority_queue<int> pq; bitset<70> bs; string path;
};
template <typename T> struct Raw { char mem [sizeof(T)] __attribute__((aligned(16))); T& operator*() { return *(T*)mem; } T* operator->() { return (T*)mem; } };
Raw<Ctx> g_ctx [2][NT];
uint64_t g_res [MAXSTEPS]; int g_pass; int g_inop [NT];
Ctx* g_sh;	// shared and constant

uint64_t g_h [NT+1];
inline uint64_t& H() { return g_h[thr_self()+1]; }
void h(uint64_t v) { H() = (H() ^ v) * 0x100000001b3ull; H() ^= H() >> 31; }
void hb(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; h(n); for (size_t i = 0; i < n; ++i) h(b[i]); }
#define HX(...) do { HxScope _hx; __VA_ARGS__; } while (false)
void hs(const string& s) { HX(hb(s.data(),s.size())); }
template <typename C> void hc(const C& c) { HX(h(c.size()); for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) h((uint64_t)*i)); }
void hvs(const vector<string>& c) { HX(h(c.size()); for (size_t i = 0; i < c.size(); ++i) hb(c[i].data(),c[i].size())); }
template <typename M> void hm(const M& c) { HX(h(c.size()); for (typename M::const_iterator i = c.begin(); i != c.end(); ++i) { hb(i->first.data(),i->first.size()); h(i->second); }); }

void gen(Rng& r, Plan& p, bool faults)
{
    const int n = 2 + (int)r.below(3);
    p.cfg[C_THREADS] = n;
    const bool explicitly = r.chance(300);
    p.cfg[C_RATE] = explicitly ? 0 : (int)(1 + r.skewed(200));
    p.cfg[C_BRATE] = explicitly ? 0 : (int)r.below(700);
    const int f = (int)(p.cfg[C_FOCUS] = r.chance(500) ? 0 : 1 + r.below(N_OPS));
    const int steps = 2 + (int)r.skewed(30);
    for (int i = 0; i < steps; ++i) {
	const int op = f && r.chance(700) ? f-1 : (int)r.below(N_OPS);
	Step& st = p.add(op,r.below(n),r.below(1000),r.range(-1000,100000),r.below(64),r.below(16));
	st.na = 8; st.a[6] = 0; st.a[7] = (int64_t)(r.next()>>40);
	const int np = explicitly ? (int)r.below(4) : 0;
	for (int k = 0; k < np; ++k) addfault(st,F_PREEMPT,(int)r.skewed(200),1,(int64_t)r.below(32));
	if (faults && r.chance(80)) addfault(st,F_ALLOC,(int)r.skewed(6),1,0);
	if (faults && r.chance(150)) addfault(st,r.chance(500) ? F_SHORT : r.chance(600) ? F_EINTR : F_ERR,(int)r.skewed(4),1+(int)r.skewed(2),r.chance(500) ? 5 : 28);
    }
}
struct Boom { int v; string s; };
struct CmpMod { bool operator()(int a, int b) const { return a % 10 < b % 10; } };
bool is_even(const int& v) { return !(v & 1); }
int twice(const int& v) { return v*2; }

void work(int op, int tid, const Step& st, Ctx& c, const Ctx& sh)
{
    const int a = (int)st.a[1], b = (int)st.a[2], n = (int)st.a[3] % 64, k = (int)st.a[4] % 16;
    switch (op) {
	case OP_str_edit:
	    switch (k % 8) { case 0: c.s.append (string (1+n%20,(char)('a'+a%26))); break; case 1: c.s.insert (a % (c.s.size()+1),"in<>"); break; case 2: if (!c.s.empty()) c.s.erase (a % c.s.size(),1); break; case 3: if (c.s.size() > 3) c.s.replace (1,2,"xyz"); break; case 4: c.s.push_back ((char)('0'+a%10)); break; case 5: c.s.resize (n); break; case 6: c.t = c.s; c.s += c.t; if (c.s.size() > 500) c.s.clear(); break; case 7: c.s.assign ("fresh",n%6); break; }
	    hs(c.s); break;
	case OP_str_find: { string::size_type r [5] = { c.s.find ('a'), c.s.find ("in"), c.s.rfind ('<'), c.s.find_first_of ("xyz0"), c.s.find_last_not_of ("abc") }; int q = c.s.compare (c.t); bool e = c.s == c.t; HX(for (int i = 0; i < 5; ++i) h(r[i]); h(q < 0 ? 1 : q > 0 ? 2 : 3); h(e)); break; }
	case OP_str_format: { string f; int r = f.format ("%d:%s:%08x|%5.2f",b,c.s.size() < 100 ? c.s.c_str() ? c.s.c_str() : "" : "long",(unsigned)a,a/7.0); HX(h(r)); hs(f); break; }
	case OP_str_utf8: { string u; for (int i = 0; i < n % 9 + 1; ++i) u += (wchar_t)(k % 3 == 0 ? 'a'+i : k % 3 == 1 ? 0x430+i : 0x20AC+a+i); size_t len = u.length(); uint64_t x = 0; for (string::utf8_iterator i = u.utf8_begin(); i != u.utf8_end(); ++i) x = x*31 + *i; HX(h(len); h(x)); hs(u); break; }
	case OP_str_misc: { string x (c.s), y; y.swap (x); uint32_t hv = y.size() ? string::hash (y.begin(),y.end()) : 0; char buf [16]; y.copyto (buf,sizeof(buf)); HX(h(hv)); HX(hb(buf,strlen(buf))); for (string::iterator i = y.begin(); i != y.end(); ++i) if (*i == 'a') *i = 'A'; hs(y); break; }
	case OP_vec_int: switch (k % 6) { case 0: c.vi.push_back (b); break; case 1: c.vi.insert (c.vi.begin() + a % (c.vi.size()+1),n % 5,a); break; case 2: if (!c.vi.empty()) c.vi.erase (c.vi.begin() + a % c.vi.size()); break; case 3: { vector<int> o (c.vi); o.insert (o.end(),c.vi.begin(),c.vi.end()); c.vi.swap (o); if (c.vi.size() > 200) c.vi.resize (3); break; } case 4: c.vi.resize (n); break; case 5: c.vi.assign (n % 7,a); break; } hc(c.vi); break;
	case OP_vec_str: switch (k % 5) { case 0: c.vs.push_back (c.s); break; case 1: c.vs.insert (c.vs.begin(),string ("first")); break; case 2: if (!c.vs.empty()) c.vs.erase (c.vs.begin() + a % c.vs.size()); break; case 3: if (c.vs.size() < 30) { vector<string> o (c.vs); c.vs.insert (c.vs.end(),o.begin(),o.end()); } else c.vs.clear(); break; case 4: sort (c.vs.begin(),c.vs.end()); break; } hvs(c.vs); break;
	case OP_vec_sort: { vector<int> v; for (int i = 0; i < n; ++i) v.push_back ((a*31 + i*i*7) % 101); if (k & 1) sort (v.begin(),v.end()); else if (k & 2) { stable_sort (v.begin(),v.end()); reverse (v.begin(),v.end()); } else sort (v.begin(),v.end(),greater<int>()); if (k & 4) v.erase (unique (v.begin(),v.end()),v.end()); bool f = binary_search (v.begin(),v.end(),a % 101); HX(h(f)); hc(v); break; }
	case OP_map_: { string key (2,'k'); key[1] = (char)('a'+a%13);
	     switch (k % 4) { case 0: c.m[key] = b; break; case 1: c.m.insert (make_pair (key,b)); break; case 2: { map<string,int>::iterator i = c.m.find (key); if (i != c.m.end()) c.m.erase (i); break; } case 3: { map<string,int> o (c.m); o["zz"] = n; c.m.swap (o); break; } } hm(c.m); break; }
	case OP_set_: if (k & 1) c.st.insert (b % 50); else c.st.erase (b % 50); { set<int> o (c.st); o.insert (n); bool e = o == c.st; HX(h(e)); } hc(c.st); break;
	case OP_multi: c.ms.insert (b % 20); { size_t ct = c.ms.count (b % 20); HX(h(ct)); } if (k % 5 == 0) c.ms.erase (b % 20); hc(c.ms); c.mm.insert (make_pair (n,c.s.size() < 40 ? c.s : string ("big"))); if (c.mm.size() > 20) c.mm.clear(); HX(h(c.mm.size()); for (multimap<int,string>::const_iterator i = c.mm.begin(); i != c.mm.end(); ++i) { h(i->first); hb(i->second.data(),i->second.size()); }); break;
	case OP_list_: if (k % 3) c.l.push_back (b); else c.l.push_front (b); if (k % 5 == 0) c.l.sort(); if (k % 7 == 0 && !c.l.empty()) c.l.pop_front(); { list<int> o; o.push_back (a); o.push_back (n); if (k % 4 == 0) c.l.merge (o); else c.l.splice (c.l.begin(),o); } if (c.l.size() > 60) c.l.clear(); hc(c.l); break;
	case OP_adaptors: c.stk.push (a); c.q.push (b); c.pq.push (n); { int x = c.stk.top(), y = c.q.front(), z = c.pq.top(); HX(h(x); h(y); h(z)); } if (k & 1) c.stk.pop(); if (k & 2) c.q.pop(); if (k & 4) c.pq.pop(); HX(h(c.stk.size()); h(c.q.size()); h(c.pq.size())); break;
	case OP_block: switch (k % 6) { case 0: c.mb.resize (n*3); fill_n (c.mb.begin(),c.mb.size(),(char)a); break; case 1: c.mb.insert (c.mb.begin() + a % (c.mb.size()+1),n % 9); break; case 2: if (c.mb.size() > 4) c.mb.erase (c.mb.begin()+1,3); break; case 3: c.mb.assign ("assigned text",n % 13); break; case 4: { memblock o (c.mb); c.mb.swap (o); if (o.size() > 8) rotate (o.begin(),o.begin()+3,o.end()); HX(hb(o.cdata(),o.size())); break; } case 5: c.mb.reserve (n*10); if (c.mb.size() > 400) c.mb.deallocate(); break; } HX(hb(c.mb.cdata(),c.mb.size())); break;
	case OP_link: { cmemlink l (c.mb.cdata(),c.mb.size()); cmemlink m (l); m.swap (l); bool e = l == m; memlink w; w.link (c.mb); if (w.size() > 6) { w.begin()[2] = (char)a; } HX(h(e); hb(w.cdata(),w.size())); break; }
	case OP_ostr: { ostringstream os; if (k & 1) os << ios::hex; if (k & 2) os << setw(8) << setfill('*'); os << b << ' ' << a*1.25 << ' ' << (k & 4 ? true : false) << '/' << (unsigned long long)a*100000ull << (const char*)"text" << c.vi << 'z'; os.precision (n % 8); os << ios::scientific << a/3.0; os << (wchar_t)(0x430+a%32) << wchar_t('a'+n%26) << (wchar_t)(0x20AC+k); string o; o = os.str(); hs(o); break; }
	case OP_istr: { ostringstream os; os << b << ' ' << a << ".5 word 0x" << ios::hex << n << ios::dec << " \"quo ted\" 12"; string o (os.str()); istringstream is (o); int i = 0; double d = 0; string w, y; unsigned x = 0; is >> i >> d >> w >> x; getline (is,y); istringstream bs (k & 1 ? "true false x 1" : "false 0 true t"); bool t = false, u = false, v = false; char ch = 0; wchar_t wc = 0; bs >> t >> u >> ch >> v >> wc; HX(h(i); h((int64_t)(d*2)); h(x); h(is.rdstate()); h(t+2*u+4*v); h(ch); h(wc)); hs(w); hs(y); break; }
	case OP_ostr_link: { char buf [24]; memset (buf,0,sizeof(buf)); ostringstream os (buf,sizeof(buf)); os.exceptions (k & 1 ? ios::allbadbits : ios::goodbit); try { for (int i = 0; i < n % 12; ++i) os << a+i << ','; } catch (ustl::stream_bounds_exception& e) { HX(h(77); probe(P_EXC)); } HX(hb(buf,sizeof(buf)); h(os.rdstate())); break; }
	case OP_serial: { memblock o (stream_size_of (c.s) + stream_size_of (c.vi) + 64); ostream os (o); os << b << c.s; os.align(); os << c.vi; os.align (8); os << (uint64_t)a; const size_t p = os.pos(); istream is (o); int i; string s; vector<int> v; uint64_t u; is >> i >> s; is.align(); is >> v; is.align (8); is >> u; HX(h(p); h(i); h(u)); hs(s); hc(v); break; }
	case OP_serial_map: { memblock o (stream_size_of (c.m) + 16); ostream os (o); os << c.m; const size_t sz = os.pos(); istream is (o.cdata(),sz > 4 && k % 5 == 0 ? sz - 3 : sz); map<string,int> m; try { is >> m; } catch (ustl::stream_bounds_exception& e) { HX(h(78); probe(P_EXC)); } hm(m); break; }
	case OP_exc: HX(errno = a % 40); try { switch (k % 6) { case 0: throw file_exception ("open","/x"); case 1: throw libc_exception ("calling"); case 2: throw stream_bounds_exception ("read","int",a,n,k); case 3: throw error_message ("message text"); case 4: throw out_of_range ("range"); default: { Boom x; x.v = b; x.s = c.s; throw x; } } }
	    catch (error_message& e) { error_message y (e); string w; ostringstream os (w); y.text_write (os); os.flush(); HX(h(1); probe(P_EXC)); HX(hb(e.what(),strlen(e.what()))); hs(os.str()); }
	    catch (file_exception& e) { ostringstream os; e.text_write (os); HX(h(2); probe(P_EXC)); HX(hb(e.Filename(),strlen(e.Filename()))); (void)os.str(); }
	    catch (ustl::exception& e) { HX(h(3); probe(P_EXC)); HX(hb(e.what(),strlen(e.what()))); }
	    catch (Boom& x) { HX(h(x.v); probe(P_EXC)); hs(x.s); }
	    break;
	case OP_exc_nested: try { try { throw error_message ("inner"); } catch (ustl::exception& e) { string w (e.what() ? e.what() : ""); try { c.vi.at (0); throw runtime_error (w); } catch (ustl::exception& f) { HX(h(5)); HX(hb(f.what(),strlen(f.what()))); } throw; } } catch (ustl::exception& e) { HX(h(6); probe(P_EXC); hb(e.what(),strlen(e.what()))); } break;
	case OP_exc_text: { HX(errno = a % 40); stream_bounds_exception e ("write",typeid(map<string,int>).name(),a,n,k); ostringstream os; e.text_write (os); file_exception f ("close","/some/file"); f.text_write (os); string o (os.str()); HX(hb(o.data(),hmin<size_t>(o.size(),20))); memblock mb (stream_size_of (e) + 8); ostream ws (mb); e.write (ws); break; }
	case OP_backtrace: { CBacktrace bt, b2 (bt); ostringstream os; b2.text_write (os); bt = b2; HX(h(1)); break; }
	case OP_file_write: case OP_file_read: { fstream f; f.exceptions (ios::goodbit); f.open (c.path.c_str(),op == OP_file_write ? ios::out | ios::app : ios::in); char buf [64]; memset (buf,0,sizeof(buf)); if (op == OP_file_write) { for (int i = 0; i < n; ++i) buf[i] = (char)(a+i); off_t r = f.write (buf,n); HX(h(r)); f.sync(); } else { off_t r = f.read (buf,n); HX(h(r)); } HX(h(f.rdstate())); off_t e = f.size(); HX(h(e)); f.close(); HX(hb(buf,n); h(f.rdstate()); if (f.rdstate()) probe(P_FILEFAIL)); f.clear(); break; }
	case OP_block_file: try { if (k & 1) c.s.write_file (c.path.c_str()); else { memblock m; m.read_file (c.path.c_str()); HX(hb(m.cdata(),m.size())); } HX(h(1)); } catch (file_exception& e) { HX(h(e.Errno()); probe(P_FILEFAIL)); } break;
	case OP_ofs_write: try { ofstream o (c.path.c_str()); for (int i = 0; i < n; ++i) o << a+i << ' '; o << c.s << endl; HX(h(o.rdstate())); o.close(); HX(h(o.rdstate())); } catch (file_exception& e) { HX(h(e.Errno()); probe(P_FILEFAIL)); } break;
	case OP_ifs_read: try { ifstream f (c.path.c_str()); int x = 0; string w; for (int i = 0; i < k; ++i) { f >> x; f >> w; HX(h(x); h(f.rdstate())); hs(w); } f.close(); } catch (file_exception& e) { HX(h(e.Errno()); probe(P_FILEFAIL)); } break;
	case OP_algo: { vector<int> v (c.vi.begin(),c.vi.begin() + hmin<size_t>(c.vi.size(),40)), w (v); transform (v,w.begin(),&twice); int ct = count_if (w.begin(),w.end(),&is_even); replace (w.begin(),w.end(),a*2,1); partition (w.begin(),w.end(),&is_even); sort (w.begin(),w.end(),CmpMod()); HX(h(ct)); hc(v); HX(h(w.size())); int mx = v.empty() ? 0 : *max_element (v.begin(),v.end()); HX(h(mx)); int acc = accumulate (v.begin(),v.end(),0); HX(h(acc)); break; }
	case OP_algo2: { vector<short> v (n); fill (v.begin(),v.end(),(short)a); vector<uint8_t> u (n,(uint8_t)b); vector<uint32_t> z (n*2,(uint32_t)a); copy_backward (u.begin(),u.begin()+n/2,u.end()); rotate (z.begin(),z.begin()+n/2,z.end()); iota (v.begin(),v.end(),(short)k); make_heap (v.begin(),v.end()); sort_heap (v.begin(),v.end()); bool p = next_permutation (v.begin(),v.end()); HX(h(p)); hc(v); hc(u); hc(z); vector<int> o (n*2); vector<int>::iterator e = set_union (v.begin(),v.end(),u.begin(),u.end(),o.begin()); HX(h(e - o.begin())); break; }
	case OP_bits: { c.bs.set (a % 70); c.bs.flip (n); bitset<70> o (c.bs); o ^= c.bs; o = ~o; string t; t = c.bs.to_string(); bool any = o.any(); HX(h(any); h(c.bs.to_value())); hs(t); break; }
	case OP_math: { tuple<4,float> t (a,b,n,k), u (1,2,3,4); t += u; t *= 2; float d = 0; for (int i = 0; i < 4; ++i) d += t[i]; array<int,5> y = {{ a,b,n,k,1 }}; sort (y.begin(),y.end()); HX(h((int64_t)d)); HX(for (int i = 0; i < 5; ++i) h(y[i])); double s = inner_product (y.begin(),y.end(),y.begin(),0.0); HX(h((int64_t)s)); break; }
	case OP_ptrs: { shared_ptr<string> p (new string (c.s)), q (p); unique_ptr<vector<int> > u (new vector<int> (c.vi)); auto_ptr<int> x (new int (a)); q->append ("!"); u->push_back (n); HX(h(p.use_count()); h(*x)); hs(*p); hc(*u); break; }
	case OP_tuple_: { pair<string,int> p (c.s,a), q = make_pair (string ("x"),n); swap (p,q); HX(h(p.second); h(q.second); h(p < q)); hs(p.first); hs(q.first); break; }
	case OP_func: { vector<int> v (c.vi); if (v.size() > 30) v.resize (30); foreach (vector<int>::iterator,i,v) *i += k; remove_if (v.begin(),v.end(),bind2nd (less<int>(),a)); transform (v,bind1st (plus<int>(),n)); hc(v); break; }
	// constant objects all threads read
	case OP_sh_str: { string::size_type r = sh.s.find ((char)('a'+a%26)), q = sh.s.find ("shared"); bool e = sh.s == c.s; int cp = sh.s.compare (c.s); char ch = sh.s[a % sh.s.size()]; size_t ln = sh.s.length(); const char* z = sh.s.c_str(); HX(h(r); h(q); h(e); h(cp < 0); h(ch); h(ln); h(strlen(z)); probe(P_SHARED)); string x (sh.s); x += c.s.size() < 50 ? c.s : string(); hs(x); break; }
	case OP_sh_vec: { int sum = accumulate (sh.vi.begin(),sh.vi.end(),0); bool f = binary_search (sh.vi.begin(),sh.vi.end(),a); const int* p = lower_bound (sh.vi.begin(),sh.vi.end(),a); HX(h(sum); h(f); h(p - sh.vi.begin()); h(sh.vi.size()); h(sh.vi.empty()); probe(P_SHARED)); vector<string>::const_iterator i = find (sh.vs.begin(),sh.vs.end(),string ("two")); HX(h(i - sh.vs.begin())); c.vs = sh.vs; hvs(c.vs); break; }
	case OP_sh_map: { map<string,int>::const_iterator i = sh.m.find ("beta"), j = sh.m.find ("none"); HX(h(i->second); h(j == sh.m.end()); probe(P_SHARED)); size_t ct = sh.ms.count (3); set<int>::const_iterator k2 = sh.st.find (7); HX(h(ct); h(*k2)); hm(sh.m); map<string,int> o (sh.m); o["x"] = a; hm(o); multimap<int,string>::const_iterator u = sh.mm.lower_bound (2); HX(h(u->first)); break; }
	case OP_sh_block: { cmemlink l (sh.mb); memblock m (sh.mb); bool e = m == sh.mb; HX(h(e); h(l.size()); hb(l.cdata(),l.size()); probe(P_SHARED)); istream is (sh.mb); uint32_t x, y; is >> x >> y; HX(h(x); h(y)); m.insert (m.end(),3); copy_n (sh.mb.begin(),3,m.end()-3); string s (sh.mb); hs(s); break; }
	case OP_sh_copy: { Ctx* o = 0; list<int> l (sh.l); vector<int> v (sh.vi); set<int> s (sh.st); bitset<70> b2 (sh.bs); b2 |= c.bs; pair<string,int> p (sh.s,1); stack<int> k2 (sh.stk); HX(h(k2.top()); h(sh.stk.top()); h(sh.q.front()); h(sh.pq.top()); probe(P_SHARED)); hc(l); hc(s); (void)o; uint64_t bv = b2.to_value(); HX(h(bv)); break; }
	case OP_sh_text: { ostringstream os; os << sh.s << sh.vi << sh.m.size() << sh.bs; string o (os.str()); hs(o); istringstream is (sh.text); int i = 0; string w; is >> i >> w; HX(h(i); probe(P_SHARED)); hs(w); memblock mb (stream_size_of (sh.m) + stream_size_of (sh.vs)); ostream bs (mb); bs << sh.m << sh.vs; HX(h(bs.pos()); hb(mb.cdata(),bs.pos())); break; }
	case OP_sh_misc: { bool t = sh.bs.test (a % 70); size_t bc = sh.bs.to_string().size(); string f; f.format ("%s/%d",sh.s.c_str(),(int)sh.l.size()); int fr = sh.l.front(), bk = sh.l.back(); uint32_t hv = string::hash (sh.s.begin(),sh.s.end()); HX(h(t); h(bc); h(fr); h(bk); h(hv); probe(P_SHARED)); hs(f); break; }
    }
}
void run(int tid, int si, int pass)
{
    const Step& st = sim.plan->steps[si];
    Ctx& c = *g_ctx[pass][tid];
    H() = 0xcbf29ce484222325ull + st.op;
    Caught ct; ct.kind = TH_NONE;
    g_inop[tid] = st.op+1;
    if (pass) for (int t = 0; t < NT; ++t) if (t != tid && g_inop[t] == st.op+1) probe(P_SAMEOP);
    const uint64_t sw = g_switches;
    TRY(ct, work(st.op,tid,st,c,*g_sh));
    g_inop[tid] = 0;
    if (ct.kind) { h(ct.kind); h(ct.err); if (ct.kind == TH_ALLOC) probe(P_ALLOC); }
    // what the operation left behind
    hs(c.s); hc(c.vi); hvs(c.vs); hm(c.m); h(c.mb.size());
    h((uint64_t)sim.allocidx); h((uint64_t)sim.sysidx);
    if (!pass) { g_res[si] = H(); return; }
    if (g_switches != sw) probe(P_PREEMPTED);
    if (sim.verbose) sim_log("   result %016llx, alone %016llx",(unsigned long long)H(),(unsigned long long)g_res[si]);
    if (H() != g_res[si]) sim_fail("T04","interference","the result differs from what the thread gets alone");
}
void dostep(int tid, int si) { run(tid,si,1); }
void files(int n) { fs_reset(); fs_node(NT,"/tty",NT_TTY,"",0); for (int i = 0; i < 3; ++i) fs_rawopen_at(i,NT,2); for (int t = 0; t < n; ++t) { char pth [8] = { '/','f',(char)('0'+t),0 }; char d [64]; for (int i = 0; i < 64; ++i) d[i] = i % 5 == 4 ? ' ' : (char)('0' + (i*7+t) % 10); static char keep [NT][8]; strcpy(keep[t],pth); fs_node(t,keep[t],NT_REG,d,64); } }
void init(Ctx& c, int t)
{
    LIB(new (&c) Ctx; c.s = "start"; c.s.push_back ((char)('0'+t)); c.t = "in"; c.vi.push_back (t); c.path = "/f"; c.path.push_back ((char)('0'+t)));
}
void exec(const Plan& p)
{
    const int n = (int)hmin<int64_t>(hmax<int64_t>(p.cfg[C_THREADS],1),NT);
    if (p.steps.size() > MAXSTEPS) return;
    static Raw<Ctx> shm; memset(g_inop,0,sizeof(g_inop));
    LIB(g_sh = new (shm.mem) Ctx; g_sh->s = "the shared constant string"; for (int i = 0; i < 20; ++i) { g_sh->vi.push_back (i*i); g_sh->st.insert (i); g_sh->ms.insert (i%5); g_sh->l.push_back (i); g_sh->bs.set (i*3); }
	g_sh->vs.push_back ("one"); g_sh->vs.push_back ("two"); g_sh->m["alpha"] = 1; g_sh->m["beta"] = 2; g_sh->mm.insert (make_pair (1,string ("a"))); g_sh->mm.insert (make_pair (2,string ("b"))); g_sh->mb.assign ("block of bytes",14); g_sh->text = "42 words here"; g_sh->stk.push (4); g_sh->q.push (5); g_sh->pq.push (6));
    for (int ps = 0; ps < 2; ++ps) for (int t = 0; t < n; ++t) init(*g_ctx[ps][t],t);
    files(n);
    for (size_t i = 0; i < p.steps.size(); ++i) { step_begin(p,i); run((int)((uint64_t)p.steps[i].a[0] % n),i,0); }
    sim.step = 0;
    static Bytes was [NT]; for (int t = 0; t < n; ++t) { was[t].clear(); was[t].append(fs.n[t].data,fs.n[t].size); }
    files(n);
    ThrConfig c = { n, (int)p.cfg[C_RATE], (int)p.cfg[C_BRATE], 0, 0 };
    thr_run(p,c,dostep);
    sim.step = 0; sim.stepno = (int)p.steps.size(); sim.allocfaults = false;
    for (int t = 0; t < n; ++t) if (fs.n[t].size != (int64_t)was[t].size() || memcmp(fs.n[t].data,was[t].data(),was[t].size())) sim_fail("T04","interference","the file of thread %d differs from what it writes alone",t);
    if (fs_openfds() != 3) sim_fail("T04","fd-leak","%d descriptors left open",fs_openfds()-3);
    for (int ps = 0; ps < 2; ++ps) for (int t = 0; t < n; ++t) LIB(g_ctx[ps][t]->~Ctx());
    LIB(g_sh->~Ctx());
    arena_check_leaks("T04","at the end");
}
const Scenario S = { "indep", "T04", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg R (&S);
}
