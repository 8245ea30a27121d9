// ifstream and istringstream against a text extraction model, however the data arrives.
#include "device.h"
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
using namespace ustl;

namespace {
enum { OP_CHAR, OP_INT, OP_LONG, OP_UINT, OP_DOUBLE, OP_FLOAT, OP_BOOL, OP_WCHAR, OP_WORD, OP_GET, OP_PEEK, OP_UNGET, OP_GETBUF, OP_GETSTR, OP_GETLINE, OP_LINE, OP_IGNORE, OP_READ, OP_READSOME,
       OP_TELL, OP_SEEK, OP_CLEAR, OP_EXC, OP_BASE, OP_DELIMS, OP_OPEN, OP_CLOSE, OP_NEW, OP_STICKY, OP_DEVICE, OP_FAR, OP_ITER, N_OPS };
const char* const OPS [N_OPS] = { "char","int","long","unsigned","double","float","bool","wchar","word","get","peek","get_unget","get_buf","get_string","getline_buf","getline","ignore","read","readsome",
       "tellg","seekg","clear","exceptions","base","delimiters","open","close","new","sticky_error","device_request","far_offsets","iterate" };
enum { C_TEXT0, C_LEN0, C_TEXT1, C_LEN1, C_JITTER, C_BUF, N_CFG };
const char* const CFG [N_CFG] = { "text_seed_a","length_a","text_seed_b","length_b","arrival","buffer_size" };
enum { P_REFILLED, P_SPLIT, P_EOF, P_ERR, P_RESUMED, P_SEEKED, P_REOPEN, P_THROWN, P_SEEKFAIL, P_ALLOC, P_PIPE, P_FAR, P_ITER, N_PROBES };
const char* const PROBES [N_PROBES] = { "buffer_refilled","extraction_needed_several_reads","reached_end","read_error","resumed_after_error","seek_discarded_buffer","reopened_with_buffered_input","exception_thrown","seek_failed","allocation_failed","pipe_source","offset_beyond_31_bits","iterated" };
enum { NFILE = 3 };
const char* const PATHS [NFILE] = { "/d/alpha", "/d/beta", "/d/pipe" };
const char* const DELIMS [6] = { " \t\n\r;:,.?", " \n", ",;\n", " \t\n|", " \t\n\r;:,.?!|/#%&", " \t\n\r;:,.?!|/#%&ae(" };	// the library keeps the first 15

struct World {
    bool live; int file; int64_t p; int ex; unsigned flags; int base; int delims;
    const char* t [NFILE]; int64_t n [NFILE];	// source texts, unterminated, followed by a guard page
    int64_t pipepos;
    bool deferred;				// a read-ahead failed, but what was asked for was there
    bool nul;				// a zero byte is a delimiter only while there are fewer than 15 others
    bool unknown;				// an error left a pipe at a position nobody can tell
    char mem [sizeof(ifstream)] __attribute__((aligned(16)));
    ifstream& f() { return *reinterpret_cast<ifstream*>(mem); }
};
World* W;

//---------------------------------------------------------------- texts
void put(Bytes& b, const char* s) { b.append((const uint8_t*)s,strlen(s)); }
void maketext(Bytes& b, uint64_t seed, int64_t len)
{
    Rng r (seed*31+5);
    const int style = (int)r.below(4), nuls = r.chance(150) ? 1 + (int)r.below(200) : 0;
    char s [512];
    while ((int64_t)b.size() < len) {
	switch (r.below(style == 0 ? 4 : style == 1 ? 8 : 14)) {
	    case 0: if (r.chance(400)) snprintf(s,sizeof(s),r.chance(700) ? "%llu" : "0x%llx",(unsigned long long)((~0ULL >> (8*r.skewed(5) + r.below(2))) - r.below(3))); else snprintf(s,sizeof(s),"%lld",(long long)(r.next() >> r.below(63))); put(b,s); break;
	    case 1: snprintf(s,sizeof(s),"%d",(int)r.range(-100000,100000)); put(b,s); break;
	    case 2: snprintf(s,sizeof(s),r.chance(500)?"%x":"0x%x",(unsigned)r.next()); put(b,s); break;
	    case 3: snprintf(s,sizeof(s),r.chance(300)?"%e":r.chance(500)?"%.3f":"%g",(double)r.range(-1000000,1000000)/(1+r.below(1000))); put(b,s); break;
	    case 4: { static const char* const odd [] = { "12abc","-","+7","0x","0xg","1e","1e+","1e+5","-1.5e-3","inf","nan","-infinity","1.","..","--5","0777","089","1-2","5e5e5","0x1p3","00000000000000000000012","9999999999999999999999" }; put(b,odd[r.below(22)]); } break;
	    case 5: { int k = 1+(int)r.skewed(30); for (int i = 0; i < k; ++i) b.push('a'+r.below(26)); } break;
	    case 6: { b.push('"'); int k = (int)r.skewed(40); for (int i = 0; i < k; ++i) { int w = (int)r.below(12); if (w == 0) put(b,"\\n"); else if (w == 1) put(b,"\\\"x"); else if (w == 2) b.push(' '); else b.push('A'+r.below(26)); } b.push('"'); } break;
	    case 7: put(b,r.chance(500) ? "true" : "false"); break;
	    case 8: { static const char* const u [] = { "\xc3\xa9","\xe2\x82\xac","\xd0\x96","\xe6\xbc\xa2","\xf0\x9f\x98\x80","\xf4\x8f\xbf\xbf" }; for (int k = (int)r.skewed(4); k >= 0; --k) put(b,u[r.below(6)]); } break;
	    case 9: { int k = 1+(int)r.skewed(400); for (int i = 0; i < k; ++i) b.push(33+r.below(90)); } break;
	    case 10: { int k = 1+(int)r.skewed(200); for (int i = 0; i < k; ++i) b.push(' '); } break;
	    case 11: put(b,"\n\n"); break;
	    case 12: put(b,"'single quoted'"); break;
	    default: { int k = 1+(int)r.skewed(20); for (int i = 0; i < k; ++i) b.push('0'+r.below(10)); } break;
	}
	static const char seps [] = " \n\t,;: \n ";
	if (r.chance(900)) b.push(seps[r.below(9)]);
    }
    b.setn(len);
    for (int64_t i = 0; i < len; ++i) if (!b[i] || r.chance(nuls)) b[i] = nuls ? 0 : ' ';
}

void gen(Rng& r, Plan& p, bool faults)
{
    const bool i2 = p.is("I02");
    const bool huge = r.chance(9);	// beyond what 16 bits count
    const int64_t big = huge ? 150000 : r.chance(300) ? 12000 : r.chance(500) ? 600 : 60;
    p.cfg[C_TEXT0] = r.next() >> 40; p.cfg[C_LEN0] = huge ? 60000+r.below(90000) : r.skewed(big);
    p.cfg[C_TEXT1] = r.next() >> 40; p.cfg[C_LEN1] = r.skewed(big);
    p.cfg[C_JITTER] = faults ? (r.chance(150) ? 0 : huge ? 100+r.below(60000) : 1 + r.skewed(r.chance(500) ? 20 : 3000)) : 0;
    p.cfg[C_BUF] = r.chance(400) ? -1 : r.chance(500) ? r.skewed(40) : r.skewed(6000);
    if (huge && p.cfg[C_BUF] >= 0) p.cfg[C_BUF] += 200;
    if (huge && r.chance(400)) p.cfg[C_BUF] = 66000 + r.below(70000);
    const bool eErr = faults && r.chance(350), eAlloc = faults && r.chance(200), eIntr = faults && r.chance(500), eSeek = faults && r.chance(400);
    p.add(OP_NEW, r.chance(i2 ? 50 : 350) ? 2 : r.below(2));
    if (r.chance(120)) p.add(OP_EXC,r.below(8));
    if (r.chance(300)) p.add(OP_DELIMS,r.below(6));
    int n = 5 + (int)r.skewed(90);
    const int bulk = huge ? 1 : (int)r.below(3); const int64_t much = huge ? 150000 : 6000;
    for (int i = 0; i < n; ++i) {
	const int64_t w = r.below(1000);
	const size_t qi = p.steps.size();
	if (i2 && w < 180) p.add(OP_SEEK,r.chance(800) ? (r.chance(600) ? r.skewed(big) : -r.skewed(big)) : r.range(-20000,20000),r.below(3));
	else if (i2 && w < 240) p.add(OP_TELL);
	else if (i2 && w < 280) p.add(OP_OPEN,r.below(2));
	else if (i2 && w < 290) p.add(OP_CLOSE);
	else if (i2 && w < 295) p.add(OP_FAR,r.below(N_FAR),1+r.skewed(9000),r.next()>>20,r.below(2));
	else if (!i2 && w < 12) p.add(OP_ITER,r.below(3),r.skewed(300),r.next()>>20,r.below(2));
	else switch (r.below(28)) {
	    case 0: case 1: p.add(OP_INT); break;
	    case 2: p.add(OP_LONG,r.below(2)); break;
	    case 3: p.add(r.chance(700) ? OP_UINT : OP_FLOAT,r.below(8)); break;
	    case 4: case 5: p.add(OP_DOUBLE,r.below(2)); break;
	    case 6: p.add(OP_BOOL); break;
	    case 7: p.add(OP_WCHAR); break;
	    case 8: case 9: case 10: p.add(OP_WORD); break;
	    case 11: p.add(OP_CHAR); break;
	    case 12: p.add(OP_GET,r.below(2)); break;
	    case 13: if (r.chance(400)) p.add(OP_PEEK); else p.add(OP_UNGET,r.chance(500) ? 1 : 1+r.below(8),r.chance(500)); break;
	    case 14: p.add(OP_GETBUF,1+r.skewed(200),r.chance(700) ? '\n' : ' '); break;
	    case 15: p.add(OP_GETSTR,r.chance(700) ? '\n' : r.chance(500) ? ',' : ' '); break;
	    case 16: case 17: p.add(OP_GETLINE,1+r.skewed(huge ? 150000 : 200),r.chance(700) ? '\n' : ' '); break;
	    case 18: case 19: p.add(OP_LINE,r.chance(700) ? '\n' : ' '); break;
	    case 20: p.add(OP_IGNORE,r.skewed(huge ? 150000 : bulk ? 300 : 3000),r.chance(500) ? 0 : '\n'); break;
	    case 21: case 22: p.add(OP_READ,1+(huge && r.below(3) ? r.below(much) : r.skewed(bulk == 1 ? much : 100)),r.below(2)); break;
	    case 23: p.add(OP_READSOME,1+(huge && r.below(3) ? r.below(much) : r.skewed(bulk == 1 ? much : 100))); break;
	    case 24: if (r.chance(500)) p.add(OP_TELL); else p.add(OP_DEVICE,r.below(N_DEV),r.below(64)); break;
	    case 25: p.add(OP_BASE,r.below(7),r.below(4)); break;
	    case 26: p.add(OP_DELIMS,r.below(6)); break;
	    default: p.add(OP_CLEAR); break;
	}
	if (r.chance(i2 ? 300 : 120)) p.add(OP_CLEAR);
	if (eErr && r.chance(30)) p.add(OP_STICKY,r.chance(500) ? 5 : 0);
	Step& st = p.steps[qi];
	if (st.op <= OP_READSOME) st.a[2] = r.below(4);
	if (st.op == OP_TELL || st.op == OP_FAR || st.op == OP_ITER || !faults) continue;
	if (eErr && r.chance(120)) addfault(st,F_ERR,(int)r.skewed(4),1,5);
	if (eSeek && st.op == OP_SEEK && r.chance(300)) addfault(st,F_ERR,0,1,r.chance(500) ? 29 : 5);
	if (eAlloc && r.chance(120)) addfault(st,F_ALLOC,(int)r.skewed(3),1,0);
	if (eIntr && r.chance(300)) addfault(st,F_EINTR,(int)r.skewed(5),1+(int)r.skewed(6),0);
    }
}

//---------------------------------------------------------------- the model
bool isdelim(char c) { return !c || memchr(DELIMS[W->delims],c,strnlen(DELIMS[W->delims],15)); }
struct Expect {
    int64_t np;		// position afterwards
    bool eof;		// needed data after the end
    bool judged;	// value and position are specified
    bool stateok;	// state is specified
    bool hasg; int64_t g;	// gcount
    long num; double dbl; bool isnum, isdbl;
    Bytes text; bool istext;
};
int utf8len(const char* t, int64_t n)
{
    const uint8_t c = t[0]; const int k = c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
    if (!k || k > n) return 0;
    for (int i = 1; i < k; ++i) if ((t[i] & 0xc0) != 0x80) return 0;
    return k;
}
int64_t ungets(const int64_t* a) { return 1 + (int64_t)((uint64_t)(a[0]-1) % 8); }
int utype(const int64_t* a) { return (int)((uint64_t)a[0] % 8); }	// the other integers: unsigned, short, unsigned short, unsigned char, signed char, unsigned long, unsigned long long, once more unsigned long
bool isbyte(const int64_t* a) { return utype(a) == 3 || utype(a) == 4; }
Expect model(int op, const int64_t* a, const char* t, int64_t n, int base)
{
    Expect x; memset(&x.np,0,sizeof(int64_t)); x.np = 0; x.eof = false; x.judged = x.stateok = true; x.hasg = false; x.g = 0; x.isnum = x.isdbl = x.istext = false; x.num = 0; x.dbl = 0;
    int64_t i = 0;
    if (op <= OP_WORD) {
	while (i < n && isdelim(t[i])) ++i;
	if (i >= n) { x.np = n; x.eof = true; x.judged = false; if (op >= OP_INT && op <= OP_UINT && !(op == OP_UINT && isbyte(a))) { x.isnum = true; } if (op == OP_WORD) x.istext = true; return x; }
    }
    switch (op) {
	case OP_CHAR: x.isnum = true; x.num = t[i]; x.np = i+1; break;
	case OP_INT: case OP_LONG: case OP_UINT: case OP_DOUBLE: case OP_FLOAT: {
	    if (op == OP_UINT && isbyte(a)) { x.isnum = true; x.num = utype(a) == 3 ? (long)(uint8_t)t[i] : (long)(signed char)t[i]; x.np = i+1; break; }
	    Bytes z; z.append((const uint8_t*)t+i,hmin<int64_t>(n-i,2000)); z.push(0);
	    char* e; const char* s = (const char*)z.data();
	    if (op == OP_DOUBLE || op == OP_FLOAT) { x.isdbl = true; x.dbl = strtod(s,&e); if (op == OP_FLOAT) x.dbl = (float)x.dbl; }
	    else { x.isnum = true; x.num = strtol(s,&e,base); if (op == OP_INT) x.num = (int)x.num; if (op == OP_UINT && !utype(a)) x.num = (unsigned)(int)x.num; }
	    if (op == OP_UINT && utype(a)) {	// only numbers the type can hold are specified
		const long v = x.num;
		switch (utype(a)) {
		    case 1: x.isnum = v >= -32768 && v <= 32767; break;
		    case 2: x.isnum = v >= 0 && v <= 65535; break;
		    default: { errno = 0; x.num = (long)strtoul(s,&e,base); x.isnum = !errno && !memchr(s,'-',e-s); } break;
		}
	    }
	    x.np = i + (e-s);
	    x.eof = x.np == n;
	    // text that merely looks like the beginning of a number at the end of input
	    { int64_t k = i; while (k < n && (isalnum((uint8_t)t[k]) || strchr("+-.()_",t[k]))) ++k; if (k == n && x.np < n) x.stateok = false; }
	    if (e-s >= 1990) x.judged = x.stateok = false;
	    break; }
	case OP_BOOL: {
	    const bool v = t[i] == 't' || t[i] == '1'; const char* tf = v ? "true" : "false";
	    x.isnum = true; x.num = v; x.np = i+1;
	    if (t[i] != tf[0]) break;
	    int k = 0; while (tf[k] && i+k < n && t[i+k] == tf[k]) ++k;
	    x.np = i+k; x.eof = x.np == n;
	    break; }
	case OP_WCHAR: {
	    const int k = utf8len(t+i,n-i);
	    if (!k) { x.judged = x.stateok = false; break; }
	    x.isnum = true; x.np = i+k;
	    x.num = k == 1 ? t[i] : k == 2 ? (t[i] & 0x1f)<<6 | (t[i+1] & 0x3f) : k == 3 ? (t[i] & 0xf)<<12 | (t[i+1] & 0x3f)<<6 | (t[i+2] & 0x3f) : (t[i] & 7)<<18 | (t[i+1] & 0x3f)<<12 | (t[i+2] & 0x3f)<<6 | (t[i+3] & 0x3f);
	    break; }
	case OP_WORD: {
	    x.istext = true;
	    char c = t[i++], prev, q = 0;
	    if (c == '"' || c == '\'') q = c; else x.text.push(c);
	    bool done = false;
	    while (!done && i < n) {
		prev = c; c = t[i++];
		if (!q && isdelim(c)) { done = true; break; }
		if (prev == '\\' && !x.text.empty()) {
		    switch (c) { case 't': c = '\t'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case 'b': c = '\b'; break; case 'E': c = 27; break; }
		    x.text.back() = c;
		} else { if (c == q) { done = true; break; } x.text.push(c); }
	    }
	    x.eof = !done; x.np = i;
	    break; }
	case OP_UNGET: {	// several characters read and put back, maybe with a look at the next one between
	    const int64_t k = ungets(a);
	    if (n <= k) { x.judged = false; break; }
	    x.istext = true; x.text.append((const uint8_t*)t,k); x.np = 0; break; }
	case OP_GET: case OP_PEEK:
	    x.isnum = true;
	    if (!n) { x.np = 0; x.eof = true; x.num = EOF; break; }
	    x.num = t[0]; x.np = op == OP_GET; break;
	case OP_GETBUF: case OP_GETLINE: case OP_GETSTR: case OP_LINE: {
	    const bool str = op == OP_GETSTR || op == OP_LINE; const char d = str ? a[0] : a[1];
	    const int64_t lim = str ? 1<<30 : a[0]-1;
	    x.istext = x.hasg = true;
	    while (i < n && (int64_t)x.text.size() < lim && t[i] != d) x.text.push(t[i++]);
	    x.g = x.text.size();
	    if (x.g < lim && i == n) x.eof = true;
	    if (op == OP_GETLINE || op == OP_LINE) {
		if (i < n && t[i] == d) { ++i; ++x.g; }
		else if (i == n) x.stateok = false;	// whether a full buffer looks further is not specified
	    }
	    x.np = i;
	    break; }
	case OP_IGNORE: {
	    int64_t k = 0; bool hit = false;
	    while (k < a[0] && i < n && !hit) { ++k; hit = t[i++] == (char)a[1]; }
	    x.hasg = true; x.g = k; x.np = i; x.eof = k < a[0] && !hit;
	    break; }
	case OP_READ:
	    x.istext = x.hasg = true; x.g = hmin<int64_t>(a[0],n); x.text.append((const uint8_t*)t,x.g); x.np = x.g; x.eof = a[0] > n;
	    break;
	case OP_READSOME:
	    x.istext = true; x.np = hmin<int64_t>(a[0],n); x.text.append((const uint8_t*)t,x.np); x.eof = a[0] > n;
	    break;
    }
    return x;
}
//---------------------------------------------------------------- the library
struct Got { long num; double dbl; Bytes text; int64_t g; };
char* BUF;
template <typename S> void perform(S& f, int op, const int64_t* a, Got& g, Caught& c)
{
    g.num = 0; g.dbl = 0; g.text.clear(); g.g = 0;
    const int64_t n = hmin<int64_t>(hmax<int64_t>(1,a[0]),150000);
    switch (op) {
	case OP_CHAR: { char v = 0; TRY(c, f >> v); g.num = v; break; }
	case OP_INT: { int v = 77; TRY(c, f >> v); g.num = v; break; }
	case OP_LONG: if (a[0] & 1) { long long v = 77; TRY(c, f >> v); g.num = v; break; } else { long v = 77; TRY(c, f >> v); g.num = v; break; }
	case OP_UINT:
	    switch (utype(a)) {
		case 0: { unsigned v = 77; TRY(c, f >> v); g.num = v; break; }
		case 1: { short v = 77; TRY(c, f >> v); g.num = v; break; }
		case 2: { unsigned short v = 77; TRY(c, f >> v); g.num = v; break; }
		case 3: { unsigned char v = 77; TRY(c, f >> v); g.num = v; break; }
		case 4: { signed char v = 77; TRY(c, f >> v); g.num = v; break; }
		case 6: { unsigned long long v = 77; TRY(c, f >> v); g.num = v; break; }
		default: { unsigned long v = 77; TRY(c, f >> v); g.num = v; break; }
	    }
	    break;
	case OP_DOUBLE: if (a[0] & 1) { long double v = 77; TRY(c, f.iread(v)); g.dbl = (double)v; break; } else { double v = 77; TRY(c, f.iread(v)); g.dbl = v; break; }
	case OP_FLOAT: { float v = 77; TRY(c, f.iread(v)); g.dbl = v; break; }
	case OP_BOOL: { bool v = false; TRY(c, f >> v); g.num = v; break; }
	case OP_WCHAR: { wchar_t v = 0; TRY(c, f >> v); g.num = v; break; }
	case OP_WORD: case OP_GETSTR: case OP_LINE: {
	    LibScope _l; string v;
	    if (op == OP_WORD) TRY(c, f >> v); else if (op == OP_GETSTR) TRY(c, f.get(v,(char)a[0])); else TRY(c, f.getline(v,(char)a[0]));
	    sim.on = false; g.text.append((const uint8_t*)v.begin(),v.size()); sim.on = true;
	    break; }
	case OP_GET: if (a[0] & 1) { char v = EOF; TRY(c, f.get(v)); g.num = v; break; } else { int v = 0; TRY(c, v = f.get()); g.num = (char)v; break; }
	case OP_PEEK: { int v = 0; TRY(c, v = f.peek()); g.num = (char)v; break; }
	case OP_UNGET: {
	    const int64_t k = ungets(a); char v [8] = ""; int64_t got = 0;
	    TRY(c, for (; got < k && (f.get(v[got]), f.gcount()); ++got) {} if (a[1] & 1) f.peek(); for (int64_t j = 0; j < got; ++j) f.unget());
	    g.text.append((const uint8_t*)v,got); break; }
	case OP_GETBUF: case OP_GETLINE: {
	    char* b = BUF + 160000 - n;	// ends at the guard page
	    memset(b,0x55,n);
	    if (op == OP_GETBUF) TRY(c, f.get(b,n,(char)a[1])); else TRY(c, f.getline(b,n,(char)a[1]));
	    const char* z = (const char*)memrchr(b,0,n);	// nothing is stored after the terminator
	    if (!z) { if (c.kind == TH_NONE) sim_fail("I01","unterminated","buffer is not terminated"); }
	    else g.text.append((const uint8_t*)b,z-b);
	    break; }
	case OP_IGNORE: TRY(c, f.ignore(hmax<int64_t>(0,a[0]),(char)a[1])); break;
	case OP_READ: { char* b = BUF + 160000 - n; memset(b,0x55,n); if (a[1] & 1) { memlink l (b,n); TRY(c, f.read(l)); if (l.data() != b || (int64_t)l.size() != n) sim_fail("I01","link-changed","read changed the link it reads into"); } else TRY(c, f.read(b,n)); if (c.kind == TH_NONE) g.text.append((const uint8_t*)b,hmin<int64_t>(n,f.gcount())); break; }
	case OP_READSOME: { char* b = BUF + 160000 - n; memset(b,0x55,n); int64_t k = 0; TRY(c, k = f.readsome(b,n)); g.text.append((const uint8_t*)b,hmin<int64_t>(n,k)); break; }
    }
    g.g = f.gcount();
}
bool same(const Expect& x, const Got& g, char* why)
{
    if (x.isnum && x.num != g.num) { snprintf(why,160,"extracted %ld, the text says %ld",g.num,x.num); return false; }
    if (x.isdbl && !(x.dbl == g.dbl || (isnan(x.dbl) && isnan(g.dbl)))) { snprintf(why,160,"extracted %.17g, the text says %.17g",g.dbl,x.dbl); return false; }
    if (x.istext && x.text != g.text) { size_t k = 0; while (k < x.text.size() && k < g.text.size() && x.text[k] == g.text[k]) ++k; snprintf(why,160,"extracted %llu bytes, the text has %llu, first difference at %llu",(unsigned long long)g.text.size(),(unsigned long long)x.text.size(),(unsigned long long)k); return false; }
    if (x.hasg && x.g != g.g) { snprintf(why,160,"gcount is %lld, %lld characters were extracted",(long long)g.g,(long long)x.g); return false; }
    return true;
}
int readerrs(void) { int k = 0; for (size_t i = 0; i < sim.trace.size(); ++i) k += sim.trace[i].call == SYS_READ && sim.trace[i].res < 0 && sim.trace[i].err != EINTR; return k; }
void configure(istringstream& s) { LIB(s.flags(W->flags); s.set_delimiters(DELIMS[W->delims])); }

void extract(int op, const int64_t* a)
{
    if (!W->live || W->f().fd() < 0) return;
    const int64_t p = W->p, rest = W->n[W->file] - hmin(p,W->n[W->file]);
    const char* t = W->t[W->file] + W->n[W->file] - rest;
    Expect x = model(op,a,t,rest,W->base);
    if (!x.judged && !x.eof) return;		// not a specified extraction here
    if (op == OP_UNGET && x.eof) return;
    char why [200];
    Got g; Caught c;
    // the same extraction from memory
    {
	Step none = *sim.step; none.nf = 0; const Step* s0 = sim.step; sim.step = &none;	// no faults
	LibScope l; string ts; istringstream is (t,rest);
	switch ((uint64_t)a[2] % 4) {	// every way to refer to the same text
	    case 0: break;
	    case 1: is.link (t,size_t(0)); is.link (t,rest); break;
	    case 2: ts.assign (t,rest); is.str (ts); is.seekg (0,ios_base::end); if (is.remaining()) sim_fail("I01","wrong-position","istringstream: seekg to the end leaves %llu bytes",(unsigned long long)is.remaining()); is.seekg (0); break;
	    default: { cmemlink cl (t,rest); istringstream i2 (cl); is.link (i2.data(),i2.size()); string s3 (is.str()); if (s3.size() != (size_t)rest || (rest && memcmp(s3.data(),t,rest))) sim_fail("I01","wrong-value","istringstream: str() is not the text"); break; }
	}
	sim.on = false;
	configure(is);
	perform(is,op,a,g,c);
	sim.step = s0; sim.trace.clear(); sim.sysidx = sim.allocidx = 0;
	if (x.judged && !same(x,g,why)) sim_fail("I01","wrong-value","istringstream: %s",why);
	if (x.judged && is.pos() != (size_t)x.np) sim_fail("I01","wrong-position","istringstream: %llu bytes consumed, expected %lld",(unsigned long long)is.pos(),(long long)x.np);
	if (x.stateok && is.good() == x.eof) sim_fail("I01","wrong-state","istringstream: state is %u, %s end of text was reached",(unsigned)is.rdstate(),x.eof ? "the" : "no");
    }
    ifstream& f = W->f();
    const unsigned st0 = f.rdstate();
    perform(f,op,a,g,c);
    const unsigned st = f.rdstate();
    const int errs = readerrs() + (W->deferred && st);
    if (errs) W->deferred = !st && c.kind == TH_NONE;
    const int reads = count_sys(SYS_READ);
    if (reads) probe(P_REFILLED); if (reads > 1) probe(P_SPLIT); if (x.eof) probe(P_EOF); if (errs) probe(P_ERR); if (c.kind == TH_ALLOC) probe(P_ALLOC); if (c.kind == TH_FILE || c.kind == TH_BOUNDS) probe(P_THROWN);
    if (c.kind == TH_OTHER || (c.kind == TH_ALLOC && !sim.allocfaults)) sim_fail("I01","wrong-exception","extraction threw %s %s",thname(c.kind),c.op);
    if ((c.kind == TH_FILE || c.kind == TH_BOUNDS) && !W->ex) sim_fail("I01","spurious-throw","extraction threw %s although exceptions are off",thname(c.kind));
    if (c.kind == TH_FILE && !errs && !st0) sim_fail("I01","spurious-throw","extraction threw file_exception although no read failed");
    if (c.kind == TH_BOUNDS && !x.eof && x.stateok && !errs && !st0) sim_fail("I01","spurious-throw","extraction threw stream_bounds_exception before the end of the text");
    const bool regular = W->file < 2;
    if (!errs && !st0 && c.kind == TH_BOUNDS && x.judged && (op == OP_INT || op == OP_LONG || (op == OP_DOUBLE && !(a[0] & 1))) && rest && !same(x,g,why)) sim_fail("I01","wrong-value","ifstream at offset %lld, reporting the end by exception: %s",(long long)p,why);
    if (!errs && c.kind == TH_NONE && !(st0 & ~(unsigned)ios_base::eofbit & ~(unsigned)ios_base::failbit)) {
	// how the data arrived must not matter
	const bool stuck = st0 && reads == 0 && rest && (int64_t)f.remaining() < rest;	// a failed stream reads no further until cleared
	if (!stuck || (st0 == 0)) {
	    if (x.judged && !same(x,g,why)) { if (st0) { W->unknown = !regular; goto resync; } sim_fail("I01","wrong-value","ifstream at offset %lld: %s",(long long)p,why); sim_exit_run(); }
	    if (!st0 && x.stateok && (st == 0) == x.eof) sim_fail("I01","wrong-state","ifstream: state is %u, %s end of file was reached",st,x.eof ? "the" : "no");
	    if (x.judged || x.eof) W->p = p + x.np;
	}
    }
    if (regular) {
    resync:
	if (!regular) return;
	int64_t tg = -2; Caught c2; const Step* s0 = sim.step; sim.step = 0; TRY(c2, tg = f.tellg()); sim.step = s0;
	const bool failed = errs || c.kind != TH_NONE || st0;
	if (!failed) {
	    if (tg != W->p) { sim_fail("I01","wrong-position","after the extraction tellg() is %lld, expected %lld",(long long)tg,(long long)W->p); sim_fail("I02","wrong-position","after the extraction tellg() is %lld, expected %lld",(long long)tg,(long long)W->p); sim_exit_run(); }
	} else {
	    // an interrupted extraction ends somewhere within what it would have consumed
	    if (tg < p || tg > p + hmax(op == OP_UNGET ? ungets(a) : x.np,(int64_t)0)) {
		sim_fail("I02","wrong-position","failed extraction at %lld left tellg() at %lld, expected at most %lld",(long long)p,(long long)tg,(long long)(p+x.np)); 
		sim_fail("I01","wrong-position","failed extraction at %lld left tellg() at %lld, expected at most %lld",(long long)p,(long long)tg,(long long)(p+x.np)); sim_exit_run();
	    }
	    if (tg < p + x.np && x.judged && st == 0 && c.kind == TH_NONE) sim_fail("I01","silent-failure","extraction stopped at %lld of %lld bytes because of a read error, but the stream is good",(long long)(tg-p),(long long)x.np);
	    if (op == OP_READ && c.kind == TH_NONE && (int64_t)g.text.size() != tg-p) sim_fail("I01","lost","read returned %llu bytes but consumed %lld",(unsigned long long)g.text.size(),(long long)(tg-p));
	    if (errs) probe(P_RESUMED);
	    W->p = tg;
	}
    } else if (errs || c.kind != TH_NONE) W->unknown = true;
}
void makenew(int file)
{
    Caught c;
    if (W->live) { LIB(W->f().~ifstream()); W->live = false; }
    sim.trace.clear();
    TRY(c, new (W->mem) ifstream (PATHS[file],fstream::in));
    if (c.kind != TH_NONE) { if (c.kind != TH_ALLOC || !sim.allocfaults) sim_fail("I01","spurious-throw","constructor threw %s",thname(c.kind)); return; }
    if (file == 2) probe(P_PIPE);
    W->live = true; W->ex = 0; W->flags = 0; W->base = 0; W->delims = 0; W->file = file; W->p = file == 2 ? W->pipepos : 0;
    const Step* s0 = sim.step; sim.step = 0;
    if (sim.plan->cfg[C_BUF] >= 0) TRY(c, W->f().set_buffer_size(hmin<int64_t>(140000,sim.plan->cfg[C_BUF])));
    sim.step = s0;
}
// Reading text of a sparse file beyond what 31, 32 or 33 bits count.
void far_offsets(const int64_t* a)
{
    const int64_t base = FAR [(uint64_t)a[0] % N_FAR]; Rng r ((uint64_t)a[2]); const int sticky = fs.stickyread; fs.stickyread = 0;
    Bytes b; patfill(b,78,hmax<int64_t>(1,hmin<int64_t>(a[1],10000)));
    fs_node(FARNODE,"/d/far",NT_REG,b.data(),b.size()); Node& nd = fs.n[FARNODE]; nd.base = base; nd.jitter = a[3] ? 1+r.below(3000) : 0;
    Caught c; c.kind = TH_NONE; static char mem [sizeof(ifstream)] __attribute__((aligned(16))); ifstream& f = *(ifstream*)mem;
    TRY(c, new (mem) ifstream("/d/far"));
    const int64_t size = base + (int64_t)b.size(); int64_t pos = 0; static const ios_base::seekdir D [] = { ios_base::beg, ios_base::cur, ios_base::end }; static char buf [6000];
    for (int k = 4+(int)r.below(10); k-- && c.kind == TH_NONE;) {
	switch (pos < base || pos >= size ? 0 : r.below(7)) {
	    case 0: case 1: { const int64_t to = base + r.skewed(b.size()), wh = r.below(3), from = wh == 0 ? 0 : wh == 1 ? pos : size; TRY(c, f.seekg(to-from,D[wh])); pos = to; probe(P_FAR); break; }
	    case 2: case 3: { const int64_t n = r.skewed(hmin<int64_t>(size-pos,5000)); TRY(c, f.read(buf,n)); if (memcmp(buf,b.data()+(pos-base),n)) sim_fail("I02","wrong-data","reading at offset %lld gave other text",(long long)pos); pos += n; break; }
	    case 4: { int ch = -1; TRY(c, ch = (uint8_t)f.get()); if (ch != b[pos-base]) sim_fail("I02","wrong-data","get() at offset %lld gave %d, the file has %d",(long long)pos,ch,(int)b[pos-base]); ++pos; break; }
	    case 5: { const int64_t n = r.skewed(hmin<int64_t>(size-pos,3000)); TRY(c, f.ignore(n,b[pos-base] ^ 1)); pos = size+1; break; }	// wherever the delimiter was
	    default: { int64_t n = r.skewed(hmin<int64_t>(size-pos,5000)), v = -1; TRY(c, v = f.readsome(buf,n)); if (v < 0 || v > n || memcmp(buf,b.data()+(pos-base),v)) { sim_fail("I02","wrong-data","readsome(%lld) at offset %lld gave %lld bytes of other text",(long long)n,(long long)pos,(long long)v); v = 0; } pos += v; break; }
	}
	int64_t t = -1; TRY(c, t = f.tellg());
	if (pos == size+1) { if (t < base || t > size) sim_fail("I02","wrong-position","after ignore tellg() is %lld, the text is from %lld to %lld",(long long)t,(long long)base,(long long)size); pos = t; }
	if (t != pos) { sim_fail("I02","wrong-position","tellg() is %lld, the next byte to extract is at %lld",(long long)t,(long long)pos); break; }
	LIB(f.clear());
    }
    if (c.kind != TH_NONE) sim_fail("I02","spurious-throw","nothing failed at offset %lld, but %s was thrown",(long long)pos,thname(c.kind));
    LIB(f.~ifstream());
    nd.path = 0; nd.exists = false; nd.base = 0; nd.size = 0; nd.jitter = 0; fs.stickyread = sticky;
}
// A source walked with stream iterators gives its values one by one.  One that the end of the source cuts off may or may not be given.
void tok_text(Bytes& b, long v) { char s [32]; snprintf(s,sizeof(s),"%ld",v); b.append((const uint8_t*)s,strlen(s)); }
void tok_text(Bytes& b, const string& v) { b.append((const uint8_t*)v.begin(),v.size()); }
void tok_text(Bytes& b, char v) { b.push(v); }
void tok_text(Bytes& b, int v) { tok_text(b,(long)v); }
// values, each from one offset to the next
struct Toks { Bytes b; Vec<size_t> at; size_t size() const { return at.size(); } void push(const Bytes& t) { at.push(b.size()); b.append(t.data(),t.size()); }
    const uint8_t* tok(size_t i) const { return b.data()+at[i]; } size_t len(size_t i) const { return (i+1 < at.size() ? at[i+1] : b.size()) - at[i]; } };
template <typename T, typename S> void iterate_over(S& f, const Toks& want, bool cut, const char* what)
{
    size_t n = 0; bool past = false; Caught c; c.kind = TH_NONE;
    TRY(c, { istream_iterator<T,S> i (f), e; const size_t lim = want.size()+5;
	for (; !(i == e) && n < lim; ++i, ++n) {
	    HxScope hx; Bytes got; { const T& v = *i; tok_text(got,v); }
	    if (n >= want.size()) { past = true; break; }
	    if (got.size() != want.len(n) || memcmp(got.data(),want.tok(n),got.size())) { sim_fail("I01","wrong-text","%s: value %zu walked to has %zu characters, expected %zu",what,n,got.size(),want.len(n)); break; }
	} });
    if (c.kind != TH_NONE) sim_fail("I01","spurious-throw","%s: nothing failed, but %s was thrown",what,thname(c.kind));
    if (past) sim_fail("I01","wrong-count","%s: walking the source gave more than its %zu values",what,want.size());
    else if (n != want.size() && !(cut && n+1 == want.size())) sim_fail("I01","wrong-count","%s: walking the source gave %zu values, expected %zu",what,n,want.size());
}
void iterate(const int64_t* a)
{
    const int kind = (int)((uint64_t)a[0] % 3); Rng r ((uint64_t)a[2]); const int sticky = fs.stickyread; fs.stickyread = 0;
    Bytes b; Toks want; bool cut = false; const int n = (int)hmax<int64_t>(0,hmin<int64_t>(a[1],500)); static const char* const SEP [] = { " ", "\n", "  ", "\t", " \n " };
    if (r.chance(200)) put(b,SEP[r.below(5)]);
    for (int i = 0; i < n; ++i) {
	Bytes t;
	if (kind == 0) tok_text(t,(long)(r.chance(500) ? r.range(-9,99) : (int32_t)r.next()));
	else if (kind == 1) { for (int k = 1+(int)r.skewed(r.chance(20) ? 300 : 12); k--;) t.push('a'+r.below(26)); }
	else t.push('a'+r.below(26));
	b.append(t.data(),t.size()); want.push(t);
	if (i+1 < n || r.chance(700)) { if (kind < 2 || r.chance(500)) put(b,SEP[r.below(5)]); } else cut = true;
    }
    if (kind == 2) cut = true;	// no more than its end tells a character from the end
    fs_node(FARNODE,"/d/far",NT_REG,b.data(),b.size()); Node& nd = fs.n[FARNODE]; nd.base = 0; nd.jitter = a[3] ? 1+r.below(40) : 0;
    Caught c; c.kind = TH_NONE; static char mem [sizeof(ifstream)] __attribute__((aligned(16))); ifstream& f = *(ifstream*)mem;
    TRY(c, new (mem) ifstream("/d/far")); probe(P_ITER);
    if (c.kind == TH_NONE) {
	LIB(f.exceptions (0));
	if (kind == 0) iterate_over<int>(f,want,cut,"numbers of a file"); else if (kind == 1) iterate_over<string>(f,want,cut,"words of a file"); else iterate_over<char>(f,want,cut,"characters of a file");
	LIB(f.~ifstream());
	char* t = (char*)arena_place(b.size(),0); memcpy(t,b.data(),b.size());
	static char m2 [sizeof(istringstream)] __attribute__((aligned(16))); istringstream& s = *(istringstream*)m2; LIB(new (m2) istringstream(t,b.size())); LIB(s.exceptions (0));
	if (kind == 0) iterate_over<int>(s,want,cut,"numbers of a text"); else if (kind == 1) iterate_over<string>(s,want,cut,"words of a text"); else iterate_over<char>(s,want,cut,"characters of a text");
	LIB(s.~istringstream());
    } else sim_fail("I01","spurious-throw","opening failed with %s",thname(c.kind));
    nd.path = 0; nd.exists = false; nd.base = 0; nd.size = 0; nd.jitter = 0; fs.stickyread = sticky;
}
void step(int op, const int64_t* a)
{
    ifstream& f = W->f(); Caught c;
    if (W->unknown) return;
    switch (op) {
	case OP_NEW: if (!W->live) makenew((int)((uint64_t)a[0] % NFILE)); break;
	case OP_TELL: {
	    if (!W->live || f.fd() < 0 || W->file == 2) break;
	    int64_t tg = 0; TRY(c, tg = f.tellg());
	    if (tg != W->p) sim_fail("I02","wrong-position","tellg() is %lld, the next byte to extract is at %lld",(long long)tg,(long long)W->p);
	    break; }
	case OP_SEEK: {
	    if (!W->live || f.fd() < 0 || W->file == 2) break;
	    const int wh = (int)((uint64_t)a[1] % 3);
	    const int64_t want = (wh == 0 ? 0 : wh == 1 ? W->p : W->n[W->file]) + a[0];
	    const unsigned st0 = f.rdstate();
	    TRY(c, f.seekg(a[0],wh == 0 ? ios_base::beg : wh == 1 ? ios_base::cur : ios_base::end));
	    bool err = false; for (size_t i = 0; i < sim.trace.size(); ++i) err |= sim.trace[i].res < 0;
	    if (c.kind != TH_NONE && !(c.kind == TH_FILE && W->ex)) sim_fail("I02","spurious-throw","seekg threw %s",thname(c.kind));
	    if (want < 0 && !err) sim_fail("I02","seek-accepted","seekg to offset %lld succeeded",(long long)want);
	    if (err) { probe(P_SEEKFAIL); if (c.kind == TH_NONE && f.good()) sim_fail("I02","silent-failure","seekg failed, but the stream is good"); }
	    else {
		if (c.kind != TH_NONE) sim_fail("I02","spurious-throw","seekg threw %s although it did not fail",thname(c.kind));
		if (!st0 && !f.good()) sim_fail("I02","spurious-state","seekg succeeded, but the state is %u",(unsigned)f.rdstate());
		W->p = want; W->deferred = false; probe(P_SEEKED);
	    }
	    int64_t tg = 0; Caught c2; const Step* s0 = sim.step; sim.step = 0; TRY(c2, tg = f.tellg()); sim.step = s0;
	    if (tg != W->p) { sim_fail("I02","wrong-position","after seekg tellg() is %lld, expected %lld",(long long)tg,(long long)W->p); sim_exit_run(); }
	    break; }
	case OP_CLEAR: if (W->live) LIB(f.clear()); W->deferred = false; break;
	case OP_EXC: if (W->live) { W->ex = (int)a[0] & 7; LIB(f.exceptions((unsigned)W->ex)); } break;
	case OP_BASE: if (W->live) {
	    const int how = (int)((uint64_t)a[1] % 4);
	    if (how == 3) {	// the flags that only output looks at are still kept
		static const unsigned G [8] = { ios_base::left, ios_base::right, ios_base::internal, ios_base::fixed, ios_base::scientific, ios_base::boolalpha, ios_base::left, ios_base::fixed };
		static const unsigned M [8] = { ios_base::adjustfield, ios_base::adjustfield, ios_base::adjustfield, ios_base::floatfield, ios_base::floatfield, 0, ios_base::adjustfield, ios_base::floatfield };
		const unsigned q = (unsigned)((uint64_t)a[0] % 8);
		W->flags = (W->flags & ~M[q]) | G[q];
		LIB(f.iread((ios_base::fmtflags_bits)G[q]));
	    } else {
		const int b = (int)((uint64_t)a[0] % 4);
		const unsigned nb = b == 1 ? ios_base::hex : b == 2 ? ios_base::oct : b == 3 ? ios_base::dec : 0;
		W->base = b == 1 ? 16 : b == 2 ? 8 : 0;
		if (!how || !nb) { W->flags = nb; configure(f); }
		else {
		    W->flags = (W->flags & ~ios_base::basefield) | nb;
		    if (how == 1) LIB(f.setf(nb,ios_base::basefield)); else LIB(f.iread((ios_base::fmtflags_bits)nb));
		}
	    }
	    if (f.flags() != W->flags) sim_fail("I01","wrong-flags","the number base is %u, %u was set",(unsigned)f.flags(),W->flags);
	} break;
	case OP_DELIMS: if (W->live) { W->delims = (int)((uint64_t)a[0] % (W->nul ? 4 : 6)); configure(f); } break;
	case OP_OPEN: {
	    if (!W->live) break;
	    const int file = (int)((uint64_t)a[0] % 2);
	    if (f.fd() >= 0 && f.remaining()) probe(P_REOPEN);
	    TRY(c, f.open(PATHS[file])); W->deferred = false;
	    int fd = -1; for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_OPEN) fd = (int)sim.trace[i].res;
	    if (fd >= 0 && f.fd() == fd) { W->file = file; W->p = 0; if (W->file == 2) W->p = W->pipepos; }
	    else { Caught cc; cc.kind = TH_NONE; TRY(cc, f.close()); if (f.fd() >= 0) sim_fail("I02","not-closed","close did not close"); }
	    break; }
	case OP_CLOSE: if (W->live) TRY(c, f.close()); break;
	case OP_DEVICE: {
	    if (!W->live || f.fd() < 0) break;
	    const int64_t rem = f.remaining();
	    const bool clr = device_op(f,f.fd(),W->file,W->n[W->file],W->ex,(uint64_t)a[0],a[1],"I02");
	    if ((int64_t)f.remaining() != rem) sim_fail("I02","moved","a device request changed what is left to extract from %lld to %lld bytes",(long long)rem,(long long)f.remaining());
	    if (clr) { LIB(f.clear()); W->deferred = false; }
	    break; }
	case OP_FAR: far_offsets(a); break;
	case OP_ITER: iterate(a); break;
	case OP_STICKY: fs.stickyread = W->live && W->file == 2 ? 0 : (int)a[0]; break;
	default: extract(op,a); break;
    }
}
void exec(const Plan& p)
{
    static World w; W = &w;
    w.live = w.deferred = false; w.pipepos = 0; w.unknown = false; w.file = 0; w.delims = 0; w.flags = 0; w.base = 0; w.nul = false;
    for (int i = 0; i < NFILE; ++i) {
	const int k = i & 1;
	Bytes b; maketext(b,p.cfg[k ? C_TEXT1 : C_TEXT0],hmax<int64_t>(0,hmin<int64_t>(150000,p.cfg[k ? C_LEN1 : C_LEN0])));
	if (b.size() && memchr(b.data(),0,b.size())) w.nul = true;
	fs_node(i,PATHS[i],i == 2 ? NT_FIFO : NT_REG,b.data(),b.size());
	w.n[i] = b.size(); w.t[i] = (const char*)arena_place(b.size(),b.data()); arena_protect_ro((void*)w.t[i]);
	fs.n[i].jitter = hmax<int64_t>(0,p.cfg[C_JITTER]);
    }
    for (int i = 0; i < 3; ++i) fs_rawopen_at(i,1,O_RDONLY);
    BUF = (char*)arena_place(160000,0);
    for (int i = 0; i < (int)p.steps.size(); ++i) {
	step_begin(p,i);
	step(p.steps[i].op,p.steps[i].a);
    }
    sim.step = 0;
    if (w.live) LIB(w.f().~ifstream());
    arena_check_leaks("I01","after destroying the stream");
}
const Scenario S = { "ifs", "I01 I02", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
