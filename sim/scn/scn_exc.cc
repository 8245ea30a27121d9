// Exceptions and the backtraces inside them: thrown, copied, described, printed and serialised while allocations fail.
#include "common.h"
#include <errno.h>
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);
extern "C" void __real_free(void*);
#include <stdio.h>
using namespace ustl;

namespace {
const char* what;
void bad(const char* cls, const char* msg, long long a = 0, long long b = 0) { sim_fail("M05",cls,"%s: %s (%lld, expected %lld)",what,msg,a,b); }

#define KINDS(X) X(exception) X(bad_cast) X(bad_typeid) X(bad_alloc) X(error_message) X(logic_error) X(domain_error) X(invalid_argument) X(length_error) X(out_of_range) \
    X(runtime_error) X(range_error) X(overflow_error) X(underflow_error) X(system_error) X(file_exception) X(stream_bounds_exception)
enum {
#define X(n) K_##n,
KINDS(X)
#undef X
N_KINDS };
enum { OP_make, OP_throw, OP_nested, OP_copy, OP_assign, OP_info, OP_info_fmt, OP_text, OP_bt_text, OP_bt_copy, OP_bt_assign, OP_write, OP_read, OP_read_bad, OP_destroy, OP_tmalloc, OP_new, OP_unwind, N_OPS };
const char* const OPS [N_OPS] = { "make","throw","nested","copy","assign","info","info_fmt","text","bt_text","bt_copy","bt_assign","write","read","read_bad","destroy","tmalloc","new","unwind" };
enum { C_FRAMES, C_FLAVOUR, C_DEMANGLE, N_CFG };
const char* const CFG [N_CFG] = { "frames","flavour","demangled" };
enum { P_ALLOC, P_NOSYM, P_DEEP, P_NOMSG, P_TYPED, P_BASE, P_RETHROW, P_SELF, P_LONGFILE, P_SHORTBUF, P_READ, P_POOL, P_DAMAGED, P_TOODEEP, P_DEMANGLED, P_LONGNAME, N_PROBES };
const char* const PROBES [N_PROBES] = { "allocation_failed","backtrace_without_symbols","full_depth_backtrace","message_lost_for_want_of_memory","caught_by_type","caught_by_base","rethrown","self_assignment","long_file_name","buffer_too_small","read_back","thrown_without_heap","damaged_form","more_frames_than_fit","name_demangled","demangled_name_too_long" };
enum { NS = 4, SERMAX = 1<<16 };

const char* const STRS [] = { "", "x", "open", "a message of middling length", "%s %d %n", "tail\n", 0 };
const char* str(int i) { static char big [3000]; if (STRS[i % 7]) return STRS[i % 7]; for (int k = 0; k < 2999; ++k) big[k] = 'a' + k%26; big[2999] = 0; return big; }
const char* fname(int i) { static char big [5000]; switch (i % 5) { case 0: return "/dev/sda"; case 1: return ""; case 2: return "0123456789/%s"; case 3: return 0; } const int n = i % 2 ? 4095 : 4999; for (int k = 0; k < n; ++k) big[k] = k%50 ? 'p' : '/'; big[n] = 0; return big; }
const int ERRS [] = { ENOENT, EIO, ENOSPC, 0, EINTR, 9999, ENOMEM, -1 };

void gen(Rng& r, Plan& p, bool faults)
{
    p.cfg[C_FRAMES] = r.chance(150) ? 0 : r.chance(200) ? 64 : r.chance(100) ? 70 : r.skewed(63);
    p.cfg[C_FLAVOUR] = r.chance(400) ? 9 : r.below(9); p.cfg[C_DEMANGLE] = r.chance(300);
    const int n = 2 + (int)r.skewed(40);
    const int prob = r.chance(300) ? 900 : 300;
    for (int i = 0; i < n; ++i) {
	Step& st = p.add(r.chance(400) ? (int)r.below(3) : (int)r.below(N_OPS),r.below(NS),r.below(NS),r.below(N_KINDS),r.below(1000),r.below(8),r.below(1000));
	if (faults && r.chance(prob)) { const int k = 1+(int)r.below(2); for (int q = 0; q < k; ++q) addfault(st,F_ALLOC,(int)r.skewed(8),r.chance(300) ? 1000 : 1+(int)r.skewed(2),0); }
    }
}

struct Slot { int kind; Bytes ser; char mem [8192] __attribute__((aligned(16))); ustl::exception& e() { return *(ustl::exception*)mem; } };
Slot* S;
int g_frames;

template <typename T> struct Make { static void go(void* m, const Step& st) { new (m) T (str(st.a[3])); } static void thr(const Step& st) { throw T (str(st.a[3])); } };
#define MAKER(T,ARGS) template <> struct Make<T> { static void go(void* m, const Step& st) { (void)st; new (m) T ARGS; } static void thr(const Step& st) { (void)st; throw T ARGS; } };
MAKER(ustl::exception,())
MAKER(ustl::bad_cast,())
MAKER(ustl::bad_typeid,())
size_t nbytes(const Step& st) { static const size_t v [] = { 0, 1, 4096, 3000000000u, ~(size_t)0, 0x7FFFFFFF }; return v[st.a[5] % 6]; }
MAKER(ustl::bad_alloc,((nbytes(st))))
const char* opn(const Step& st) { errno = ERRS[st.a[4] % 8]; return str(st.a[3]); }
const int sysForm(const Step& st) { return st.a[3] & 1 ? (int)(st.a[5] % 8) : 8; }
// the name of the operation in a string that goes away right after the exception was made
struct OpName { string* s; OpName(const Step& st) { HxScope hx; s = new string (str(st.a[3]),strlen(str(st.a[3]))); } ~OpName() { HxScope hx; delete s; } };
#define SYSFORMS(HOW) const int ec = ERRS[st.a[4] % 8]; switch (sysForm(st)) { case 0: HOW system_error (ec,system_category(),str(st.a[3])); break; case 1: HOW system_error (error_code (ec,system_category()),str(st.a[3])); break; \
    case 2: { OpName n (st); HOW system_error (error_code (ec,generic_category()),*n.s); break; } case 3: { OpName n (st); HOW system_error (ec,system_category(),*n.s); break; } default: HOW system_error (opn(st)); }
template <> struct Make<system_error> {
    static void go(void* m, const Step& st) { SYSFORMS(new (m)) }
    static void thr(const Step& st) { SYSFORMS(throw) }
};
MAKER(file_exception,((opn(st)), fname(st.a[5])))
// the type being streamed: an ordinary one, and names that fill and overrun any reasonable buffer
const char* tname(const Step& st) { static char n [4][302];
    if (!*n[0]) { strcpy(n[0],"N4ustl6stringE"); memset(n[1],'q',301); memset(n[2],'w',255+1); strcpy(n[3],"1fI40"); memset(n[3]+5,'a',40); for (int i = 0; i < 9; ++i) strcat(n[3],"S0_"); strcat(n[3],"E"); }
    return n[st.a[5] % 8 > 5 ? 1 + st.a[3] % 3 : 0]; }
// and how it is to be shown
const char* sname(const stream_bounds_exception& b)
{
    static char t [256]; int r = -1; const char* n = b.TypeName(); HxScope hx;
    char* d = g_demangle && strlen(n) < 256 ? __cxa_demangle(n,0,0,&r) : 0;
    snprintf(t,sizeof(t),"%s",d && !r ? d : n); free(d); return t;
}
#define BOFF(st) ((st).a[3] % 3 ? (st).a[5] : (st).a[5]*4099001)
#define BEXP(st) ((st).a[5]*((st).a[3] % 3 ? 3 : 1000003))
#define BREM(st) ((st).a[5]*((st).a[3] % 3 ? 7 : 2000003))
MAKER(stream_bounds_exception,((opn(st)), tname(st), BOFF(st), BEXP(st), BREM(st)))

void make(int k, void* m, const Step& st) { switch (k) {
#define X(n) case K_##n: Make<ustl::n>::go(m,st); break;
KINDS(X)
#undef X
} }
__attribute__((noinline)) void throw_kind(int k, const Step& st) { switch (k) {
#define X(n) case K_##n: Make<ustl::n>::thr(st); break;
KINDS(X)
#undef X
} }
void copy(int k, void* m, const void* o) { switch (k) {
#define X(n) case K_##n: new (m) ustl::n (*(const ustl::n*)o); break;
KINDS(X)
#undef X
} }
void assign(int k, void* m, const void* o) { switch (k) {
#define X(n) case K_##n: *(ustl::n*)m = *(const ustl::n*)o; break;
KINDS(X)
#undef X
} }
const char* const WHAT [] = { "error","bad cast","bad typeid","memory allocation failed" };
const char* const NAME [] = { 0,0,0,0,"error","logic error","domain error","invalid argument","length error","out of range","runtime error","range error","overflow error","underflow error" };

bool is_msg(int k) { return k >= K_error_message && k < K_system_error; }
bool is_sys(int k) { return k >= K_system_error; }

// Serialised form, taken by the harness with all the memory it likes.  It holds every field of the object.
void serialise(const ustl::exception& e, Bytes& b)
{
    static uint8_t* buf = 0; HxScope hx;
    if (!buf) buf = (uint8_t*)hx_alloc(SERMAX);
    memset(buf,0,SERMAX);
    ustl::ostream os (buf,SERMAX);
    try { e.write (os); } catch (...) { bad("write-failed","writing to a large buffer failed"); return; }
    if (os.pos() != e.stream_size()) bad("wrong-size","stream_size against the bytes written",e.stream_size(),os.pos());
    b.setn(os.pos()); memcpy(b.data(),buf,b.size());
}
uint32_t u32(const Bytes& b, size_t o) { uint32_t v = 0; if (o+4 <= b.size()) memcpy(&v,b.data()+o,4); return v; }

// The backtrace in the serialised form: as many frames as the stack had, one line for each if there are symbols at all.
void check_bt(const Bytes& b, bool mayLack)
{
    const uint32_t nf = u32(b,8), ss = u32(b,12);
    const uint32_t want = hmin(g_frames,64);
    if (nf != want) return bad("wrong-backtrace","frames",nf,want);
    if (nf == 64) probe(P_DEEP);
    if (!ss) { if (nf) { probe(P_NOSYM); if (!mayLack) bad("wrong-backtrace","no symbols although memory was available"); } return; }
    if (16+ss > b.size()) return bad("wrong-backtrace","symbol text longer than the object",ss,b.size());
    uint32_t lines = 0; for (uint32_t i = 0; i < ss; ++i) { lines += b[16+i] == '\n'; if (b[16+i] != '\n' && (b[16+i] < ' ' || b[16+i] > '~')) return bad("wrong-backtrace","garbage in the symbol text",b[16+i]); }
    if (g_demangle && sim.allocfailed) return;	// names may be lost, mangled or cut
    if (lines != nf || b[16+ss-1] != '\n') return bad("wrong-backtrace","symbol lines",lines,nf);
    // each line is a piece of what the platform said about that frame
    const size_t ao = (16+ss+7) & ~(size_t)7; if (ao + nf*8 > b.size()) return bad("wrong-backtrace","addresses missing");
    const uint8_t* l = b.data()+16;
    for (uint32_t i = 0; i < nf; ++i) {
	void* a; memcpy(&a,b.data()+ao+i*8,8);
	const uint8_t* e = l; while (*e != '\n') ++e;
	char txt [700]; bt_text(a,i,txt);
	const char* open = strchr(txt,'('); const char* from = open ? open+1 : txt; const char* plus = strchr(from,'+');
	if (g_demangle) {
	    char raw [256]; const size_t rl = hmin<size_t>(plus ? plus-from : strlen(from),255); memcpy(raw,from,rl); raw[rl] = 0;
	    int st; HxScope hx; char* d = __cxa_demangle(raw,0,0,&st); const bool ok = !st; const size_t dl = ok ? strlen(d) : 0;
	    const bool eq = ok && e-l <= (long)dl && !memcmp(l,d,e-l) && ((size_t)(e-l) == dl || e-l >= 128); __real_free(d);
	    if (ok) { probe(P_DEMANGLED); if (dl > 255) probe(P_LONGNAME); if (!eq) return bad("wrong-symbol","demangled symbol of frame",i,e-l); l = e+1; continue; }
	}
	const size_t full = plus ? plus-from : strlen(from), len = e-l;
	if (len > full || memcmp(l,from,len) || (len < full && len < 128)) return bad("wrong-symbol","symbol of frame",i,len);
	l = e+1;
    }
}
void check_fields(int k, const ustl::exception& e, const Step& st, bool mayLack)
{
    if (k < K_error_message && strcmp(e.what(),WHAT[k])) bad("wrong-field","what()");
    if (is_msg(k)) {
	const error_message& m = (const error_message&)e; const char* w = m.what();
	if (strcmp(m.name(),NAME[k])) bad("wrong-field","name()");
	if (strcmp(w,str(st.a[3]))) { if (*w || !mayLack) bad("wrong-field","message text",strlen(w),strlen(str(st.a[3]))); probe(P_NOMSG); }
    } else if (is_sys(k)) {
	const system_error& s = (const system_error&)e;
	if (s.Errno() != ERRS[st.a[4] % 8]) bad("wrong-field","error code",s.Errno(),ERRS[st.a[4] % 8]);
	if (strcmp(s.Operation(),str(st.a[3]))) { if (*s.Operation() || !mayLack || k != K_system_error || (sysForm(st) != 2 && sysForm(st) != 3)) bad("wrong-field","operation",strlen(s.Operation()),strlen(str(st.a[3]))); }
	const char* m = ((const error_message&)e).error_message::what();
	if (strcmp(m,strerror(s.Errno()))) { if (*m || !mayLack) bad("wrong-field","message text",strlen(m),0); probe(P_NOMSG); }
	const error_code ec (s.code()); error_code oc; const error_condition cc (ec.default_error_condition()); error_condition nc;
	if (ec.value() != s.Errno() || bool(ec) != (s.Errno() != 0) || ec.message() != strerror(s.Errno()) || cc.value() != s.Errno() || !(ec == cc) || !(cc == ec) || bool(cc) != bool(ec) || strcmp(ec.category().name(),cc.category().name())) bad("wrong-field","error code and condition",ec.value(),s.Errno());
	if (bool(oc) || bool(nc) || (oc == ec) != !s.Errno() || (nc == cc) != !s.Errno() || (oc == cc) != !s.Errno() || (nc == ec) != !s.Errno()) bad("wrong-field","comparison of error codes",s.Errno());
	oc.assign (s.Errno(),system_category()); nc.assign (s.Errno(),generic_category()); if (!(oc == ec) || !(nc == cc) || !(oc == cc)) bad("wrong-field","error code assigned",oc.value(),s.Errno());
	oc = errc::no_space_on_device; nc = errc::io_error; const error_code mc (errc::no_such_file_or_directory); if (oc.value() != ENOSPC || nc.value() != EIO || mc.value() != ENOENT || (oc == ec) != (s.Errno() == ENOSPC) || (cc == nc) != (s.Errno() == EIO) || (ec == mc) != (s.Errno() == ENOENT)) bad("wrong-field","named error codes",oc.value(),ENOSPC);
	if (!ec.category().equivalent (s.Errno(),cc) || !ec.category().equivalent (ec,s.Errno()) || ec.category().equivalent (s.Errno()+1,cc) || ec.category().equivalent (s.Errno()-1,cc) || ec.category().equivalent (ec,s.Errno()+1) || ec.category().equivalent (ec,s.Errno()-1)) bad("wrong-field","equivalent error codes",s.Errno());
	oc.clear(); nc.clear(); if (oc || nc) bad("wrong-field","cleared error codes",oc.value());
	if (k == K_file_exception) {
	    const char* f = ((const file_exception&)e).Filename(), *want = fname(st.a[5]); if (!want) want = "";
	    const size_t n = hmin(strlen(want),(size_t)PATH_MAX-1); if (n > 4000) probe(P_LONGFILE);
	    if (strlen(f) != n || memcmp(f,want,n)) bad("wrong-field","file name",strlen(f),n);
	} else if (k == K_stream_bounds_exception) {
	    const stream_bounds_exception& b = (const stream_bounds_exception&)e;
	    if (strcmp(b.TypeName(),tname(st)) || b.Offset() != (uoff_t)BOFF(st) || b.Expected() != (size_t)BEXP(st) || b.Remaining() != (size_t)BREM(st)) bad("wrong-field","stream bounds",b.Offset(),st.a[5]);
	}
    }
    Bytes b; serialise(e,b); check_bt(b,mayLack);
}
void drop(int i) { if (S[i].kind < 0) return; S[i].kind = -1; LIB(S[i].e().~exception()); }
void snap(int i) { serialise(S[i].e(),S[i].ser); }
void check_same(int i, const Bytes& b, const char* msg) { Bytes n; serialise(S[i].e(),n); if (n != b) bad("changed",msg,n.size(),b.size()); }

struct Unwind { void* p; int* n; explicit Unwind(int* pn) : p(malloc(16)), n(pn) {} ~Unwind() { free(p); ++*n; } };
__attribute__((noinline)) void deep(int k, const Step& st, int d, int* n) { Unwind u (n); if (d) deep(k,st,d-1,n); else throw_kind(k,st); asm volatile(""); }

// Text that info() must give, when memory suffices
const char* arg(const ustl::exception& e) { return ((error_message&)e).error_message::what(); }
void expected_info(int i, char* t, size_t n)
{
    const int k = S[i].kind; ustl::exception& e = S[i].e();
    if (k == K_bad_alloc) { size_t v; memcpy(&v,S[i].ser.data()+S[i].ser.size()-8,8); snprintf(t,n,"failed to allocate %llu bytes",(unsigned long long)v); }
    else if (k < K_error_message) snprintf(t,n,"%s",WHAT[k]);
    else if (is_msg(k)) snprintf(t,n,"%s: %s",NAME[k],e.what());
    else if (k == K_system_error) snprintf(t,n,"%s: %s",((system_error&)e).Operation(),arg(e));
    else if (k == K_file_exception) snprintf(t,n,"%s %s: %s",((system_error&)e).Operation(),((file_exception&)e).Filename(),arg(e));
    else { stream_bounds_exception& b = (stream_bounds_exception&)e; snprintf(t,n,"%s stream %s: @0x%X: need %u bytes, have %u",sname(b),b.Operation(),(unsigned)b.Offset(),(unsigned)b.Expected(),(unsigned)b.Remaining()); }
}
// a format of the caller's own, as a translator would give, and the text it must make
const char* own_format(int k)
{
    if (k == K_bad_alloc) return "{%zu} bytes could not be had";
    if (k < K_error_message) return 0;
    if (is_msg(k) || k == K_system_error) return "[%s] because (%s)";
    if (k == K_file_exception) return "<%s|%s|%s>";
    return "%s~%s~%x~%u~%u.";
}
void expected_own(int i, char* t, size_t n)
{
    const int k = S[i].kind; ustl::exception& e = S[i].e(); const char* f = own_format(k);
    if (!f) expected_info(i,t,n);
    else if (k == K_bad_alloc) { size_t v; memcpy(&v,S[i].ser.data()+S[i].ser.size()-8,8); snprintf(t,n,f,v); }
    else if (is_msg(k)) snprintf(t,n,f,NAME[k],e.what());
    else if (k == K_system_error) snprintf(t,n,f,((system_error&)e).Operation(),arg(e));
    else if (k == K_file_exception) snprintf(t,n,f,((system_error&)e).Operation(),((file_exception&)e).Filename(),arg(e));
    else { stream_bounds_exception& b = (stream_bounds_exception&)e; snprintf(t,n,f,sname(b),b.Operation(),(unsigned)b.Offset(),(unsigned)b.Expected(),(unsigned)b.Remaining()); }
}
bool lost_arg(int i) { return is_sys(S[i].kind) && !*((error_message&)S[i].e()).error_message::what(); }

void exec(const Plan& p)
{
    static Slot slots [NS]; S = slots; g_frames = (int)p.cfg[C_FRAMES];
    bt_config(g_frames,(int)p.cfg[C_FLAVOUR],p.cfg[C_DEMANGLE]);
    for (int i = 0; i < NS; ++i) S[i].kind = -1;
    static char text [20000];
    for (size_t si = 0; si < p.steps.size(); ++si) {
	step_begin(p,si);
	const Step& st = p.steps[si]; what = OPS[st.op];
	Caught c; c.kind = TH_NONE; c.err = 0;
	const int i = (uint64_t)st.a[0] % NS, j = (uint64_t)st.a[1] % NS, kind = (uint64_t)st.a[2] % N_KINDS;
	if (i == j) probe(P_SELF);
	switch (st.op) {
	    case OP_make: {
		drop(i);
		TRY(c, make(kind,S[i].mem,st));
		const bool lack = sim.allocfailed;
		if (c.kind) { bad("ctor-threw","constructing an exception threw",c.kind); break; }
		S[i].kind = kind; check_fields(kind,S[i].e(),st,lack); snap(i); break; }
	    case OP_throw: {
		int unwound = 0; const int depth = st.a[5] % 8, mode = st.a[0] % 3; bool caught = false, lack = false;
		what = "throw";
		LibScope ls;
		#define HANDLER(e) { lack = sim.allocfailed; caught = true; HxScope hx; check_fields(kind,e,st,lack); if (unwound != depth+1) bad("unwind","frames left",unwound,depth+1); }
		try {
		    try {
			if (lack) {}
			deep(kind,st,depth,&unwound);
		    }
		    #define X(n) catch (ustl::n& e) { if (mode == 0) throw; probe(P_TYPED); if (kind != K_##n) { HxScope hx; bad("wrong-handler","caught as another type",K_##n,kind); } HANDLER(e) }
		    // most derived types first
		    X(stream_bounds_exception) X(file_exception) X(system_error) X(underflow_error) X(overflow_error) X(range_error) X(runtime_error)
		    X(out_of_range) X(length_error) X(invalid_argument) X(domain_error) X(logic_error) X(error_message) X(bad_alloc) X(bad_typeid) X(bad_cast) X(exception)
		    #undef X
		} catch (ustl::exception& e) { probe(P_RETHROW); probe(P_BASE); HANDLER(e) }
		catch (...) { HxScope hx; bad("wrong-handler","caught something that is no library exception"); }
		if (!caught) { HxScope hx; bad("wrong-handler","nothing was caught"); }
		if (lack) probe(P_POOL);
		break; }
	    case OP_nested: {
		// another exception while the first one is still being handled; the first one stays what it was
		LibScope ls; int unwound = 0;
		try { deep(kind,st,1,&unwound); }
		catch (ustl::exception& e) {
		    Bytes was; serialise(e,was);
		    try { deep((kind+st.a[5]) % N_KINDS,st,2,&unwound); }
		    catch (ustl::exception& e2) {
			try { throw_kind((kind+st.a[0]) % N_KINDS,st); } catch (ustl::exception& e3) { Bytes b; serialise(e3,b); }
			Bytes b; serialise(e2,b);
		    }
		    Bytes now; serialise(e,now); if (now != was) { HxScope hx; bad("changed","an exception being handled changed while others were thrown"); }
		}
		break; }
	    case OP_unwind: {
		// a destructor that runs while an exception passes throws and catches its own
		struct Inner { const Step* st; int k; ~Inner() { try { throw_kind(k,*st); } catch (ustl::exception& e) { Bytes b; serialise(e,b); } } };
		LibScope ls; bool caught = false;
		try { Inner in = { &st, (int)((kind+st.a[5]) % N_KINDS) }; throw_kind(kind,st); }
		catch (ustl::exception& e) { caught = true; const bool lack = sim.allocfailed; HxScope hx; check_fields(kind,e,st,lack); }
		if (!caught) { HxScope hx; bad("wrong-handler","nothing was caught"); }
		break; }
	    case OP_copy: {
		if (i == j || S[j].kind < 0) continue;
		drop(i);
		TRY(c, copy(S[j].kind,S[i].mem,S[j].mem));
		if (!c.kind) { S[i].kind = S[j].kind; if (!sim.allocfailed) check_same(i,S[j].ser,"the copy differs from the original"); snap(i); if (is_sys(S[i].kind) && (((system_error&)S[i].e()).Errno() != ((system_error&)S[j].e()).Errno() || strcmp(((system_error&)S[i].e()).Operation(),((system_error&)S[j].e()).Operation()))) bad("changed","a copy's operation or error code"); }
		break; }
	    case OP_assign: {
		if (S[j].kind < 0 || S[i].kind != S[j].kind) continue;
		TRY(c, assign(S[j].kind,S[i].mem,S[j].mem));
		if (!c.kind && !sim.allocfailed) check_same(i,S[j].ser,"the copy differs from the original");
		snap(i);
		break; }
	    case OP_info: case OP_info_fmt: case OP_text: {
		if (S[i].kind < 0) continue;
		LibScope ls; string s; ostringstream os; size_t n; const char* t;
		try { if (st.a[3] & 1) s = "earlier text"; } catch (...) {}
		TRY(c, if (st.op == OP_text) { S[i].e().text_write (os); } else if (st.op == OP_info_fmt) S[i].e().info (s, own_format(S[i].kind)); else S[i].e().info (s));
		if (st.op == OP_text) { t = os.begin(); n = os.pos(); } else { t = s.c_str(); n = s.size(); }
		if (!c.kind && !sim.allocfailed && !lost_arg(i)) {
		    HxScope hx; if (st.op == OP_info_fmt) expected_own(i,text,sizeof(text)); else expected_info(i,text,sizeof(text));
		    if (n != strlen(text) || memcmp(t,text,n)) bad("wrong-text","description of the exception",n,strlen(text));
		}
		if (c.kind) { HxScope hx; bad("info-threw","describing an exception threw",c.kind); }
		break; }
	    case OP_bt_text: {
		if (S[i].kind < 0) continue;
		LibScope ls; ostringstream os;
		TRY(c, S[i].e().backtrace().text_write (os));
		if (!c.kind && !sim.allocfailed) {
		    HxScope hx; const char* t = os.begin(), *e = t + os.pos(); unsigned lines = 0;
		    for (const char* q = t; q < e; ++q) lines += *q == '\n';
		    const uint32_t nf = u32(S[i].ser,8), ss = u32(S[i].ser,12);
		    if (lines != nf) bad("wrong-text","lines of the printed backtrace",lines,nf);
		    const size_t ao = (16+ss+7) & ~(size_t)7; const uint8_t* l = S[i].ser.data()+16;
		    uint32_t sl = 0; for (uint32_t q = 0; q < ss; ++q) sl += l[q] == '\n';	// some names may have been lost when it was made
		    for (uint32_t k = 0; k < nf && t < e; ++k) {
			void* a; memcpy(&a,S[i].ser.data()+ao+k*8,8); char w [64]; snprintf(w,sizeof(w),"%p",a);
			const char* le = (const char*)memchr(t,'\n',e-t); if (!le) break;
			const char* pa = (const char*)memmem(t,le-t,w,strlen(w)); if (!pa) { bad("wrong-text","address of frame",k); break; }
			if (ss && sl == nf) { const uint8_t* se = l; while (*se != '\n') ++se; if (le-t < se-l || memcmp(le-(se-l),l,se-l)) { bad("wrong-text","symbol of printed frame",k); break; } l = se+1; }
			t = le+1;
		    }
		}
		break; }
	    case OP_bt_copy: case OP_bt_assign: {
		if (S[i].kind < 0) continue;
		LibScope ls; string a, b; ostringstream oa, ob;
		TRY(c, { CBacktrace t (S[i].e().backtrace()); if (st.op == OP_bt_assign) { CBacktrace u; u = t; u = S[i].e().backtrace(); const CBacktrace& v = u; u = v; u.text_write (oa); } else t.text_write (oa); S[i].e().backtrace().text_write (ob); });
		if (!c.kind && !sim.allocfailed) { HxScope hx; if (oa.pos() != ob.pos() || memcmp(oa.begin(),ob.begin(),oa.pos())) bad("changed","a copied backtrace prints differently",oa.pos(),ob.pos()); }
		break; }
	    case OP_write: {
		if (S[i].kind < 0) continue;
		const size_t full = S[i].ser.size(), cut = st.a[5] % 3 ? 0 : 1 + (st.a[3]*977) % full;
		const size_t room = (full-cut+7) & ~(size_t)7; uint8_t* m = (uint8_t*)arena_place(room,0); memset(m,0,room);
		LibScope ls; ostream os (m,full-cut);
		TRY(c, S[i].e().write (os));
		HxScope hx; for (size_t q = full-cut; q < room; ++q) if (m[q]) bad("out-of-bounds","wrote past the end of the buffer",q,full-cut);
		if (cut) { probe(P_SHORTBUF); if (!c.kind && !sim.allocfailed) bad("wrong-result","writing to a buffer that is too small was not reported"); }
		else if (!c.kind && (os.pos() != full || memcmp(m,S[i].ser.data(),full))) bad("changed","the written form differs from the object",os.pos(),full);
		else if (c.kind && !sim.allocfailed) bad("write-failed","writing to a buffer of stream_size bytes failed",c.kind);
		break; }
	    case OP_read: {
		if (S[j].kind < 0) continue;
		drop(i); if (i == j) continue;
		{ HxScope hx; Step d = st; d.a[3] = st.a[3]+1; d.a[4] = st.a[4]+1; make(S[j].kind,S[i].mem,d); S[i].kind = S[j].kind; }
		Bytes b = S[j].ser; size_t longname = 0;
		if (S[j].kind == K_file_exception && (st.a[5] & 3) == 1) {	// as written by somebody whose file names may be longer
		    const size_t nl = strlen(((file_exception&)S[j].e()).Filename()), tail = ((nl < 0x80 ? 1 : nl < 0x800 ? 2 : 3) + nl + 7) & ~(size_t)7;
		    longname = st.a[4] % 3 ? PATH_MAX - 2 + (size_t)(st.a[4] % 5) : 800 + (size_t)(st.a[4] * 37 % 9000);
		    b.setn(b.size()-tail);
		    if (longname < 0x800) { b.push(0xC0|(longname>>6)); b.push(0x80|(longname&63)); } else { b.push(0xE0|(longname>>12)); b.push(0x80|((longname>>6)&63)); b.push(0x80|(longname&63)); }
		    for (size_t q = 0; q < longname; ++q) b.push((uint8_t)('a'+q%26));
		    while (b.size() & 7) b.push(0);
		}
		const void* m = arena_place(b.size(),b.data());
		LibScope ls; istream is (m,b.size());
		TRY(c, S[i].e().read (is));
		if (longname) {
		    HxScope hx; const file_exception& f = (file_exception&)S[i].e(); const size_t keep = hmin(longname,(size_t)PATH_MAX-1);
		    if (!memchr(f.Filename(),0,PATH_MAX)) bad("out-of-bounds","the file name read back is not terminated",longname,PATH_MAX-1);
		    else if (!c.kind && !sim.allocfailed) {
			if (strlen(f.Filename()) != keep) bad("wrong-field","length of the file name read back",strlen(f.Filename()),keep);
			for (size_t q = 0; q < keep; ++q) if (f.Filename()[q] != (char)('a'+q%26)) { bad("wrong-field","file name read back",q); break; }
			if (is.remaining()) bad("wrong-size","bytes left after reading back",is.remaining(),0);
			if (strcmp(f.Operation(),((system_error&)S[j].e()).Operation()) || f.Errno() != ((system_error&)S[j].e()).Errno()) bad("changed","operation or error code read back");
		    }
		    if (c.kind && !sim.allocfailed) bad("read-failed","reading back failed",c.kind);
		    snap(i); break;
		}
		HxScope hx;
		if (!c.kind && !sim.allocfailed) { probe(P_READ); check_same(i,S[j].ser,"the exception read back differs from the one written"); if (is.remaining()) bad("wrong-size","bytes left after reading back",is.remaining(),0); }
		if (c.kind && !sim.allocfailed) bad("read-failed","reading back failed",c.kind);
		snap(i); break; }
	    case OP_read_bad: {	// a backtrace from bytes that were cut short, altered, or written by somebody who keeps more frames
		if (S[j].kind < 0) continue;
		const uint32_t nf = u32(S[j].ser,8), ss = u32(S[j].ser,12); const size_t ao = (16+ss+7) & ~(size_t)7;
		Bytes b; b.append(S[j].ser.data()+8,ao-8); const uint8_t kind = st.a[4]&3; uint32_t more = 0;
		b.append(S[j].ser.data()+ao,nf*8);
		if (kind == 0) { more = 1 + (uint32_t)(st.a[5]%90); for (uint32_t q = 0; q < more*8; ++q) b.push((uint8_t)(q*3+1)); const uint32_t n = nf+more; memcpy(b.data(),&n,4); }
		else if (kind == 1) b.setn((size_t)st.a[5]*7 % b.size());
		else if (kind == 2) { const uint32_t v = pat((uint32_t)st.a[5],1) % 3 ? (uint32_t)st.a[5]*2654435761u : (uint32_t)st.a[5]; memcpy(b.data() + (st.a[3]&1)*4,&v,4); }
		else { for (int q = 0; q < 3; ++q) b[(size_t)(st.a[5]*31 + q*977) % b.size()] ^= (uint8_t)(1 + (st.a[5]>>q)%255); }
		if (nf+more > 64) probe(P_TOODEEP); if (kind) probe(P_DAMAGED);
		const void* m = arena_place(b.size(),b.data()); Bytes w; w.setn(65536+8*64);
		LibScope ls; istream is (m,b.size()); ostringstream os; CBacktrace t (S[j].e().backtrace());
		const int af = sim.allocfailed;
		TRY(c, is >> t);
		const bool whole = !c.kind && sim.allocfailed == af;
		if (c.kind == TH_BOUNDS && kind) c.kind = TH_NONE;
		const bool took = whole && !c.kind;
		if (!kind && took) {
		    const uint32_t keep = hmin(nf+more,64u);
		    { HxScope hx; if (is.remaining()) bad("wrong-size","bytes left after reading a deep backtrace",is.remaining(),0); }
		    ostream o2 (w.data(),w.size()); TRY(c, o2 << t);
		    HxScope hx; if (!sim.allocfailed) {
			if (u32(w,0) != keep || u32(w,4) != ss) bad("wrong-backtrace","frames kept of a deep backtrace",u32(w,0),keep);
			else if (memcmp(w.data()+8,b.data()+8,ao-16+keep*8)) bad("changed","a deep backtrace lost its frames or symbols");
		    }
		}
		{ CBacktrace u (t); TRY(c, u.text_write (os)); }
		break; }
	    case OP_destroy: drop(i); break;
	    case OP_tmalloc: case OP_new: {
		const size_t sz = st.a[5] % 2 ? 64 : nbytes(st); void* m = 0; size_t said = 0;
		LibScope ls; bool thrown = false;
		try { m = st.op == OP_new ? operator new (sz) : tmalloc (sz); }
		catch (ustl::bad_alloc& e) { thrown = true; Bytes b; serialise(e,b); memcpy(&said,b.data()+b.size()-8,8); check_bt(b,true); }
		HxScope hx;
		if (thrown && said != sz) bad("wrong-field","bad_alloc says another size failed",said,sz);
		if (thrown && !sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed");
		if (!thrown && !m) bad("null-result","returned a null pointer instead of throwing");
		LIB(nfree (m));
		break; }
	}
	if (c.kind && c.kind != TH_ALLOC && st.op != OP_write) bad("wrong-exception","threw something else than bad_alloc",c.kind);
	if (c.kind == TH_ALLOC && !sim.allocfailed) bad("spurious-throw","threw bad_alloc although no allocation failed");
	if (sim.allocfailed) probe(P_ALLOC);
	for (int q = 0; q < NS; ++q) if (S[q].kind >= 0) check_same(q,S[q].ser,"an exception changed by itself");
    }
    sim.step = 0; what = "end";
    for (int i = 0; i < NS; ++i) drop(i);
    arena_check_leaks("M05","after every exception is gone");
}
const Scenario SC = { "exc", "M05", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&SC);
}
