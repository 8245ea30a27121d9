// cin and cout: what is on the terminal when the program waits for input.
#include "common.h"
using namespace ustl;

namespace {
enum { OP_PRINT, OP_PRINTNUM, OP_BLOCK, OP_ENDL, OP_FLUSH, OP_CERR, OP_INT, OP_WORD, OP_LINE, OP_GET, OP_READ, OP_IGNORE, OP_CLEAROUT, OP_CLEARIN, OP_EXCOUT, OP_DEVICE, OP_SYNC, N_OPS };
const char* const OPS [N_OPS] = { "print","print_number","print_block","endl","flush","cerr","int","word","getline","get","read","ignore","clear_cout","clear_cin","cout_exceptions","device","sync" };
enum { C_TEXT, C_LEN, C_JITTER, C_OUTCAP, C_INTYPE, C_OUTTYPE, C_STALL, N_CFG };
const char* const CFG [N_CFG] = { "text_seed","length","arrival","terminal_capacity","stdin_kind","stdout_kind","stall" };
enum { P_WAITED, P_FLUSHED, P_BUFFERED, P_OUTFAIL, P_INTHROW, P_RETRY, P_LARGE, P_EOF, N_PROBES };
const char* const PROBES [N_PROBES] = { "waited_for_input","prompt_written_by_read","extraction_from_buffer_kept_prompt_pending","output_failed_during_read","read_threw_output_failure","prompt_delivered_after_clear","print_larger_than_buffer","reached_end_of_input" };

struct World {
    Bytes out;		// everything printed to cout
    Bytes in;		// what will arrive on stdin
    int64_t p;		// next byte to extract
    int64_t sent;	// bytes of cout's text the kernel has
    int exout;
    bool refused;	// cout was in a failed state when text was printed, so its text is not predictable
};
World* W;

void gen(Rng& r, Plan& p, bool faults)
{
    const int64_t big = r.chance(300) ? 9000 : r.chance(500) ? 500 : 60;
    p.cfg[C_TEXT] = r.next() >> 40; p.cfg[C_LEN] = r.chance(500) ? big : r.skewed(big);
    p.cfg[C_JITTER] = faults && r.chance(800) ? 1 + r.skewed(r.chance(700) ? 30 : 4000) : 0;
    p.cfg[C_OUTCAP] = faults && r.chance(400) ? 1 + r.skewed(5000) : 0;
    p.cfg[C_STALL] = faults && r.chance(300) ? 1 + r.skewed(5) : 0;
    p.cfg[C_INTYPE] = r.below(3); p.cfg[C_OUTTYPE] = r.below(3);
    const bool eErr = faults && r.chance(400), eIntr = faults && r.chance(500), eShort = faults && r.chance(500), eAlloc = faults && r.chance(100), exc = faults && r.chance(250);
    if (exc) p.add(OP_EXCOUT,1+r.below(7));
    int n = 5 + (int)r.skewed(60);
    for (int i = 0; i < n; ++i) {
	const size_t qi = p.steps.size();
	const uint64_t k = r.below(100);
	if (k < 25) p.add(OP_PRINT,r.chance(100) ? r.skewed(9000) : r.skewed(60));
	else if (k < 30) p.add(OP_PRINTNUM,r.range(-1000000,1000000));
	else if (k < 34) p.add(OP_BLOCK,r.chance(200) ? r.skewed(9000) : r.skewed(60));
	else if (k < 36) p.add(OP_ENDL);
	else if (k < 38) p.add(OP_FLUSH);
	else if (k < 41) p.add(OP_CERR,r.skewed(40));
	else if (k < 90) {
	    switch (exc ? 2 + r.below(2) : r.below(6)) {
		case 0: p.add(OP_INT); break;
		case 1: p.add(OP_WORD); break;
		case 2: p.add(OP_LINE,r.chance(800) ? '\n' : ' '); break;
		case 3: p.add(OP_GET); break;
		case 4: p.add(OP_READ,1+r.skewed(r.chance(200) ? 6000 : 60)); break;
		default: p.add(OP_IGNORE,r.skewed(100),'\n'); break;
	    }
	} else if (k < 94) p.add(OP_CLEAROUT);
	else if (k < 96) p.add(OP_CLEARIN);
	else if (k < 98 && eErr) p.add(OP_DEVICE,r.chance(500) ? 5 : 0);
	Step* st = qi < p.steps.size() ? &p.steps[qi] : 0;
	if (!st || !faults) continue;
	if (eErr && r.chance(100)) addfault(*st,F_ERR,(int)r.skewed(3),1,r.chance(500) ? 5 : 28);
	if (eShort && r.chance(400)) addfault(*st,F_SHORT,(int)r.skewed(3),1+(int)r.skewed(4),1+r.skewed(40));
	if (eIntr && r.chance(300)) addfault(*st,F_EINTR,(int)r.skewed(4),1+(int)r.skewed(4),0);
	if (eAlloc && r.chance(100)) addfault(*st,F_ALLOC,(int)r.skewed(3),1,0);
	if (eErr && r.chance(300)) p.add(OP_CLEAROUT);
    }
}
void maketext(Bytes& b, uint64_t seed, int64_t len)
{
    Rng r (seed*7+3);
    while ((int64_t)b.size() < len) {
	int k = 1 + (int)r.skewed(r.chance(50) ? 600 : 12);
	const int kind = (int)r.below(3);
	if (r.chance(100)) b.push('-');
	for (int i = 0; i < k; ++i) b.push(kind ? 'a'+r.below(26) : '0'+r.below(10));
	b.push(r.chance(600) ? '\n' : ' ');
    }
    b.setn(len);
}
// Looks at what this step's system calls did to standard output.
void account(bool throwing)
{
    const Step* s0 = sim.step;
    (void)s0; (void)throwing;
    int64_t sent = W->sent;
    bool outbad = false;
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& t = sim.trace[i];
	if (t.call == SYS_WRITE && t.fd == 1) { if (t.res > 0) sent += t.res; else if (t.res < 0 && t.err != EINTR && t.err != EAGAIN) outbad = true; }
	if (t.call == SYS_READ && t.fd == 0) {
	    probe(P_WAITED);
	    if (outbad || W->refused) { probe(P_OUTFAIL); continue; }
	    if (sent < (int64_t)W->out.size()) sim_fail("I03","prompt-pending","the program waits for input while %lld of %llu bytes printed before are not written yet",(long long)(W->out.size()-sent),(unsigned long long)W->out.size());
	    if (sent > W->sent) probe(P_FLUSHED);
	}
    }
    W->sent = sent;
    const Node& n = fs.n[1];
    if (n.size > (int64_t)W->out.size() || memcmp(n.data,W->out.data(),n.size)) {
	int64_t k = 0; while (k < n.size && k < (int64_t)W->out.size() && n.data[k] == W->out[k]) ++k;
	sim_fail("I03","wrong-output","%lld bytes are on the terminal, %llu were printed, first difference at %lld",(long long)n.size,(unsigned long long)W->out.size(),(long long)k);
    }
}
void step(int op, const int64_t* a)
{
    Caught c; Bytes t;
    const bool outgood = cout.good();
    switch (op) {
	case OP_PRINT: case OP_BLOCK: case OP_PRINTNUM: case OP_ENDL: {
	    int64_t n = hmax<int64_t>(0,hmin<int64_t>(a[0],20000));
	    if (op == OP_PRINTNUM) { char b [32]; long long v = a[0]; bool neg = v < 0; unsigned long long u = neg ? -v : v; int k = 31; b[k] = 0; do { b[--k] = '0'+u%10; u /= 10; } while (u); if (neg) b[--k] = '-'; t.append((uint8_t*)b+k,31-k); }
	    else if (op == OP_ENDL) t.push('\n');
	    else for (int64_t i = 0; i < n; ++i) t.push('!' + pat(op,W->out.size()+i) % 90);
	    if (n > 4096) probe(P_LARGE);
	    string s; s.assign((const char*)t.data(),t.size());
	    const size_t pend0 = cout.pos();
	    if (op == OP_PRINTNUM) TRY(c, cout << (long)a[0]);
	    else if (op == OP_ENDL) TRY(c, cout << endl);
	    else if (op == OP_BLOCK) TRY(c, cout.write(t.data(),t.size()));
	    else TRY(c, cout << s);
	    // what was accepted is what was either sent or is still pending
	    int64_t sent = 0; for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_WRITE && sim.trace[i].fd == 1 && sim.trace[i].res > 0) sent += sim.trace[i].res;
	    const int64_t acc = (int64_t)cout.pos() + sent - (int64_t)pend0;
	    if (acc < 0 || acc > (int64_t)t.size()) { sim_fail("I03","wrong-output","printing %llu bytes moved %lld into the stream",(unsigned long long)t.size(),(long long)acc); sim_exit_run(); }
	    if (outgood && cout.good() && c.kind == TH_NONE && acc != (int64_t)t.size()) sim_fail("I03","lost-output","printing %llu bytes kept only %lld",(unsigned long long)t.size(),(long long)acc);
	    W->out.append(t.data(),acc);
	    account(c.kind != TH_NONE);
	    break; }
	case OP_FLUSH: TRY(c, cout.flush()); account(c.kind != TH_NONE); break;
	case OP_CERR: { string s (hmin<int64_t>(hmax<int64_t>(0,a[0]),100),'e'); TRY(c, cerr << s); if (c.kind == TH_NONE) TRY(c, cerr.flush()); LIB(cerr.clear()); account(false); break; }
	case OP_CLEAROUT: LIB(cout.clear()); if (cout.pos() && W->refused) probe(P_RETRY); W->refused = false; break;
	case OP_CLEARIN: LIB(cin.clear()); break;
	case OP_EXCOUT: W->exout = (int)a[0] & 7; LIB(cout.exceptions((unsigned)W->exout)); break;
	case OP_DEVICE: fs.sticky = (int)a[0]; break;
	default: {
	    if (op > OP_IGNORE) break;
	    if (W->exout && op != OP_LINE && op != OP_GET) break;
	    const int64_t rest = W->in.size() - W->p;
	    // what memory holding the same bytes gives
	    istringstream is (W->in.data()+W->p,rest);
	    long v1 = 0, v2 = 0; string s1, s2; int64_t g1 = 0, g2 = 0; Bytes b1, b2;
	    const int64_t n = hmin<int64_t>(hmax<int64_t>(1,a[0]),20000);
	    if (op == OP_READ) { b1.setn(n+1); b2.setn(n+1); memset(b1.data(),0,n+1); memset(b2.data(),0,n+1); }
	    switch (op) {
		case OP_INT: is >> v1; TRY(c, cin >> v2); break;
		case OP_WORD: is >> s1; TRY(c, cin >> s2); break;
		case OP_LINE: is.getline(s1,(char)a[0]); TRY(c, cin.getline(s2,(char)a[0])); break;
		case OP_GET: { char ch = 0; is.get(ch); v1 = is.gcount() ? ch : 0; g1 = is.gcount(); char d = 0; bool done = false; TRY(c, cin.get(d); done = true); g2 = done ? cin.gcount() : 0; v2 = g2 ? d : 0; break; }
		case OP_READ: is.read(b1.data(),n); TRY(c, cin.read(b2.data(),n)); g1 = is.gcount(); g2 = cin.gcount(); break;
		case OP_IGNORE: is.ignore(n,(char)a[1]); TRY(c, cin.ignore(n,(char)a[1])); g1 = is.gcount(); g2 = cin.gcount(); break;
	    }
	    const bool waited = count_sys(SYS_READ);
	    if (!waited && cout.pos()) probe(P_BUFFERED);
	    account(c.kind != TH_NONE);
	    bool rderr = false; for (size_t i = 0; i < sim.trace.size(); ++i) rderr |= sim.trace[i].fd == 0 && sim.trace[i].res < 0 && sim.trace[i].err != EINTR;
	    if (is.eof()) probe(P_EOF);
	    if (c.kind == TH_ALLOC && sim.allocfaults) sim_exit_run();		// what was extracted is not known any more
	    if (rderr) sim_exit_run();
	    if (c.kind != TH_NONE) {
		probe(P_INTHROW);
		if (!W->exout || c.kind != TH_FILE || cout.good()) sim_fail("I03","spurious-throw","extraction from cin threw %s %s",thname(c.kind),c.op);
		// only the bytes that were handed over are gone
		if (op == OP_LINE) { const size_t k = s2.size(); if (k > s1.size() || memcmp(s1.begin(),s2.begin(),k)) sim_fail("I03","wrong-input","interrupted getline handed over wrong text"); W->p += k; }
	    } else {
		const bool same = v1 == v2 && g1 == g2 && s1.size() == s2.size() && !memcmp(s1.begin(),s2.begin(),s1.size()) && b1 == b2;
		if (!same) { sim_fail("I03","wrong-input","extraction at byte %lld of the input gave something else than the input says",(long long)W->p); sim_exit_run(); }
		W->p += is.pos();
	    }
	    if (!cin.good()) LIB(cin.clear());
	    break; }
    }
    if (!cout.good()) W->refused = true;
}
void exec(const Plan& p)
{
    static World w; W = &w;
    w.p = w.sent = 0; w.exout = 0; w.refused = false;
    maketext(w.in,p.cfg[C_TEXT],hmax<int64_t>(0,hmin<int64_t>(30000,p.cfg[C_LEN])));
    static const int types [3] = { NT_TTY, NT_FIFO, NT_REG };
    fs_node(0,"/dev/stdin",types[(uint64_t)p.cfg[C_INTYPE]%3],w.in.data(),w.in.size());
    fs_node(1,"/dev/stdout",types[(uint64_t)p.cfg[C_OUTTYPE]%3],0,0);
    fs_node(2,"/dev/stderr",NT_TTY,0,0);
    fs.n[0].jitter = hmax<int64_t>(0,p.cfg[C_JITTER]);
    fs.n[1].outcap = p.cfg[C_OUTCAP] > 0 ? 16 + p.cfg[C_OUTCAP] : 0; fs.n[1].stall = fs.n[1].stallset = (int)hmin<int64_t>(20,hmax<int64_t>(0,p.cfg[C_STALL]));
    fs_rawopen_at(0,0,O_RDONLY); fs_rawopen_at(1,1,O_WRONLY|(p.cfg[C_STALL] ? O_NONBLOCK : 0)); fs_rawopen_at(2,2,O_WRONLY);
    for (int i = 0; i < (int)p.steps.size(); ++i) { step_begin(p,i); step(p.steps[i].op,p.steps[i].a); }
    sim.step = 0; fs.sticky = 0; sim.trace.clear();
    Caught c;
    LIB(cout.clear()); w.refused = false;
    TRY(c, cout.flush());
    account(false);
    if (fs.n[1].size != (int64_t)w.out.size()) sim_fail("I03","lost-output","after the last flush %lld of %llu bytes are on the terminal",(long long)fs.n[1].size,(unsigned long long)w.out.size());
}
const Scenario S = { "tie", "I03", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
