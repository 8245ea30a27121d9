// ofstream: ordered exact delivery and visible failures on a faulty device.
#include "device.h"
#include <stdio.h>
using namespace ustl;

namespace {
enum { OP_NEWDEF, OP_NEWFD, OP_NEWNAME, OP_NEWSTD, OP_DELETE, OP_OPEN, OP_CLOSE, OP_WRITE, OP_STR, OP_CHAR, OP_INT, OP_FORMAT, OP_ENDL, OP_FLUSH, OP_SEEK, OP_TELL, OP_DEVICE,
       OP_EXC, OP_CLEAR, OP_DISK, OP_STICKY, OP_FAR, N_OPS };
const char* const OPS [N_OPS] = { "new","new_fd","new_open","new_std","delete","open","close","write","put_string","put_char","put_int","format","endl","flush","seekp","tellp","device_request",
       "exceptions","clear","disk_capacity","sticky_error","far_offsets" };
enum { C_SIZE0, C_CAP, C_STALL, C_NONBLOCK, C_STD1, C_STD2, N_CFG };
const char* const CFG [N_CFG] = { "size_a","pipe_capacity","pipe_stall","nonblock","stdout_is","stderr_is" };
enum { P_OVERFLOWED, P_SHORT, P_EAGAIN, P_FAILED, P_THROWN, P_RECOVERED, P_REOPEN, P_DTORFLUSH, P_LOST, P_NOSPC, P_ALLOC, P_FAR, N_PROBES };
const char* const PROBES [N_PROBES] = { "buffer_overflowed_to_device","write_continued_after_short","write_would_block","device_failed","exception_thrown","retained_text_delivered_after_clear",
       "opened_over_pending_text","destructor_flushed","failed_stream_dropped_text","disk_full","allocation_failed","offset_beyond_31_bits" };
enum { NFILE = 4, NSLOT = 2 };
const char* const PATHS [NFILE] = { "/d/alpha", "/d/beta", "/d/pipe", "/dev/tty9" };

void far_offsets(const int64_t* a);
struct Slot {
    bool live, stdfd; int fd, node; bool app; int ex;
    int64_t pos;		// file offset where the next delivered byte belongs
    Bytes pend;			// accepted, not delivered
    bool retained;		// pend survived a failure
    bool failed;		// the device failed since the last clear
    int64_t room;		// most text that had to be held at once for a reason
    char mem [sizeof(ofstream)] __attribute__((aligned(16)));
    ofstream& f() { return *reinterpret_cast<ofstream*>(mem); }
};
struct World { Slot s [NSLOT]; Bytes file [NFILE]; FdSet mine; uint32_t wid; int64_t maxpend [NSLOT]; int stdnode [3]; bool nonblk; };
World* W;

void gen(Rng& r, Plan& p, bool faults)
{
    const bool o1 = p.is("O01"), o2 = p.is("O02");
    p.cfg[C_SIZE0] = r.chance(500) ? 0 : r.skewed(6000);
    p.cfg[C_CAP] = r.chance(300) ? 0 : 1+r.skewed(5000);
    p.cfg[C_STALL] = r.chance(500) ? 0 : 1+r.skewed(60);
    p.cfg[C_NONBLOCK] = r.chance(500); p.cfg[C_STD1] = r.below(NFILE); p.cfg[C_STD2] = r.below(NFILE);
    const bool eShort = r.chance(750), eIntr = r.chance(600), eErr = r.chance(o2 ? 800 : 450), eAgain = r.chance(400), eZero = r.chance(o2 ? 300 : 100), eAlloc = r.chance(250), eDisk = r.chance(300), eStick = r.chance(250);
    const unsigned frate = faults ? (unsigned)r.range(150,800) : 0;
    const bool huge = r.chance(5);	// texts beyond what 16 bits count
    if (huge && p.cfg[C_CAP]) p.cfg[C_CAP] += 5000;
    const int big = r.chance(400) ? 12000 : r.chance(500) ? 3000 : 200;
    switch (r.below(5)) {
	case 0: p.add(OP_NEWFD,0,r.below(NFILE)); break;
	case 1: p.add(OP_NEWSTD,0); break;
	case 2: p.add(OP_NEWDEF,0); p.add(OP_OPEN,0,r.below(NFILE),r.below(4)); break;
	default: p.add(OP_NEWNAME,0,r.below(NFILE),r.below(4)); break;
    }
    if (r.chance(350)) p.add(OP_EXC,0,r.chance(500)?7:r.below(8));
    const bool longrun = r.chance(200);
    int n = (longrun ? 3 : 6) + (int)r.skewed(longrun ? 12 : 50);
    for (int i = 0; i < n; ++i) {
	int s = r.chance(800) ? 0 : 1;
	int64_t w = r.below(1000);
	const size_t qi = p.steps.size();
	if (w < 250) p.add(OP_WRITE,s,huge && r.below(3) ? r.below(150000) : r.skewed(big));
	else if (w < 350) p.add(OP_STR,s,r.skewed(big < 2000 ? 300 : 2000));
	else if (w < 410) p.add(OP_CHAR,s,r.below(250));
	else if (w < 470) p.add(OP_INT,s,r.chance(500) ? r.range(-99999,99999) : (int64_t)(r.next()>>2));
	else if (w < 540) p.add(OP_FORMAT,s,r.skewed(big),r.range(-1000,1000));
	else if (w < 590) p.add(OP_ENDL,s);
	else if (w < 700) p.add(OP_FLUSH,s);
	else if (w < 750) p.add(OP_SEEK,s,r.chance(700) ? r.skewed(5000) : r.range(-500,500),r.below(3));
	else if (w < 775) p.add(OP_TELL,s);
	else if (w < 778) p.add(OP_FAR,r.below(N_FAR),r.skewed(3000),r.next()>>20,r.below(2));
	else if (w < 790) p.add(OP_DEVICE,s,r.below(N_DEV),r.below(64));
	else if (w < 830) p.add(OP_CLOSE,s);
	else if (w < 870) p.add(OP_OPEN,s,r.below(NFILE),r.below(4));
	else if (w < 900) p.add(r.chance(500) ? OP_NEWNAME : OP_NEWFD,s,r.below(NFILE),r.below(4));
	else if (w < 915) p.add(OP_DELETE,s);
	else if (w < 930) p.add(OP_EXC,s,r.below(8));
	else if (w < 970) p.add(OP_CLEAR,s);
	else if (eDisk && faults) p.add(OP_DISK,r.chance(300) ? -1 : r.skewed(6000));
	else if (eStick && faults) p.add(OP_STICKY,r.chance(500) ? 0 : r.chance(500) ? 5 : 28);
	else p.add(OP_NEWSTD,s);
	if (o1 && r.chance(150)) p.add(OP_CLEAR,s);
	const int op = p.steps[qi].op;
	if (longrun && (op == OP_WRITE || op == OP_STR || op == OP_FORMAT)) {	// much text in a row
	    const int64_t n1 = p.steps[qi].a[1], n2 = p.steps[qi].a[2];
	    for (int64_t k = r.skewed(30), tot = 0; k > 0 && tot < 40000; --k, tot += n1) p.add(op,s,n1,n2);
	}
	if (op >= OP_EXC || op == OP_TELL || !r.chance(frate)) continue;
	Step& st = p.steps[qi];
	int kinds [8], nk = 0;
	if (eShort) { kinds[nk++] = F_SHORT; kinds[nk++] = F_SHORT; }
	if (eIntr) kinds[nk++] = F_EINTR;
	if (eErr) kinds[nk++] = F_ERR;
	if (eAgain) kinds[nk++] = F_EAGAIN;
	if (eZero) kinds[nk++] = F_ZERO;
	if (eAlloc && op >= OP_WRITE && op <= OP_ENDL) kinds[nk++] = F_ALLOC;
	if (!nk) continue;
	int nf = 1 + (int)r.skewed(2);
	for (int k = 0; k < nf; ++k) {
	    static const int es [] = { 5, 28, 122, 32 /*EPIPE*/, 27 /*EFBIG*/, 116 };
	    const int idx = (int)r.skewed(5), cnt = r.chance(600) ? 1 : 1 + (int)r.skewed(40), kind = kinds[r.below(nk)];
	    switch (kind) {
		case F_SHORT: addfault(st,kind,r.chance(600)?0:idx,r.chance(400)?cnt:200,1+r.skewed(2000)); break;
		case F_ERR: addfault(st,kind,idx,r.chance(700)?1:cnt,es[r.below(6)]); break;
		case F_EINTR: case F_EAGAIN: addfault(st,kind,idx,cnt,0); break;
		case F_ALLOC: addfault(st,kind,(int)r.skewed(2),1,0); break;
		default: addfault(st,kind,idx,1,0); break;
	    }
	}
    }
    if (r.chance(300)) { p.add(OP_STICKY,0); p.add(OP_DISK,-1); p.add(OP_CLEAR,0); p.add(OP_FLUSH,0); }
}

bool harderr(const SysRec& r) { return r.res < 0 && !((r.call == SYS_WRITE || r.call == SYS_CLOSE) && r.err == EINTR) && !(r.call == SYS_WRITE && r.err == EAGAIN); }

void compare(int node, const char* what)
{
    if (node >= 0) {
	Bytes& f = W->file[node]; Node& n = fs.n[node];
	if (n.size != (int64_t)f.size()) { sim_fail("O01","wrong-length","%s: %s holds %lld bytes, expected %lld",what,n.path,(long long)n.size,(long long)f.size()); sim_exit_run(); }
	else if (n.size && memcmp(n.data,f.data(),n.size)) {
	    int64_t k = 0; while (n.data[k] == f[k]) ++k;
	    sim_fail("O01","wrong-data","%s: %s does not hold the text written, first difference at offset %lld",what,n.path,(long long)k); sim_exit_run();
	}
    }
}
struct Outcome { bool devfail; int64_t delivered; };
// Settles one operation; text is what it put into the stream.
enum { SET_FLUSHES = 1, SET_GONE = 2, SET_REOPENS = 4 };
Outcome settle(Slot& s, int fd, int node, const Bytes& text, const Caught& c, const char* what, unsigned st0, int how)
{
    Outcome o = { false, 0 };
    Bytes q (s.pend); q.append(text.data(),text.size());
    const size_t slot = &s - W->s;
    W->maxpend[slot] = hmax<int64_t>(W->maxpend[slot],q.size());
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& r = sim.trace[i];
	const bool retried = r.err == EINTR && i+1 < sim.trace.size() && sim.trace[i+1].call == r.call && sim.trace[i+1].fd == r.fd;
	if ((harderr(r) && !retried) || (r.call == SYS_WRITE && r.res == 0 && r.req > 0)) { o.devfail = true; if (r.err == ENOSPC) probe(P_NOSPC); }
	if (r.call != SYS_WRITE) continue;
	if (r.err == EAGAIN) probe(P_EAGAIN);
	if (r.fd != fd) { sim_fail("O01","wrong-fd","%s: text written to descriptor %d instead of %d",what,r.fd,fd); continue; }
	if (r.res > 0) { o.delivered += r.res; if (r.res < r.req) probe(P_SHORT); }
    }
    if (o.devfail) { probe(P_FAILED); s.failed = true; }
    if (o.delivered > (int64_t)q.size()) { sim_fail("O01","duplicated","%s: %lld bytes written although only %lld were pending",what,(long long)o.delivered,(long long)q.size()); sim_exit_run(); }
    if (o.delivered) {		// what reached the device, and where it belongs
	Bytes& f = W->file[node];
	if (node >= 2) f.append(q.data(),o.delivered);
	else {
	    const int64_t at = s.app ? (int64_t)f.size() : s.pos;
	    if ((int64_t)f.size() < at+o.delivered) f.resize(at+o.delivered);
	    memcpy(f.data()+at,q.data(),o.delivered);
	    s.pos = at+o.delivered;
	}
	if (s.retained) probe(P_RECOVERED);
	if (!(how & SET_FLUSHES)) probe(P_OVERFLOWED);
    }
    if (!(how & SET_REOPENS)) compare(node,what);
    const int64_t left = (int64_t)q.size() - o.delivered;
    bool again = false; for (size_t i = 0; i < sim.trace.size(); ++i) again |= sim.trace[i].call == SYS_WRITE && sim.trace[i].err == EAGAIN;
    s.room = hmax<int64_t>(s.room,text.size());
    if (o.devfail || again || st0 || c.kind != TH_NONE) s.room = hmax<int64_t>(s.room,q.size());
    if (c.kind == TH_ALLOC) { probe(P_ALLOC); if (!sim.allocfaults) sim_fail("O02","memory","%s ran out of memory",what); }
    if (c.kind == TH_OTHER) sim_fail("O02","wrong-exception","%s threw %s",what,c.op);
    if (how & SET_GONE) {	// destroyed
	if (left && !o.devfail && !st0) sim_fail("O01","lost","%s: %lld bytes of text never written",what,(long long)left);
	s.pend.clear(); s.retained = false;
	return o;
    }
    const bool closed = s.f().fd() != fd || (how & SET_REOPENS && c.kind == TH_NONE);
    const int64_t buffered = closed ? 0 : (int64_t)s.f().pos();
    const unsigned st = s.f().rdstate();
    const bool visible = st || c.kind != TH_NONE;
    if (buffered > left) { sim_fail("O01","duplicated","%s: %lld bytes delivered or pending, only %lld were written",what,(long long)(o.delivered+buffered),(long long)q.size()); sim_exit_run(); }
    if (!closed && o.delivered + buffered < (int64_t)s.pend.size()) sim_fail("O01","lost","%s: pending text was dropped (%lld of %lld bytes left)",what,(long long)(o.delivered+buffered),(long long)s.pend.size());
    if (buffered < left) {
	probe(P_LOST);
	if (!visible && !(how & SET_REOPENS && (o.devfail || st0))) {
	    sim_fail("O02","silent-loss","%s: %lld bytes of text lost, but the stream is good",what,(long long)(left-buffered));
	    sim_fail("O01","lost","%s: %lld bytes of text lost, but the stream is good",what,(long long)(left-buffered));
	}
	if (!o.devfail && !st0 && c.kind != TH_ALLOC) sim_fail("O01","lost","%s: %lld bytes of text lost although the device did not fail",what,(long long)(left-buffered));
    }
    if ((how & SET_FLUSHES) && !visible && buffered) { sim_fail("O01","not-flushed","%s succeeded with %lld bytes still pending",what,(long long)buffered); sim_fail("O02","not-flushed","%s succeeded with %lld bytes still pending",what,(long long)buffered); }
    if ((how & SET_FLUSHES) && !(how & SET_REOPENS) && s.failed && !visible) sim_fail("O02","silent-failure","%s: the device failed, but the stream is good",what);
    // exceptions only when enabled and only for a reason
    if (c.kind == TH_FILE || c.kind == TH_BOUNDS) {
	probe(P_THROWN);
	if (!s.ex) sim_fail("O02","spurious-throw","%s threw %s with exceptions disabled",what,thname(c.kind));
	if (!o.devfail && !st0) sim_fail("O02","spurious-throw","%s threw %s (%s) although nothing failed",what,thname(c.kind),c.op);
    }
    if (o.devfail && s.ex == 7 && c.kind == TH_NONE && !(how & SET_REOPENS)) sim_fail("O02","not-thrown","%s failed with all exceptions enabled, but nothing was thrown",what);
    if (!o.devfail && !st0 && st && c.kind != TH_ALLOC) sim_fail("O02","spurious-state","%s: state is %u although nothing failed",what,st);
    if (st0 && !(how & SET_REOPENS) && !st) sim_fail("O02","state-dropped","%s: the failure state %u was dropped",what,st0);
    // an accepting device is given the text
    if (!o.devfail && !again && !visible && !st0 && buffered > 2*(4096+s.room)) sim_fail("O02","hoarded","%s: %lld bytes of text are held back from a device that accepts them",what,(long long)buffered);
    Bytes rest; rest.append(q.data()+o.delivered,hmin(buffered,left));
    s.pend = rest;
    s.retained = !rest.empty() && (o.devfail || s.retained);
    // memory stays proportional to what had to be kept
    int64_t allow = 0; for (int i = 0; i < NSLOT; ++i) allow += 4*W->maxpend[i] + 3*4096 + 1024;
    if ((int64_t)arena_peak_bytes() > allow) sim_fail("O02","memory","%s: %lld bytes of memory used, at most %lld bytes of text were ever pending",what,(long long)arena_peak_bytes(),(long long)(W->maxpend[0]+W->maxpend[1]));
    return o;
}
const unsigned MODES [4] = { fstream::out, fstream::out|fstream::trunc, fstream::out|fstream::app, fstream::out|fstream::in };

void attached(Slot& s, int fd, int node)
{
    s.fd = fd; s.node = node; s.app = fs_flags(fd) & O_APPEND; s.pos = fs_rawpos(fd); s.pend.clear(); s.retained = s.failed = false;
    if (W->nonblk && node >= 2) fs.ofd[fs.fd[fd].ofd].flags |= O_NONBLOCK;
}
// Works out which file the stream refers to after an open.
void afteropen(Slot& s, int node, int mode, int oldfd, const char* what)
{
    int fd = -1;
    for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_OPEN) fd = (int)sim.trace[i].res;
    if (fd >= 0 && (MODES[mode] & fstream::trunc) && node < 2) W->file[node].clear();
    const int now = s.f().fd();
    if (fd >= 0 && now == fd) attached(s,fd,node);
    else if (now != oldfd || now < 0) { s.fd = now; s.node = -1; s.pend.clear(); s.retained = false; }
    if (now >= 0 && s.f().pos() && now == fd) sim_fail("O01","stale-text","%s: %llu bytes meant for another file are pending",what,(unsigned long long)s.f().pos());
}
void keepstd(void)
{
    for (int i = 0; i < 3; ++i) {
	bool used = false; for (int k = 0; k < NSLOT; ++k) used |= W->s[k].live && W->s[k].fd == i;
	if (!fs_isopen(i) && !used) { fs_rawopen_at(i,W->stdnode[i],O_RDWR); W->mine.add(i); }
    }
}
void drop(Slot& s)
{
    const int64_t room = s.room; s.room = 0;	// the buffer goes with the object
    if (!s.live) return;
    Bytes none; Caught c; const unsigned st0 = s.f().rdstate(); const int fd = s.fd, node = s.node;
    const size_t before = s.pend.size();
    sim.trace.clear();
    TRY(c, s.f().~ofstream());
    if (c.kind != TH_NONE) sim_fail("F03","dtor-throw","destructor threw %s",thname(c.kind));
    s.live = false; s.room = room;
    settle(s,fd,node,none,c,"destruction",st0,SET_GONE|SET_FLUSHES);
    if (before) probe(P_DTORFLUSH);
    s.fd = -1; s.room = 0;
}
void textop(Slot& s, int op, const int64_t* a)
{
    if (!s.live || s.fd < 0) return;
    Bytes t; Caught c; const unsigned st0 = s.f().rdstate();
    const int64_t n = hmin<int64_t>(hmax<int64_t>(0,a[1]),150000);
    const uint32_t id = ++W->wid;
    char num [64];
    ofstream& f = s.f();
    switch (op) {
	case OP_WRITE: patfill(t,id,n); if (id % 3) { TRY(c, f.write(t.data(),n)); } else { cmemlink l (t.data(),n); TRY(c, f.write(l)); } break;
	case OP_STR: t.setn(n); for (int64_t i = 0; i < n; ++i) t[i] = 33 + pat(id,i) % 90; t.push(0); { string l; l.link ((const char*)t.data(),n); TRY(c, switch (id % 4) { case 0: f << l; break; case 1: f.iwrite(l); break; case 2: { ostream_iterator<string,ofstream> oi (f); *oi++ = l; break; } default: f << (const char*)t.data(); }); } t.pop(); break;
	case OP_CHAR: t.push('!'+(uint8_t)(n%90)); TRY(c, switch (id % 6) { case 0: f << (unsigned char)t[0]; break; case 1: f.put((char)t[0]); break; case 2: { ostream_iterator<char,ofstream> oi (f); *oi++ = (char)t[0]; break; } case 3: f << (wchar_t)t[0]; break; case 4: f << (signed char)t[0]; break; default: f << (char)t[0]; }); break;
	case OP_INT: if (id % 11 == 7) {	// in a wide field
	    const int w = id % 2 ? 20+(uint64_t)a[1] % 300 : (uint64_t)a[1] % 6000; static char wide [6100]; const int l = snprintf(wide,sizeof(wide),"%*d",w,(int)a[1]); t.append((const uint8_t*)wide,l); f.width (w); TRY(c, f << (int)a[1]); f.width (0); break; }
	    snprintf(num,sizeof(num),"%lld",(long long)a[1]); t.append((const uint8_t*)num,strlen(num)); TRY(c, switch (id % 4) { case 0: { ostream_iterator<long,ofstream> oi (f); *oi = (long)a[1]; break; } case 1: if ((int)a[1] == a[1]) { f << (int)a[1]; break; } default: f << (long long)a[1]; break; case 3: f.format ("%ld",(long)a[1]); }); break;
	case OP_FORMAT: {
	    Bytes z; z.setn(n); for (int64_t i = 0; i < n; ++i) z[i] = 33 + pat(id,i) % 90; z.push(0);
	    t = z; t.pop(); snprintf(num,sizeof(num),"=%d;",(int)a[2]); t.append((const uint8_t*)num,strlen(num));
	    TRY(c, f.format("%s=%d;",(const char*)z.data(),(int)a[2])); break; }
	case OP_ENDL: t.push('\n'); TRY(c, f << endl); break;
    }
    settle(s,s.fd,s.node,t,c,OPS[op],st0,op == OP_ENDL ? SET_FLUSHES : 0);
}
void step(int op, const int64_t* a)
{
    const int si = (int)((uint64_t)a[0] % NSLOT);
    Slot& s = W->s[si];
    Bytes none; Caught c;
    const int file = (int)((uint64_t)a[1] % NFILE), mode = (int)((uint64_t)a[2] % 4);
    const unsigned st0 = s.live ? s.f().rdstate() : 0;
    switch (op) {
	case OP_NEWDEF: drop(s); sim.trace.clear(); TRY(c, new (s.mem) ofstream); if (c.kind == TH_NONE) { s.live = true; s.ex = 0; s.fd = -1; s.node = -1; s.pend.clear(); s.failed = s.retained = false; } break;
	case OP_NEWFD: { drop(s); sim.trace.clear(); int fd = fs_rawopen(file,O_WRONLY); TRY(c, new (s.mem) ofstream (fd));
	    if (c.kind == TH_NONE) { s.live = true; s.ex = 0; attached(s,fd,file); } else fs_rawclose(fd);
	    break; }
	case OP_NEWSTD: { drop(s); sim.trace.clear(); const int fd = 1+si; TRY(c, new (s.mem) ofstream (fd));
	    if (c.kind == TH_NONE) { s.live = true; s.ex = 0; attached(s,fd,fs.fd[fd].node); }
	    break; }
	case OP_NEWNAME: drop(s); sim.trace.clear(); TRY(c, new (s.mem) ofstream (PATHS[file],MODES[mode]));
	    if (c.kind == TH_NONE) { s.live = true; s.ex = 0; s.failed = s.retained = false; s.pend.clear(); afteropen(s,file,mode,-1,"construction"); if (s.f().fd() < 0 && s.f().good()) sim_fail("O02","silent-failure","file did not open, but the stream is good"); }
	    else if (c.kind != TH_ALLOC || !sim.allocfaults) sim_fail("O02","spurious-throw","constructor threw %s",thname(c.kind));
	    break;
	case OP_DELETE: drop(s); break;
	case OP_OPEN: {
	    if (!s.live) break;
	    const int oldfd = s.fd;
	    if (oldfd >= 0 && !s.pend.empty()) probe(P_REOPEN);
	    TRY(c, s.f().open(PATHS[file],MODES[mode]));
	    settle(s,oldfd,s.node,none,c,"open",st0,SET_REOPENS|SET_FLUSHES);
	    afteropen(s,file,mode,oldfd,"open");
	    for (int i = 0; i < NFILE; ++i) compare(i,"open");
	    if (s.f().fd() < 0 && s.f().good()) sim_fail("O02","silent-failure","file did not open, but the stream is good");
	    break; }
	case OP_CLOSE:
	    if (!s.live) break;
	    TRY(c, s.f().close());
	    settle(s,s.fd,s.node,none,c,"close",st0,SET_FLUSHES);
	    if (s.f().fd() < 0) { s.fd = s.node = -1; s.pend.clear(); s.retained = false; }
	    else if (c.kind == TH_NONE) sim_fail("F03","not-closed","close returned with descriptor %d still open",s.f().fd());
	    break;
	case OP_WRITE: case OP_STR: case OP_CHAR: case OP_INT: case OP_FORMAT: case OP_ENDL: textop(s,op,a); break;
	case OP_FLUSH: if (s.live) { TRY(c, s.f().flush()); settle(s,s.fd,s.node,none,c,"flush",st0,SET_FLUSHES); } break;
	case OP_SEEK: {
	    if (!s.live) break;
	    const int64_t off = a[1]; const int wh = (int)((uint64_t)a[2] % 3);
	    // the text goes out first, then the position changes
	    TRY(c, s.f().seekp(off,wh == 0 ? ios_base::beg : wh == 1 ? ios_base::cur : ios_base::end));
	    bool moved = false; int64_t to = 0;
	    for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_LSEEK && sim.trace[i].res >= 0 && !(sim.trace[i].req == 0 && sim.trace[i].arg == SEEK_CUR)) { moved = true; to = sim.trace[i].res; }
	    Outcome o = settle(s,s.fd,s.node,none,c,"seekp",st0,SET_FLUSHES);
	    if (s.fd < 0 || s.node >= 2) break;
	    const int64_t want = (wh == 0 ? 0 : wh == 1 ? s.pos : (int64_t)W->file[s.node].size()) + off;
	    if (moved) {
		if (!s.pend.empty()) sim_fail("O01","seek-lost-place","seekp moved away from where %llu pending bytes belong",(unsigned long long)s.pend.size());
		if (to != want) sim_fail("O01","seek-wrong","seekp went to offset %lld, expected %lld",(long long)to,(long long)want);
		s.pos = to;
	    } else if (!o.devfail && !st0 && want >= 0 && !(wh == 1 && !off)) sim_fail("O01","seek-ignored","seekp did not move the file position");
	    break; }
	case OP_TELL: {
	    if (!s.live || s.fd < 0 || s.node >= 2 || s.app) break;
	    int64_t p = 0; TRY(c, p = s.f().tellp());
	    if (c.kind != TH_NONE) { sim_fail("O02","spurious-throw","tellp threw %s",thname(c.kind)); break; }
	    if (p != s.pos + (int64_t)s.pend.size()) sim_fail("O01","tellp","tellp is %lld, expected %lld",(long long)p,(long long)(s.pos+(int64_t)s.pend.size()));
	    break; }
	case OP_DEVICE:
	    if (!s.live) break;
	    if (device_op(s.f(),s.fd,s.node,s.node < 0 ? 0 : fs.n[s.node].size,s.ex,(uint64_t)a[1],a[2],"O02")) { LIB(s.f().clear()); s.failed = false; }
	    if (s.fd >= 0) { compare(s.node,"device request"); if ((size_t)s.f().pos() != s.pend.size()) sim_fail("O01","lost","after a device request %llu bytes of text are pending, expected %llu",(unsigned long long)s.f().pos(),(unsigned long long)s.pend.size()); }
	    break;
	case OP_EXC: if (s.live) { LIB(s.f().exceptions((unsigned)a[1] & 7)); s.ex = (int)a[1] & 7; } break;
	case OP_CLEAR: if (s.live) { LIB(s.f().clear()); s.failed = false; } break;
	case OP_FAR: far_offsets(a); break;
	case OP_DISK: fs.capacity = a[0] < 0 ? -1 : a[0]; break;
	case OP_STICKY: fs.sticky = (int)a[0]; break;
    }
}
// Writing text into a sparse file beyond what 31, 32 or 33 bits count.
void far_offsets(const int64_t* a)
{
    const int64_t base = FAR [(uint64_t)a[0] % N_FAR]; Rng r ((uint64_t)a[2]);
    const int64_t cap = fs.capacity; const int sticky = fs.sticky; fs.capacity = -1; fs.sticky = 0;
    Bytes b; patfill(b,77,hmax<int64_t>(0,hmin<int64_t>(a[1],5000)));
    fs_node(FARNODE,"/d/far",NT_REG,b.data(),b.size()); Node& nd = fs.n[FARNODE]; nd.base = base;
    Caught c; c.kind = TH_NONE; static char mem [sizeof(ofstream)] __attribute__((aligned(16))); ofstream& f = *(ofstream*)mem;
    TRY(c, new (mem) ofstream("/d/far",a[3] & 1 ? ios_base::in|ios_base::out|ios_base::nocreate : ios_base::out));
    int64_t pos = 0; static const ios_base::seekdir D [] = { ios_base::beg, ios_base::cur, ios_base::end };
    for (int k = 3+(int)r.below(8); k-- && c.kind == TH_NONE;) {
	switch (pos < base ? 0 : r.below(7)) {
	    case 0: case 1: {
		const int64_t size = base + (int64_t)b.size(), to = base + r.skewed(b.size()+200), wh = r.below(3), from = wh == 0 ? 0 : wh == 1 ? pos : size;
		TRY(c, f.seekp(to-from,D[wh])); pos = to; probe(P_FAR);
		if (fs_rawpos(f.fd()) != to) sim_fail("O01","seek-wrong","seeking to offset %lld of a file of %lld bytes went to %lld",(long long)to,(long long)size,(long long)fs_rawpos(f.fd()));
		break; }
	    case 2: TRY(c, f.flush()); break;
	    default: {
		const int64_t n = r.skewed(r.chance(300) ? 6000 : 300); Bytes w; patfill(w,200+k,n); TRY(c, f.write(w.data(),n));
		if (n) { if ((int64_t)b.size() < pos-base+n) b.resize(pos-base+n); memcpy(b.data()+(pos-base),w.data(),n); }
		pos += n; break; }
	}
	int64_t t = -1; TRY(c, t = f.tellp()); if (t != pos) { sim_fail("O01","tellp","tellp is %lld, expected %lld",(long long)t,(long long)pos); break; }
	if (!f.good()) { sim_fail("O02","spurious-state","nothing failed at offset %lld, but the state is %d",(long long)pos,(int)f.rdstate()); break; }
    }
    if (c.kind != TH_NONE) sim_fail("O02","spurious-throw","nothing failed at offset %lld, but %s was thrown",(long long)pos,thname(c.kind));
    LIB(f.~ofstream());
    if (nd.size != (int64_t)b.size() || (nd.size && memcmp(nd.data,b.data(),nd.size))) sim_fail("O01","wrong-data","the file at %lld is not what was written",(long long)base);
    nd.path = 0; nd.exists = false; nd.base = 0; nd.size = 0; fs.capacity = cap; fs.sticky = sticky;
    { size_t j = 0; for (size_t i = 0; i < fs.unsynced.size(); ++i) if (fs.unsynced[i].node != FARNODE) fs.unsynced[j++] = fs.unsynced[i]; fs.unsynced.setn(j); }
}
void ownership(void)
{
    FdSet lib;
    for (int i = 0; i < NSLOT; ++i) { Slot& s = W->s[i]; if (!s.live) continue; const int fd = s.f().fd(); if (fd < 0) continue; if (fd <= 2) { if (!fs_isopen(fd)) sim_fail("F03","stale-fd","a stream refers to descriptor %d which is not open",fd); continue; } if (lib.has(fd)) sim_fail("F03","shared-fd","two streams refer to descriptor %d",fd); lib.add(fd); }
    // a stream that owned a standard descriptor may have closed it by close() or open()
    FdSet mine;
    for (int i = 0; i < 3; ++i) if (fs_isopen(i)) mine.add(i);
    check_fd_calls();
    check_fd_owners(lib,mine);
}
void exec(const Plan& p)
{
    static World w; W = &w;
    w.wid = 100; w.nonblk = p.cfg[C_NONBLOCK];
    for (int i = 0; i < NSLOT; ++i) { w.s[i].live = false; w.s[i].fd = -1; }
    Bytes b;
    patfill(b,1,hmax<int64_t>(0,hmin<int64_t>(p.cfg[C_SIZE0],60000))); fs_node(0,PATHS[0],NT_REG,b.data(),b.size()); w.file[0] = b;
    fs_node(1,PATHS[1],NT_REG,b.data(),0);
    fs_node(2,PATHS[2],NT_FIFO,0,0); fs_node(3,PATHS[3],NT_TTY,0,0);
    for (int i = 2; i < 4; ++i) { fs.n[i].outcap = hmax<int64_t>(0,p.cfg[C_CAP]); if (fs.n[i].outcap && fs.n[i].outcap < 300 && p.cfg[C_STALL]) fs.n[i].outcap = 300; fs.n[i].stallset = fs.n[i].stall = (int)hmin<int64_t>(200,p.cfg[C_STALL]); }
    w.stdnode[0] = 3; w.stdnode[1] = (int)((uint64_t)p.cfg[C_STD1] % NFILE); w.stdnode[2] = (int)((uint64_t)p.cfg[C_STD2] % NFILE);
    keepstd();
    for (int i = 0; i < (int)p.steps.size(); ++i) {
	step_begin(p,i);
	bool stdown [3]; for (int k = 0; k < 3; ++k) { stdown[k] = false; for (int j = 0; j < NSLOT; ++j) stdown[k] |= w.s[j].live && w.s[j].fd == k; }
	step(p.steps[i].op,p.steps[i].a);
	const int op = p.steps[i].op;
	for (int k = 0; k < 3; ++k) if (!fs_isopen(k) && !(stdown[k] && (op == OP_CLOSE || op == OP_OPEN))) sim_fail("F03","std-closed","descriptor %d was closed by %s",k,OPS[op]);
	ownership();
	keepstd();
    }
    // the faults end: what the streams still hold is delivered once
    sim.step = 0; fs.sticky = 0; fs.capacity = -1; sim.allocfaults = false;
    for (int i = 0; i < NSLOT; ++i) {
	Slot& s = w.s[i]; if (!s.live) continue;
	Bytes none; Caught c;
	sim.trace.clear(); sim.stepbudget = 20000;
	LIB(s.f().exceptions(0); s.f().clear()); s.ex = 0; s.failed = false;
	TRY(c, s.f().flush());
	settle(s,s.fd,s.node,none,c,"last flush",0,SET_FLUSHES);
	drop(s);
    }
    ownership();
    arena_check_leaks("F03","after destroying every stream");
}
const Scenario S = { "ofs", "O01 O02 F03", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
