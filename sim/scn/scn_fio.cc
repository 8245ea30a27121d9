// fstream against a file, pipe and terminal model under partial transfers,
// signals, device errors, full disks, allocation failures and crashes.
#include "device.h"
using namespace ustl;

namespace {
enum { OP_NEW, OP_NEWOPEN, OP_NEWFD, OP_DELETE, OP_OPEN, OP_ATTACH, OP_ATTACHBAD, OP_DETACH, OP_CLOSE, OP_SYNC, OP_FLUSH, OP_READ, OP_READSOME, OP_WRITE,
       OP_SEEK, OP_POS, OP_SIZE, OP_EXC, OP_CLEAR, OP_NONBLK, OP_IOCTL, OP_FCNTL, OP_MMAP, OP_MPOKE, OP_MSYNC, OP_MUNMAP, OP_CRASH, OP_DISK, OP_STICKY, OP_HUGE, N_OPS };
const char* const OPS [N_OPS] = { "new","new_open","new_fd","delete","open","attach","attach_bad","detach","close","sync","flush","read","readsome","write",
       "seek","pos","size","exceptions","clear","set_nonblock","ioctl","fcntl","mmap","mpoke","msync","munmap","crash","disk_capacity","sticky_error","far_offsets" };
enum { C_SIZE0, C_SIZE1, C_CHUNK, C_STALL, C_CAP, N_CFG };
const char* const CFG [N_CFG] = { "size_a","size_b","pipe_chunk","pipe_stall","pipe_capacity" };
enum { P_SHORTREAD, P_SHORTWRITE, P_EINTR_RESUMED, P_EOF, P_WRITE_ZERO, P_THROWN, P_CLOSEFAIL, P_REPLACE, P_CRASHED, P_SYNCED, P_PARTIAL_AGAIN, P_ENOSPC, P_MMAP, P_ALLOCFAIL, P_APPEND, P_TORN, P_FAR, N_PROBES };
const char* const PROBES [N_PROBES] = { "read_resumed_after_short","write_resumed_after_short","interrupted_call_resumed","read_hit_eof","write_returned_zero","exception_thrown","close_failed","open_over_open_stream","crash_survived","sync_then_crash","partial_write_would_block","disk_filled_midwrite","mapping_checked","allocation_failed_in_open","append_write","unsynced_data_lost","offset_beyond_31_bits" };

enum { NSLOT = 3, NFILE = 5 };
const char* const PATHS [NFILE] = { "/d/alpha", "/d/beta", "/d/new", "/d/pipe", "/dev/tty9" };

// model of an open file
struct MFile { Bytes data; bool exists; Bytes synced; bool everSynced; Vec<uint8_t> dirty; };	// dirty[i]: byte written since last sync
struct Slot {
    bool live; int fd, node; int st, ex; const char* name; bool rd, wr, app; int64_t pos;
    char mem [sizeof(fstream)] __attribute__((aligned(16)));
    fstream& f() { return *reinterpret_cast<fstream*>(mem); }
};
struct World {
    Slot s [NSLOT];
    MFile f [NFILE];
    FdSet mine;
    memlink map; int mapnode; int64_t mapoff; bool mapped; int mapslot;
    uint32_t wid;
};
World* W;

unsigned modebits(int64_t m)
{
    static const unsigned tab [] = {
	fstream::in, fstream::out, fstream::in|fstream::out, fstream::in|fstream::out|fstream::trunc, fstream::out|fstream::trunc,
	fstream::out|fstream::app, fstream::in|fstream::out|fstream::app, fstream::out|fstream::ate, fstream::out|fstream::nocreate,
	fstream::in|fstream::out|fstream::nocreate, fstream::in|fstream::nonblock, fstream::out|fstream::nonblock, fstream::in|fstream::out|fstream::nonblock,
	fstream::in|fstream::binary, fstream::out|fstream::trunc|fstream::binary|fstream::noctty, fstream::in|fstream::out|fstream::noctty,
	fstream::in|fstream::out|fstream::trunc|fstream::nocreate, fstream::in|fstream::noctty };
    const unsigned ntab = sizeof(tab)/sizeof(tab[0]);
    if ((uint64_t)m < ntab) return tab[m];
    // any combination of bits, as long as it asks for some access and truncates only what it may write
    unsigned b = (unsigned)((uint64_t)m - ntab) & ((1u<<fstream::nombits)-1);
    if (!(b & (fstream::in|fstream::out))) b |= fstream::out;
    if (!(b & fstream::out)) b &= ~(unsigned)fstream::trunc;
    return b;
}
int64_t anymode(Rng& r) { return r.chance(600) ? r.below(18) : 18 + r.below(1u<<fstream::nombits); }

void gen(Rng& r, Plan& p, bool faults)
{
    const bool f01 = p.is("F01"), f02 = p.is("F02"), f03 = p.is("F03"), f04 = p.is("F04"), f05 = p.is("F05");
    const bool huge = r.chance(5);	// transfers beyond what 16 bits count
    p.cfg[C_SIZE0] = huge ? r.range(60000,250000) : r.chance(150) ? 0 : r.skewed(9000);
    p.cfg[C_SIZE1] = r.chance(300) ? 0 : r.skewed(20000);
    p.cfg[C_CHUNK] = huge ? r.range(5000,90000) : r.range(1, 3) == 1 ? r.range(1,40) : r.range(1,5000);
    p.cfg[C_STALL] = r.chance(500) ? 0 : r.range(1,4);
    p.cfg[C_CAP] = r.chance(400) ? 0 : r.range(1,3000)+(huge ? 4000 : 0);
    // swarm: pick the enabled fault kinds for this run
    const bool eShort = r.chance(800), eIntr = r.chance(750), eErr = f02 || f03 || f05 ? r.chance(850) : r.chance(400), eAgain = r.chance(400), eZero = r.chance(300),
	eAlloc = f03 ? r.chance(600) : false, eCrash = f05 ? true : f04 ? r.chance(200) : r.chance(60), eDisk = r.chance(200), eStick = r.chance(150);
    const unsigned frate = faults ? (unsigned)r.range(250,900) : 0;
    const bool usePipes = r.chance(f01 || f02 ? 500 : 300);
    int n = 8 + (int)r.skewed(f05 ? 40 : 60);
    // start with something open so that most operations mean something
    p.add(OP_NEWOPEN, 0, usePipes && r.chance(400) ? r.range(3,4) : r.below(2), r.chance(600) ? 2 : anymode(r));
    if (r.chance(500)) p.add(OP_EXC, 0, f02 ? r.below(8) : r.chance(600) ? 7 : r.below(8));
    for (int i = 0; i < n; ++i) {
	int s = r.chance(650) ? 0 : (int)r.below(NSLOT);
	int file = usePipes && r.chance(300) ? (int)r.range(3,4) : (int)r.below(3);
	int64_t w = r.below(1000);
	Step* q; const size_t qi = p.steps.size();
	if (f05 && r.chance(130)) q = &p.add(OP_SYNC, s);
	else if (f05 && r.chance(90)) q = &p.add(OP_CRASH, r.next() >> 20);
	else if (f05 && r.chance(60)) q = &p.add(OP_OPEN, s, r.below(3), r.chance(700) ? 2 : anymode(r), 0600 + r.below(2)*0044);
	else if (f05 && r.chance(250)) q = &p.add(OP_WRITE, s, r.skewed(6000));
	else if (f03 && r.chance(400)) {
	    switch (r.below(8)) {
		case 0: q = &p.add(OP_NEW, s); break;
		case 1: q = &p.add(OP_NEWOPEN, s, file, anymode(r)); break;
		case 2: q = &p.add(OP_NEWFD, s, file, r.below(3)); break;
		case 3: q = &p.add(OP_DELETE, s); break;
		case 4: q = &p.add(OP_ATTACH, s, file, r.below(3)); break;
		case 5: q = &p.add(OP_DETACH, s); break;
		case 6: q = &p.add(OP_CLOSE, s); break;
		default: q = &p.add(OP_OPEN, s, file, anymode(r), 0644); break;
	    }
	}
	else if (w < 170) q = &p.add(OP_READ, s, r.chance(100) ? 0 : huge ? r.below(170000) : r.skewed(12000));
	else if (w < 240) q = &p.add(OP_READSOME, s, 1+(huge ? r.below(170000) : r.skewed(6000)));
	else if (w < 460) q = &p.add(OP_WRITE, s, r.chance(60) ? 0 : huge ? r.below(170000) : r.skewed(12000));
	else if (w < 560) q = &p.add(OP_SEEK, s, r.chance(700) ? r.skewed(huge ? 250000 : 12000) : r.range(-3000,3000), r.below(3));
	else if (w < 590) q = &p.add(OP_POS, s, r.below(3));
	else if (w < 620) q = &p.add(OP_SIZE, s);
	else if (w < 680) q = &p.add(OP_OPEN, s, file, anymode(r), r.chance(400) ? 0644 : (int)r.below(010000));
	else if (w < 710) q = &p.add(OP_CLOSE, s);
	else if (w < 740) q = &p.add(r.chance(700) ? OP_SYNC : OP_FLUSH, s);
	else if (w < 770) q = &p.add(OP_EXC, s, r.below(8));
	else if (w < 820) q = &p.add(OP_CLEAR, s);
	else if (w < 840) q = &p.add(OP_NEWOPEN, s, file, anymode(r));
	else if (w < 855) q = &p.add(OP_DELETE, s);
	else if (w < 870) q = &p.add(OP_ATTACH, s, file, r.below(3));
	else if (w < 880) q = &p.add(OP_ATTACHBAD, s);
	else if (w < 890) q = &p.add(OP_DETACH, s);
	else if (w < 905) q = &p.add(OP_NONBLK, s, r.below(2), r.below(4));
	else if (w < 920) q = &p.add(OP_IOCTL, s, r.below(4));
	else if (w < 930) q = &p.add(OP_FCNTL, s, r.below(4));
	else if (w < 960) q = &p.add(OP_MMAP, s, 1+r.skewed(9000), r.chance(700) ? 0 : r.chance(850) ? 4096*r.below(3) : r.below(9000));
	else if (w < 964) q = &p.add(OP_HUGE, r.below(N_FAR), r.skewed(5000), r.next()>>20, r.below(2));
	else if (w < 975) q = &p.add(OP_MPOKE, r.below(9000), 1+r.below(50));
	else if (w < 982) q = &p.add(OP_MSYNC);
	else if (w < 992) q = &p.add(OP_MUNMAP);
	else if (eDisk && faults) q = &p.add(OP_DISK, r.chance(250) ? -1 : r.skewed(8000));
	else if (eStick && faults) q = &p.add(OP_STICKY, r.chance(500) ? 0 : 5, r.chance(700) ? 0 : 5, r.chance(700) ? 0 : 5);
	else q = &p.add(OP_CLEAR, s);
	if (eCrash && faults && r.chance(30)) p.add(OP_CRASH, r.next() >> 20);
	if (!f03 && !f05 && r.chance(250)) p.add(OP_CLEAR, s);
	const int op = p.steps[qi].op;
	if (op == OP_EXC || op == OP_CLEAR || op == OP_POS || op == OP_NONBLK || op == OP_HUGE || !r.chance(frate)) continue;
	// faults inside this step
	Step& st = p.steps[qi];
	const bool xfer = op == OP_READ || op == OP_READSOME || op == OP_WRITE;
	const bool opens = op == OP_OPEN || op == OP_NEWOPEN || op == OP_ATTACH || op == OP_NEW || op == OP_NEWFD;
	int kinds [8], nk = 0;
	if (eShort && xfer) { kinds[nk++] = F_SHORT; kinds[nk++] = F_SHORT; }
	if (eIntr) kinds[nk++] = F_EINTR;
	if (eErr) kinds[nk++] = F_ERR;
	if (eAgain && xfer) kinds[nk++] = F_EAGAIN;
	if (eZero && xfer) kinds[nk++] = F_ZERO;
	if (eAlloc && opens) kinds[nk++] = F_ALLOC;
	if (f05) kinds[nk++] = F_CRASH;
	if (!nk) continue;
	int nf = 1 + (int)r.skewed(3);
	for (int k = 0; k < nf; ++k) {
	    static const int es [] = { 5 /*EIO*/, 28 /*ENOSPC*/, 122 /*EDQUOT*/, 13 /*EACCES*/, 24 /*EMFILE*/, 29 /*ESPIPE*/, 75 /*EOVERFLOW*/, 116 /*ESTALE*/, 22 /*EINVAL*/, 30 /*EROFS*/, 6 /*ENXIO*/, 95 /*EOPNOTSUPP*/ };
	    const int idx = xfer ? (int)r.skewed(6) : (int)r.skewed(2), cnt = r.chance(600) ? 1 : 1 + (int)r.skewed(8), kind = kinds[r.below(nk)];
	    switch (kind) {
		case F_SHORT: addfault(st,kind,r.chance(500)?0:idx,r.chance(500)?cnt:200,1+r.skewed(700)); break;
		case F_ERR: addfault(st,kind,idx,1,es[r.below(12)]); break;
		case F_EINTR: case F_EAGAIN: addfault(st,kind,idx,hmin(cnt,9),0); break;
		default: addfault(st,kind,idx,1,0); break;
	    }
	}
    }
    if (f05 || eCrash) p.add(OP_CRASH, r.next() >> 20);
}

//----------------------------------------------------------------------
int lastHard(int* err, int call = -1)
{
    int k = -1;
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& r = sim.trace[i];
	if (call >= 0 && r.call != call) continue;
	if (r.res >= 0) continue;
	if ((r.call == SYS_READ || r.call == SYS_WRITE || r.call == SYS_CLOSE) && r.err == EINTR) continue;
	if ((r.call == SYS_READ || r.call == SYS_WRITE) && r.err == EAGAIN) continue;
	if (r.err == EINTR && i+1 < sim.trace.size() && sim.trace[i+1].call == r.call && sim.trace[i+1].fd == r.fd) continue;	// tried again
	k = (int)i; if (err) *err = r.err;
    }
    return k;
}

// Reporting contract: bits new to the state, exception thrown or not and what it says.
void report(Slot& s, unsigned bits, const Caught& c, const char* op, int err, bool eof = false, const char* altname = 0)
{
    if (c.kind == TH_ALLOC) return;		// judged elsewhere
    const char* nm = altname ? altname : s.name;
    const bool mustThrow = (s.ex & bits) != 0;
    s.st |= bits;
    if (mustThrow) {
	probe(P_THROWN);
	if (c.kind == TH_NONE) sim_fail("F02","not-thrown","%s failed (%s) with exceptions %d enabled, but nothing was thrown",op,eof ? "end of file" : strerrorname_np(err),s.ex);
	if (eof) { if (c.kind != TH_BOUNDS && c.kind != TH_NONE) sim_fail("F02","wrong-exception","%s at end of file threw %s",op,thname(c.kind)); }
	else if (c.kind != TH_NONE) {
	    if (c.kind != TH_FILE) sim_fail("F02","wrong-exception","failed %s threw %s instead of file_exception",op,thname(c.kind));
	    if (c.err != err) sim_fail("F02","wrong-errno","failed %s reports errno %d, the system call failed with %d",op,c.err,err);
	    if (strcmp(c.op,op)) sim_fail("F02","wrong-operation","failed %s reports operation '%s'",op,c.op);
	    if (nm && strcmp(c.file,nm)) sim_fail("F02","wrong-filename","failed %s on '%s' reports file '%s'",op,nm,c.file);
	}
    } else if (c.kind != TH_NONE)
	sim_fail("F02","spurious-throw","%s threw %s (%s errno %d) although the enabled exceptions are %d and the failure bits are %d",op,thname(c.kind),c.op,c.err,s.ex,bits);
    if (s.live && (int)s.f().rdstate() != s.st)
	sim_fail("F02", (s.st & ~(int)s.f().rdstate()) ? "failure-not-recorded" : "spurious-state","after %s the state is %d, expected %d",op,(int)s.f().rdstate(),s.st);
}

void model_write(Slot& s, const uint8_t* p, int64_t n)
{
    MFile& f = W->f[s.node];
    if (n <= 0) return;
    if (s.node >= 3) { f.data.append(p,n); return; }
    int64_t at = s.app ? (int64_t)f.data.size() : s.pos;
    if (s.app) probe(P_APPEND);
    if ((int64_t)f.data.size() < at+n) f.data.resize(at+n);
    memcpy(f.data.data()+at,p,n);
    if (f.dirty.size() < f.data.size()) f.dirty.resize(f.data.size());
    memset(f.dirty.data()+at,1,n);
    s.pos = at+n;
}
void compare_world(const char* what)
{
    for (int i = 0; i < NFILE; ++i) {
	MFile& f = W->f[i]; Node& n = fs.n[i];
	if (i < 3 && f.exists != n.exists) sim_fail("F04","existence","%s: %s %s but should%s exist",what,n.path,n.exists?"exists":"does not exist",f.exists?"":" not");
	if (n.size != (int64_t)f.data.size()) {
	    sim_fail("F01","wrong-length","%s: %s holds %lld bytes, expected %lld",what,n.path,(long long)n.size,(long long)f.data.size());
	    sim_fail("F04","wrong-length","%s: %s holds %lld bytes, expected %lld",what,n.path,(long long)n.size,(long long)f.data.size());
	    return;
	}
	if (n.size && memcmp(n.data,f.data.data(),n.size)) {
	    int64_t k = 0; while (n.data[k] == f.data[k]) ++k;
	    sim_fail("F01","wrong-data","%s: %s differs from what was written at offset %lld",what,n.path,(long long)k);
	    sim_fail("F04","wrong-data","%s: %s differs from what was written at offset %lld",what,n.path,(long long)k);
	}
    }
    for (int i = 0; i < NSLOT; ++i) {
	Slot& s = W->s[i];
	if (s.live && s.fd >= 0 && s.node < 3 && fs_isopen(s.fd) && fs_rawpos(s.fd) != s.pos)
	    sim_fail("F04","wrong-position","%s: offset is %lld, expected %lld",what,(long long)fs_rawpos(s.fd),(long long)s.pos);
    }
}
void check_ownership()
{
    FdSet lib;
    for (int i = 0; i < NSLOT; ++i) {
	Slot& s = W->s[i]; if (!s.live) continue;
	int fd = s.f().fd();
	if (fd >= 0 && lib.has(fd)) sim_fail("F03","shared-fd","two streams refer to descriptor %d",fd);
	if (s.f().is_open() != (fd >= 0)) sim_fail("F03","is-open","is_open() disagrees with fd()");
	lib.add(fd);
    }
    check_fd_calls();
    check_fd_owners(lib,W->mine);
    for (int i = 0; i < NSLOT; ++i) {
	Slot& s = W->s[i]; if (!s.live) continue;
	check_state_queries(s.f(),"F02");
	if (s.f().fd() != s.fd) sim_fail("F03","wrong-fd","stream refers to descriptor %d, expected %d",s.f().fd(),s.fd);
    }
    for (int i = 0; i < NSLOT; ++i) if (!W->s[i].live) W->s[i].fd = -1;
}
void attached(Slot& s, int fd, int node, int flags, int64_t pos)
{
    s.fd = fd; s.node = node; s.rd = (flags & O_ACCMODE) != O_WRONLY; s.wr = (flags & O_ACCMODE) != O_RDONLY; s.app = flags & O_APPEND; s.pos = pos; s.name = PATHS[node];
}

// One open (directly or by constructor), possibly over a stream that is open already.
void do_open(Slot& s, int si, int file, unsigned mode, int perms, bool ctor)
{
    Caught c;
    const int oldfd = ctor ? -1 : s.fd;
    MFile& mf = W->f[file];
    const bool existed = mf.exists;
    if (oldfd >= 0) probe(P_REPLACE);
    if (ctor) { s.ex = 0; s.st = 0; s.fd = -1; s.live = false; TRY(c, new (s.mem) fstream(PATHS[file],mode); s.live = true); }
    else TRY(c, s.f().open(PATHS[file],mode,perms));
    if (ctor) perms = 0644;
    (void)si;
    // what the kernel saw
    int nopen = 0, newfd = -1, operr = 0, closefail = 0; bool openok = false;
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& r = sim.trace[i];
	if (r.call == SYS_OPEN) { ++nopen; openok = r.res >= 0; newfd = (int)r.res; operr = r.err; }
	if (r.call == SYS_CLOSE && r.fd == oldfd && r.res < 0 && r.err != EINTR) closefail = r.err;
    }
    if (c.kind == TH_ALLOC) {
	// out of memory: no descriptor may be lost; the stream may hold the old file, the new one or none
	probe(P_ALLOCFAIL);
	if (!sim.allocfaults) sim_fail("F02","spurious-throw","open threw bad_alloc although memory was available");
	if (s.live) {
	    int fd = s.f().fd();
	    if (fd >= 0 && fd != oldfd && fd != newfd) sim_fail("F03","wrong-fd","stream refers to descriptor %d, which it never opened",fd);
	    if (fd == newfd && openok) attached(s,newfd,file,fs_flags(newfd),0);
	    else if (fd < 0) s.fd = -1;
	    s.st = s.f().rdstate();
	}
    } else {
	if (!nopen) { sim_fail("F04","no-open","open did not open anything"); return; }
	if (ctor && c.kind != TH_NONE) { sim_fail("F02","spurious-throw","constructor threw %s although exceptions are off by default",thname(c.kind)); return; }
	s.st = 0;
	// first the old file is closed, then the result of opening is reported
	unsigned bits = 0;
	const char* oldname = s.name;
	if (closefail) { bits |= fstream::badbit|fstream::failbit; probe(P_CLOSEFAIL); }
	if (!openok) bits |= fstream::badbit;
	const bool throwClose = closefail && (s.ex & (fstream::badbit|fstream::failbit));
	if (throwClose) {
	    s.fd = -1;
	    // only the first of two failures can be reported by exception; either is fine if both failed
	    if (!openok && c.kind == TH_FILE && !strcmp(c.op,"open")) report(s,bits,c,"open",operr,false,PATHS[file]);
	    else { s.st = 0; s.ex ? (void)0 : (void)0; Caught d = c; s.st = s.f().rdstate() & ~(fstream::badbit|fstream::failbit); report(s,fstream::badbit|fstream::failbit,d,"close",closefail,false,oldname); }
	} else if (openok) {
	    attached(s,newfd,file,fs_flags(newfd),0);
	    if (closefail) report(s,bits,c,"close",closefail,false,oldname); else report(s,0,c,"open",0);
	} else {
	    s.name = PATHS[file];
	    s.fd = -1;
	    report(s,bits,c,"open",operr);
	}
	if (openok && !throwClose && s.live && strcmp(s.f().name().c_str(),PATHS[file])) sim_fail("F04","wrong-name","name() is '%s' after opening '%s'",s.f().name().c_str(),PATHS[file]);
    }
    if (openok) {
	// open mode semantics, judged from what the kernel was asked for
	const bool reg = file < 3;
	const SysRec* o = 0; for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_OPEN) o = &sim.trace[i];
	const int fl = (int)o->req;
	const bool rd = (fl & O_ACCMODE) != O_WRONLY, wr = (fl & O_ACCMODE) != O_RDONLY;
	if (rd != !!(mode & fstream::in) || wr != !!(mode & fstream::out)) sim_fail("F04","access-mode","mode %u opened with read %d write %d",mode,rd,wr);
	const bool create = (mode & fstream::out) && !(mode & fstream::nocreate);
	if (reg && !existed && !create) sim_fail("F04","created","mode %u created a file",mode);
	if (reg && !existed && create && fs.n[file].perms != perms) sim_fail("F04","permissions","new file has permissions %o, expected %o",(int)fs.n[file].perms,perms);
	if (!!(fl & O_APPEND) != !!(mode & (fstream::app|fstream::ate))) sim_fail("F04","append-mode","mode %u opened with append %d",mode,!!(fl & O_APPEND));
	if (!!(fl & O_NONBLOCK) != !!(mode & fstream::nonblock)) sim_fail("F04","nonblock-mode","mode %u opened with nonblock %d",mode,!!(fl & O_NONBLOCK));
	if (reg) {
	    mf.exists = true;
	    if ((mode & fstream::trunc) && wr) { mf.data.clear(); mf.dirty.clear(); mf.everSynced = mf.everSynced && false; }
	}
    } else if (nopen && operr == ENOENT) {
	const bool create = (mode & fstream::out) && !(mode & fstream::nocreate);
	if (create) sim_fail("F04","not-created","mode %u did not create the file",mode);
	if (existed) sim_fail("F04","not-found","existing file not found");
    } else if (nopen && operr == EEXIST) sim_fail("F04","exclusive","mode %u refused an existing file",mode);
    else if (nopen && operr == EINVAL && !fault_at(F_ERR,0)) sim_fail("F04","access-mode","mode %u opened without a valid access mode",mode);
}

void do_close(Slot& s, bool del)
{
    Caught c; c.kind = TH_NONE;
    const int oldfd = s.fd; const char* nm = s.name;
    if (del) { TRY(c, s.f().~fstream()); s.live = false; }
    else TRY(c, s.f().close());
    int err = 0; const bool failed = lastHard(&err,SYS_CLOSE) >= 0;
    int closes = 0; for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_CLOSE) { ++closes; if (sim.trace[i].err == EINTR) probe(P_EINTR_RESUMED); }
    if (oldfd >= 0 && fs_isopen(oldfd)) sim_fail("F03","not-closed","%s left descriptor %d open",del?"destructor":"close",oldfd);
    if (oldfd < 0 && closes) sim_fail("F03","double-close","closing a closed stream made %d close calls",closes);
    s.fd = -1;
    if (failed) probe(P_CLOSEFAIL);
    if (del) { if (c.kind != TH_NONE) sim_fail("F02","spurious-throw","destructor threw"); return; }
    report(s, failed ? fstream::badbit|fstream::failbit : 0, c, "close", err, false, nm);
    s.name = 0;		// a closed stream has no particular name
}

void check_xfer_resumed()
{
    bool sh = false, in = false;
    for (size_t i = 0; i+1 < sim.trace.size(); ++i) { sh |= sim.trace[i].res > 0 && sim.trace[i].res < sim.trace[i].req; in |= sim.trace[i].err == EINTR; }
    if (sh) probe(sim.trace[0].call == SYS_READ ? P_SHORTREAD : P_SHORTWRITE);
    if (in) probe(P_EINTR_RESUMED);
}

void do_read(Slot& s, int64_t n, bool some)
{
    static uint8_t buf [170100];
    memset(buf,0xEE,n+64);
    Caught c; int64_t rv = -1;
    const int st0 = s.st;
    // where the data must come from
    const int node = s.node; const int64_t at = node >= 3 ? fs.n[node].inpos : s.pos;
    if (some) TRY(c, rv = s.f().readsome(buf,n)); else TRY(c, rv = s.f().read(buf,n));
    int64_t got = 0; bool eof = false; int err = 0;
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& r = sim.trace[i];
	if (r.call == SYS_READ) {
	    if (r.fd != s.fd) sim_fail("F01","wrong-fd","read from descriptor %d instead of %d",r.fd,s.fd);
	    if (r.res > 0) got += r.res;
	    if (!r.res && r.req > 0) eof = true;
	    if (r.req > n - (got - hmax<int64_t>(0,r.res))) sim_fail("F01","overread","asked for %lld bytes when %lld were wanted",(long long)r.req,(long long)(n-got));
	}
    }
    const bool hardfail = lastHard(&err,SYS_READ) >= 0;
    check_xfer_resumed();
    if (eof) probe(P_EOF);
    const uint8_t* src = node >= 3 ? fs.n[node].in.data()+at : W->f[node].data.data()+at;
    if (got > n) { sim_fail("F01","overread","%lld bytes taken from the file for a read of %lld",(long long)got,(long long)n); return; }
    if (got > 0 && memcmp(buf,src,got)) { int64_t k = 0; while (buf[k] == src[k]) ++k; sim_fail("F01","wrong-data","read of %lld at offset %lld returned wrong data at %lld",(long long)n,(long long)at,(long long)k); }
    for (int k = 0; k < 64; ++k) if (buf[n+k] != 0xEE) sim_fail("F01","overflow","read wrote beyond the end of the buffer");
    if (node < 3) s.pos += got;
    if (c.kind == TH_NONE) {
	if (rv != got) sim_fail("F01","wrong-count","%s returned %lld, %lld bytes were transferred",some?"readsome":"read",(long long)rv,(long long)got);
	if (!some && got < n && !eof && !hardfail && !st0) sim_fail("F01","incomplete","read of %lld stopped at %lld without end of file or error",(long long)n,(long long)got);
	if (some && !got && n && !eof && !hardfail) {
	    bool again = false; for (size_t i = 0; i < sim.trace.size(); ++i) again |= sim.trace[i].err == EAGAIN;
	    if (!again) sim_fail("F01","incomplete","readsome returned nothing without end of file, error or would-block");
	}
    }
    if (hardfail) report(s,fstream::failbit,c,"read",err);
    else if (eof) report(s,fstream::eofbit|fstream::failbit,c,"read",0,true);
    else report(s,0,c,"read",0);
}

void do_write(Slot& s, int64_t n)
{
    Bytes b; patfill(b,++W->wid,n);
    Caught c; int64_t rv = -1;
    // exact block, ending at an inaccessible page
    void* src = arena_place(n,b.data());
    arena_protect_ro(src);
    TRY(c, rv = s.f().write(src,n));
    int64_t put = 0; bool zero = false, again = false; int err = 0;
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& r = sim.trace[i];
	if (r.call != SYS_WRITE) continue;
	if (r.fd != s.fd) sim_fail("F01","wrong-fd","write to descriptor %d instead of %d",r.fd,s.fd);
	if (r.res > 0) put += r.res;
	if (!r.res && r.req > 0) zero = true;
	if (r.err == EAGAIN) again = true;
	if (r.err == ENOSPC && put) probe(P_ENOSPC);
    }
    const bool hardfail = lastHard(&err,SYS_WRITE) >= 0;
    check_xfer_resumed();
    if (zero) probe(P_WRITE_ZERO);
    if (again && put) probe(P_PARTIAL_AGAIN);
    if (put > n) { sim_fail("F01","overwrite","%lld bytes written for a write of %lld",(long long)put,(long long)n); return; }
    model_write(s,b.data(),put);
    if (c.kind == TH_NONE) {
	if (rv != put) sim_fail("F01","wrong-count","write returned %lld, %lld bytes were transferred",(long long)rv,(long long)put);
	if (put < n && !hardfail && !zero && !again) sim_fail("F01","incomplete","write of %lld stopped at %lld without an error or would-block",(long long)n,(long long)put);
    }
    if (hardfail) report(s,fstream::failbit,c,"write",err);
    else if (zero) report(s,fstream::eofbit|fstream::failbit,c,"write",0,true);
    else report(s,0,c,"write",0);
}

void after_crash()
{
    probe(P_CRASHED);
    arena_forget_all();
    for (int i = 0; i < NSLOT; ++i) { W->s[i].live = false; W->s[i].fd = -1; }
    W->mapped = false; W->mine = FdSet(); for (int i = 0; i < 3; ++i) W->mine.add(i);
    for (int i = 0; i < 3; ++i) {
	MFile& f = W->f[i]; Node& n = fs.n[i];
	if (f.everSynced) {
	    probe(P_SYNCED);
	    if (!n.exists) sim_fail("F05","lost-file","%s was synced but is gone after the crash",n.path);
	    int64_t lost = 0;
	    for (size_t k = 0; k < f.synced.size(); ++k) {
		if (k < f.dirty.size() && f.dirty[k]) continue;	// overwritten since; may be old or new
		if ((int64_t)k >= n.size) { sim_fail("F05","lost-data","%s is %lld bytes after the crash, %llu were synced",n.path,(long long)n.size,(unsigned long long)f.synced.size()); break; }
		if (n.data[k] != f.synced[k]) { sim_fail("F05","lost-data","%s lost synced data at offset %llu",n.path,(unsigned long long)k); break; }
	    }
	    (void)lost;
	}
	if (n.size != (int64_t)f.data.size() || (n.size && memcmp(n.data,f.data.data(),n.size))) probe(P_TORN);
	// restart from what the disk has; it is all durable now
	f.exists = n.exists; f.data.setn(n.size); if (n.size) memcpy(f.data.data(),n.data,n.size);
	f.dirty.clear(); f.dirty.resize(n.size); f.synced = f.data; f.everSynced = n.exists;
    }
    for (int i = 3; i < NFILE; ++i) { fs.n[i].size = 0; W->f[i].data.clear(); }
}

bool want_live(Slot& s) { return s.live; }

// A sparse file whose text is beyond what 31, 32 or 33 bits count: every position, size and transfer has to be right there too.
void far_offsets(const int64_t* a)
{
    const int64_t base = FAR [(uint64_t)a[0] % N_FAR]; Rng r ((uint64_t)a[2]);
    const int64_t cap = fs.capacity; const int st1 = fs.sticky, st2 = fs.stickyread; fs.capacity = -1; fs.sticky = fs.stickyread = 0;
    Bytes b; patfill(b,77,hmax<int64_t>(0,hmin<int64_t>(a[1],5000)));
    fs_node(FARNODE,"/d/far",NT_REG,b.data(),b.size()); Node& nd = fs.n[FARNODE]; nd.base = base; nd.jitter = a[3] ? 1+r.below(3000) : 0;
    Caught c; c.kind = TH_NONE; static char mem [sizeof(fstream)] __attribute__((aligned(16))); fstream& f = *(fstream*)mem;
    TRY(c, new (mem) fstream("/d/far",fstream::in|fstream::out|fstream::nocreate));
    int64_t pos = 0; static const fstream::seekdir D [] = { fstream::beg, fstream::cur, fstream::end };
    static uint8_t buf [6000];
    for (int k = 4+(int)r.below(8); k-- && c.kind == TH_NONE;) {
	const int64_t size = base + (int64_t)b.size(); int64_t v = -1;
	switch (pos < base ? r.below(2) : r.below(9)) {
	    case 0: case 1: case 2: {
		const int64_t to = base + r.skewed(b.size()+200), wh = r.below(3), from = wh == 0 ? 0 : wh == 1 ? pos : size; const int how = (int)r.below(3);
		if (how == 0) TRY(c, v = f.seek(to-from,D[wh])); else if (how == 1) { TRY(c, f.seekg(to-from,D[wh])); v = fs_rawpos(f.fd()); } else { TRY(c, f.seekp(to-from,D[wh])); v = fs_rawpos(f.fd()); }
		if (v != to || fs_rawpos(f.fd()) != to) sim_fail("F04","wrong-seek","seeking to offset %lld of a file of %lld bytes went to %lld and returned %lld",(long long)to,(long long)size,(long long)fs_rawpos(f.fd()),(long long)v);
		pos = fs_rawpos(f.fd()); probe(P_FAR); break; }
	    case 3: { const int which = (int)r.below(3); TRY(c, v = which == 0 ? f.pos() : which == 1 ? f.tellg() : f.tellp()); if (v != pos) sim_fail("F04","wrong-position","pos() is %lld, expected %lld",(long long)v,(long long)pos); break; }
	    case 4: TRY(c, v = f.size()); if (v != size) sim_fail("F04","wrong-size","size() is %lld, expected %lld",(long long)v,(long long)size); break;
	    case 5: case 6: {
		if (pos >= size) break;
		const int64_t n = r.skewed(hmin<int64_t>(size-pos,5000)); const bool some = r.chance(400) && n; memset(buf,0xEE,n+8);
		if (some) TRY(c, v = f.readsome(buf,n)); else TRY(c, v = f.read(buf,n));
		if (v < some || v > n || (!some && v != n)) { sim_fail("F01","wrong-count","reading %lld bytes at offset %lld returned %lld",(long long)n,(long long)pos,(long long)v); break; }
		if (memcmp(buf,b.data()+(pos-base),v)) sim_fail("F01","wrong-data","reading at offset %lld returned other data",(long long)pos);
		pos += v; break; }
	    case 7: {
		const int64_t n = r.skewed(600); Bytes w; patfill(w,100+k,n); TRY(c, v = f.write(w.data(),n));
		if (v != n) { sim_fail("F01","wrong-count","writing %lld bytes at offset %lld returned %lld",(long long)n,(long long)pos,(long long)v); break; }
		if (n) { if ((int64_t)b.size() < pos-base+n) b.resize(pos-base+n); memcpy(b.data()+(pos-base),w.data(),n); }
		pos += n; break; }
	    default: {
		memlink m; const int64_t n = 1+r.below(3000), off = base + 4096*r.below(2); TRY(c, memlink t (f.mmap(n,off)); m.relink(t.data(),t.size()));
		if (c.kind != TH_NONE || !f.good()) { sim_fail("F04","map-data","mapping at offset %lld failed",(long long)off); break; }
		const int64_t have = hmin<int64_t>(n,(int64_t)b.size()-(off-base));
		if ((int64_t)m.size() != n) sim_fail("F04","map-size","mmap of %lld bytes gives a link of %llu",(long long)n,(unsigned long long)m.size());
		else if (have > 0 && memcmp(m.data(),b.data()+(off-base),have)) sim_fail("F04","map-data","mapping does not show the file contents at offset %lld",(long long)off);
		TRY(c, f.munmap(m)); break; }
	}
	if (fs_rawpos(f.fd()) != pos) sim_fail("F04","wrong-position","offset is %lld, expected %lld",(long long)fs_rawpos(f.fd()),(long long)pos);
	if (!f.good()) { sim_fail("F02","spurious-state","nothing failed at offset %lld, but the state is %d",(long long)pos,(int)f.rdstate()); break; }
    }
    if (c.kind != TH_NONE) sim_fail("F02","spurious-throw","nothing failed at offset %lld, but %s was thrown",(long long)pos,thname(c.kind));
    LIB(f.~fstream());
    if (nd.size != (int64_t)b.size() || (nd.size && memcmp(nd.data,b.data(),nd.size))) { sim_fail("F01","wrong-data","the file at %lld is not what was written",(long long)base); sim_fail("F04","wrong-data","the file at %lld is not what was written",(long long)base); }
    nd.path = 0; nd.exists = false; nd.base = 0; nd.size = 0; nd.jitter = 0; fs.capacity = cap; fs.sticky = st1; fs.stickyread = st2;
    { size_t j = 0; for (size_t i = 0; i < fs.unsynced.size(); ++i) if (fs.unsynced[i].node != FARNODE) fs.unsynced[j++] = fs.unsynced[i]; fs.unsynced.setn(j); }
}

void step(int op, const int64_t* a)
{
    Slot& s = W->s[(uint64_t)a[0] % NSLOT];
    const int file = (int)((uint64_t)a[1] % NFILE);
    Caught c; c.kind = TH_NONE; int err = 0;
    switch (op) {
	case OP_NEW:
	    if (s.live) do_close(s,true);
	    else { s.ex = s.st = 0; s.fd = -1; s.name = ""; TRY(c, new (s.mem) fstream); s.live = c.kind == TH_NONE; report(s,0,c,"new",0); }
	    break;
	case OP_NEWOPEN: if (s.live) { do_close(s,true); break; } s.name = ""; do_open(s,0,file,modebits(a[2]),0644,true); break;
	case OP_NEWFD: {
	    if (s.live) { do_close(s,true); break; }
	    static const int fl [] = { O_RDONLY, O_WRONLY, O_RDWR };
	    if (file < 3 && !W->f[file].exists) break;
	    int fd = fs_rawopen(file, fl[(uint64_t)a[2]%3]);
	    s.ex = s.st = 0; s.fd = -1;
	    TRY(c, new (s.mem) fstream(fd,PATHS[file]));
	    s.live = c.kind == TH_NONE;
	    if (s.live) { attached(s,fd,file,fl[(uint64_t)a[2]%3],0); report(s,0,c,"attach",0); }
	    else if (fs_isopen(fd)) fs_rawclose(fd);	// ownership was not taken
	    else if (c.kind == TH_ALLOC) sim_fail("F03","foreign-close","constructor threw and closed the descriptor it was given");
	    break; }
	case OP_DELETE: if (want_live(s)) do_close(s,true); break;
	case OP_OPEN: if (want_live(s)) do_open(s,0,file,modebits(a[2]),(int)(a[3] & 07777),false); break;
	case OP_ATTACH: {
	    if (!want_live(s)) break;
	    static const int fl [] = { O_RDONLY, O_WRONLY, O_RDWR };
	    if (file < 3 && !W->f[file].exists) break;
	    int fd = fs_rawopen(file, fl[(uint64_t)a[2]%3]); const int oldfd = s.fd; const char* oldname = s.name;
	    if (oldfd >= 0) probe(P_REPLACE);
	    TRY(c, s.f().attach(fd,PATHS[file]));
	    const bool cf = lastHard(&err,SYS_CLOSE) >= 0;
	    if (cf) probe(P_CLOSEFAIL);
	    if (c.kind == TH_NONE) {
		if (oldfd >= 0 && oldfd != fd && fs_isopen(oldfd)) sim_fail("F03","not-closed","attach left the old descriptor %d open",oldfd);
		s.st = 0; attached(s,fd,file,fl[(uint64_t)a[2]%3],0);
		report(s, cf ? fstream::badbit|fstream::failbit : 0, c, "close", err, false, oldname);
		if (strcmp(s.f().name().c_str(),PATHS[file])) sim_fail("F04","wrong-name","name() is '%s' after attaching '%s'",s.f().name().c_str(),PATHS[file]);
	    } else {
		const int held = s.f().fd();
		if (held != fd) fs_rawclose(fd);		// the caller still owns it
		if (held == fd) attached(s,fd,file,fl[(uint64_t)a[2]%3],0); else s.fd = held == oldfd ? oldfd : -1;
		if (c.kind == TH_ALLOC) s.st = s.f().rdstate();
		else { s.st = 0; if (!cf) sim_fail("F02","spurious-throw","attach threw %s",thname(c.kind)); report(s, fstream::badbit|fstream::failbit, c, "close", err, false, oldname); }
	    }
	    break; }
	case OP_ATTACHBAD: {
	    if (!want_live(s)) break;
	    const int oldfd = s.fd; const char* oldname = s.name;
	    errno = EBADF;
	    TRY(c, s.f().attach(-1,"nofile"));
	    const bool cf = lastHard(&err,SYS_CLOSE) >= 0;
	    if (c.kind == TH_ALLOC) { s.st = s.f().rdstate(); if (s.f().fd() != oldfd) s.fd = -1; break; }
	    s.st = 0; if (!s.f().is_open()) s.fd = -1;
	    if (cf && (s.ex & 5)) { s.st = s.f().rdstate() & ~5; report(s,5,c,"close",err,false,oldname); }
	    else { s.name = "nofile"; if (!(s.ex & fstream::badbit) || c.kind != TH_FILE) report(s, cf ? 5 : fstream::badbit, c, "open", 0); else s.st |= fstream::badbit; }
	    if (c.kind == TH_NONE && s.f().is_open()) sim_fail("F03","wrong-fd","attaching an invalid descriptor left the stream open");
	    break; }
	case OP_DETACH:
	    if (!want_live(s)) break;
	    TRY(c, s.f().detach());
	    if (s.fd >= 0) { if (!fs_isopen(s.fd)) sim_fail("F03","foreign-close","detach closed the descriptor"); W->mine.add(s.fd); }
	    s.fd = -1; s.name = 0; report(s,0,c,"detach",0);
	    break;
	case OP_CLOSE: if (want_live(s)) do_close(s,false); break;
	case OP_HUGE: far_offsets(a); break;
	case OP_SYNC: case OP_FLUSH: {
	    if (!want_live(s) || s.fd < 0) break;
	    const int was = s.f().rdstate();
	    if (op == OP_SYNC) TRY(c, s.f().sync()); else TRY(c, s.f().flush());
	    const bool bad = lastHard(&err) >= 0;
	    if (bad) report(s,fstream::badbit|fstream::failbit,c,"sync",err); else report(s,0,c,"sync",0);
	    // success was reported, so everything written so far is promised to survive
	    if (c.kind == TH_NONE && !(s.f().rdstate() & ~was) && !(bad && (was & fstream::badbit)) && s.node < 3) { MFile& f = W->f[s.node]; f.synced = f.data; f.everSynced = true; f.dirty.clear(); f.dirty.resize(f.data.size()); }
	    break; }
	case OP_READ: case OP_READSOME: if (want_live(s) && s.fd >= 0 && (op == OP_READSOME || !s.st)) do_read(s,hmin<int64_t>(hmax<int64_t>(0,a[1]),170000),op == OP_READSOME); break;
	case OP_WRITE: if (want_live(s) && s.fd >= 0) { if (s.pos + a[1] < FS_MAXFILE) do_write(s,hmin<int64_t>(hmax<int64_t>(0,a[1]),170000)); } break;
	case OP_SEEK: {
	    if (!want_live(s) || s.fd < 0) break;
	    const int wh = (int)((uint64_t)a[2] % 3); int64_t rv = -1;
	    static const fstream::seekdir d [] = { fstream::beg, fstream::cur, fstream::end };
	    const int how = (int)((uint64_t)(a[1] ^ a[2]) / 3 % 4);
	    if (how == 1) { TRY(c, s.f().seekg(a[1],d[wh])); rv = fs_rawpos(s.fd); }
	    else if (how == 2) { TRY(c, s.f().seekp(a[1],d[wh])); rv = fs_rawpos(s.fd); }
	    else if (how == 3 && !wh) TRY(c, rv = s.f().seek(a[1]));
	    else TRY(c, rv = s.f().seek(a[1],d[wh]));
	    const bool bad = lastHard(&err) >= 0;
	    if (s.node < 3) {
		int64_t want = wh == 0 ? a[1] : wh == 1 ? s.pos + a[1] : (int64_t)W->f[s.node].data.size() + a[1];
		if (!bad) {
		    if (want < 0) sim_fail("F04","bad-seek","seek to a negative offset succeeded");
		    if (c.kind == TH_NONE && rv != want) sim_fail("F04","wrong-seek","seek returned %lld, expected %lld",(long long)rv,(long long)want);
		    s.pos = want;
		}
	    }
	    report(s, bad ? fstream::failbit : 0, c, "seek", err);
	    break; }
	case OP_POS: {
	    if (!want_live(s) || s.fd < 0) break;
	    int64_t v = -1; const int which = (int)((uint64_t)a[1] % 3); TRY(c, v = which == 0 ? s.f().pos() : which == 1 ? s.f().tellg() : s.f().tellp());
	    if (s.node < 3 && lastHard(0) < 0 && v != s.pos) sim_fail("F04","wrong-position","pos() is %lld, expected %lld",(long long)v,(long long)s.pos);
	    report(s,0,c,"pos",0);
	    break; }
	case OP_SIZE: {
	    if (!want_live(s) || s.fd < 0) break;
	    int64_t v = -1; TRY(c, v = s.f().size());
	    if (lastHard(&err) >= 0) {	// stat reports by exception only
		if (c.kind != TH_FILE) sim_fail("F02","not-thrown","failed stat did not throw file_exception");
		else if (c.err != err || strcmp(c.op,"stat") || strcmp(c.file,s.name ? s.name : "")) sim_fail("F02","wrong-exception","failed stat threw '%s' '%s' errno %d",c.op,c.file,c.err);
	    } else {
		const int64_t want = s.node < 3 ? (int64_t)W->f[s.node].data.size() : 0;
		if (c.kind == TH_NONE && v != want) sim_fail("F04","wrong-size","size() is %lld, expected %lld",(long long)v,(long long)want);
		report(s,0,c,"size",0);
	    }
	    break; }
	case OP_EXC: if (want_live(s)) { s.ex = (int)((uint64_t)a[1] & 7); TRY(c, s.f().exceptions(s.ex)); report(s,0,c,"exceptions",0); } break;
	case OP_CLEAR: if (want_live(s)) { s.st = 0; TRY(c, s.f().clear()); report(s,0,c,"clear",0); } break;
	case OP_NONBLK: {
	    if (!want_live(s) || s.fd < 0 || sim.step->nf) break;
	    // the descriptor may have other flags of its own
	    const int others = (a[2] & 1 ? O_ASYNC : 0) | (a[2] & 2 ? O_NOATIME : 0); if (others) { int& of = fs.ofd[fs.fd[s.fd].ofd].flags; of = (of & ~(O_ASYNC|O_NOATIME)) | others; }
	    const int had = fs_flags(s.fd);
	    TRY(c, s.f().set_nonblock(a[1] & 1));
	    const int fl = fs_flags(s.fd);
	    if ((fl ^ had) & ~O_NONBLOCK) sim_fail("F04","nonblock-mode","set_nonblock changed the flags from %o to %o",had,fl);
	    if (!!(fl & O_NONBLOCK) != (a[1] & 1)) sim_fail("F04","nonblock-mode","set_nonblock(%d) left nonblock %d",(int)(a[1]&1),!!(fl & O_NONBLOCK));
	    if (!!(fl & O_APPEND) != s.app) sim_fail("F04","append-mode","set_nonblock changed the append flag");
	    report(s,0,c,"set_nonblock",0);
	    break; }
	case OP_IOCTL: {
	    if (!want_live(s) || s.fd < 0) break;
	    int rv = 0, nb = -1; static struct winsize ws; const char* nm = "ioctl(FIONREAD)";
	    const int k = (int)((uint64_t)a[1] % 4);
	    if (k == 0) TRY(c, rv = s.f().ioctl(IOCTLID(FIONREAD),&nb));
	    else if (k == 1) { nm = "ioctl(TIOCGWINSZ)"; TRY(c, rv = s.f().ioctl(IOCTLID(TIOCGWINSZ),&ws)); }
	    else if (k == 2) { nm = "ioctl(TCSBRK)"; TRY(c, rv = s.f().ioctl(IOCTLID(TCSBRK),(a[1] & 64) ? -7 : 7)); }
	    else { nm = "ioctl(TCSBRK)"; TRY(c, rv = s.f().ioctl(IOCTLID(TCSBRK),9l)); }
	    const bool bad = lastHard(&err) >= 0;
	    if (!bad && c.kind == TH_NONE && (k == 2 ? rv != ((a[1] & 64) ? 249 : 7) : k == 3 ? rv != 9 : rv != 0)) sim_fail("F04","ioctl-result","ioctl returned %d",rv);
	    if (!bad && k == 0 && nb < 0 && s.node >= 3) sim_fail("F04","ioctl-argument","ioctl argument was not passed through");
	    if (!bad && k == 2 && c.kind == TH_NONE && !sim.trace.empty() && sim.trace[0].call == SYS_IOCTL && sim.trace[0].arg != ((a[1] & 64) ? -7 : 7)) sim_fail("F04","ioctl-argument","the number given to ioctl was passed on as %lld",(long long)sim.trace[0].arg);
	    report(s, bad ? fstream::failbit : 0, c, nm, err);
	    break; }
	case OP_FCNTL: {
	    if (!want_live(s) || s.fd < 0) break;
	    int rv = 0; const char* nm = "fcntl(F_GETFL)"; const int k = (int)((uint64_t)a[1] % 4); static struct flock fl;
	    if (k == 0) TRY(c, rv = s.f().fcntl(FCNTLID(F_GETFL)));
	    else if (k == 1) { nm = "fcntl(F_GETFD)"; TRY(c, rv = s.f().fcntl(FCNTLID(F_GETFD),(a[1] & 64) ? -3 : 3)); }
	    else if (k == 2) { nm = "fcntl(F_SETLK)"; TRY(c, rv = s.f().fcntl(FCNTLID(F_SETLK),0l)); }
	    else { nm = "fcntl(F_SETLK)"; TRY(c, rv = s.f().fcntl(FCNTLID(F_SETLK),(void*)&fl)); }
	    if (sim.trace.empty() || sim.trace[0].call != SYS_FCNTL || sim.trace[0].fd != s.fd) sim_fail("F04","no-fcntl","fcntl was not passed to the file");
	    else if (k == 1 && sim.trace[0].arg != ((a[1] & 64) ? -3 : 3)) sim_fail("F04","fcntl-argument","the number given to fcntl was passed on as %lld",(long long)sim.trace[0].arg);
	    else if (k == 3 && sim.trace[0].arg != (int64_t)(intptr_t)&fl) sim_fail("F04","fcntl-argument","the fcntl argument was not passed through");
	    const bool bad = lastHard(&err) >= 0;
	    if (!bad && k == 0 && c.kind == TH_NONE && (rv & O_ACCMODE) != (s.rd && s.wr ? O_RDWR : s.wr ? O_WRONLY : O_RDONLY)) sim_fail("F04","fcntl-result","F_GETFL returned %d",rv);
	    report(s, bad ? fstream::failbit : 0, c, nm, err);
	    break; }
	case OP_MMAP: {
	    if (!want_live(s) || s.fd < 0 || W->mapped) break;
	    int64_t n = hmax<int64_t>(1,hmin<int64_t>(a[1],9000)), off = a[2];
	    TRY(c, memlink l (s.f().mmap(n,off)); W->map.relink(l.data(),l.size()));
	    const bool bad = lastHard(&err) >= 0;
	    report(s, bad ? fstream::failbit : 0, c, "mmap", err);
	    if (bad || c.kind != TH_NONE) { W->map.relink((void*)0,0); break; }
	    W->mapped = true; W->mapnode = s.node; W->mapoff = off; W->mapslot = (int)((uint64_t)a[0] % NSLOT);
	    if ((int64_t)W->map.size() != n) sim_fail("F04","map-size","mmap of %lld bytes gives a link of %llu",(long long)n,(unsigned long long)W->map.size());
	    // the mapping shows the file
	    MFile& f = W->f[s.node];
	    int64_t cmp = hmin<int64_t>(n,(int64_t)f.data.size()-off);
	    if (s.node < 3 && cmp > 0) { probe(P_MMAP); if (memcmp(W->map.data(),f.data.data()+off,cmp)) sim_fail("F04","map-data","mapping does not show the file contents at offset %lld",(long long)off); }
	    break; }
	case OP_MPOKE:
	    if (!W->mapped || W->mapnode >= 3) break;
	    { MFile& f = W->f[W->mapnode]; int64_t lim = hmin<int64_t>(W->map.size(),(int64_t)f.data.size()-W->mapoff);
	      for (int64_t k = 0; k < (a[1] & 63); ++k) { int64_t o = (a[0] + k) % hmax<int64_t>(1,W->map.size()); if (o >= lim) continue; uint8_t v = pat(++W->wid,k); W->map.begin()[o] = v; f.data[W->mapoff+o] = v; if (f.dirty.size() < f.data.size()) f.dirty.resize(f.data.size()); f.dirty[W->mapoff+o] = 1; } }
	    break;
	case OP_MSYNC: case OP_MUNMAP: {
	    if (!W->mapped) break;
	    Slot& m = W->s[W->mapslot]; if (!m.live) break;
	    if (op == OP_MSYNC) TRY(c, m.f().msync(W->map)); else TRY(c, m.f().munmap(W->map));
	    const bool bad = lastHard(&err) >= 0;
	    report(m, bad ? fstream::failbit : 0, c, op == OP_MSYNC ? "msync" : "munmap", err);
	    if (op == OP_MUNMAP && !bad) { if (W->map.size()) sim_fail("F04","map-size","link is not empty after munmap"); W->mapped = false; if (fs.maps || fs.mappages) sim_fail("F04","map-leak","munmap did not unmap everything that was mapped"); }
	    break; }
	case OP_CRASH: fs_crash(a[0]); after_crash(); break;
	case OP_DISK: fs.capacity = a[0] < 0 ? -1 : a[0]; break;
	case OP_STICKY: fs.sticky = (int)a[0]; fs.stickyread = (int)a[1]; fs.stickysync = (int)a[2]; break;
    }
}

void exec(const Plan& p)
{
    { static const uint32_t B [] = { fstream::in, fstream::out, fstream::app, fstream::ate, fstream::binary, fstream::trunc, fstream::nonblock, fstream::nocreate, fstream::noctty };
      check_distinct("F04","open mode",B,9);
      static const uint32_t S [] = { fstream::badbit, fstream::eofbit, fstream::failbit };
      check_distinct("F02","stream state",S,3); }
    static World w; W = &w;
    w.mapped = false; w.wid = 100;
    for (int i = 0; i < NSLOT; ++i) { w.s[i].live = false; w.s[i].fd = -1; }
    Bytes b;
    patfill(b,1,hmax<int64_t>(0,hmin<int64_t>(p.cfg[C_SIZE0],300000))); fs_node(0,PATHS[0],NT_REG,b.data(),b.size()); w.f[0].data = b; w.f[0].exists = true;
    patfill(b,2,hmax<int64_t>(0,hmin<int64_t>(p.cfg[C_SIZE1],300000))); fs_node(1,PATHS[1],NT_REG,b.data(),b.size()); w.f[1].data = b; w.f[1].exists = true;
    fs_node(2,PATHS[2],NT_REG,0,-1); w.f[2].exists = false;
    patfill(b,3,14000); fs_node(3,PATHS[3],NT_FIFO,b.data(),b.size()); w.f[3].exists = true;
    patfill(b,4,3000); fs_node(4,PATHS[4],NT_TTY,b.data(),b.size()); w.f[4].exists = true;
    for (int i = 3; i < 5; ++i) { fs.n[i].inchunk = hmax<int64_t>(1,p.cfg[C_CHUNK]); fs.n[i].stallset = fs.n[i].stall = (int)p.cfg[C_STALL]; fs.n[i].outcap = p.cfg[C_CAP]; }
    for (int i = 0; i < 2; ++i) { w.f[i].synced = w.f[i].data; w.f[i].everSynced = true; w.f[i].dirty.resize(w.f[i].data.size()); }
    for (int i = 0; i < 3; ++i) { fs_rawopen_at(i,4,O_RDWR); w.mine.add(i); }
    for (int i = 0; i < (int)p.steps.size(); ++i) {
	step_begin(p,i);
	g_crasharmed = true;
	if (setjmp(g_crashjmp)) { sim.on = false; Rng r (sim.nsys*977+i); fs_crash(r.next()); 
	    // a write in progress may have reached the disk partially; what the model knows is stale
	    for (int k = 0; k < 3; ++k) { w.f[k].dirty.resize(hmax<size_t>(w.f[k].dirty.size(),w.f[k].synced.size())); }
	    const Step& s = p.steps[i]; Slot& sl = w.s[(uint64_t)s.a[0] % NSLOT];
	    if (sl.live && s.op == OP_WRITE && sl.node < 3) for (size_t k = (sl.app ? w.f[sl.node].data.size() : sl.pos); k < w.f[sl.node].dirty.size(); ++k) w.f[sl.node].dirty[k] = 1;
	    if (s.op == OP_OPEN || s.op == OP_NEWOPEN) w.f[(uint64_t)s.a[1] % NFILE].everSynced = false;
	    after_crash(); continue; }
	step(p.steps[i].op,p.steps[i].a);
	g_crasharmed = false;
	check_ownership();
	compare_world("after the step");
    }
    // shut down without faults
    sim.step = 0; sim.trace.clear();
    sim.stepbudget = 20000;
    for (int i = 0; i < NSLOT; ++i) if (w.s[i].live) { sim.trace.clear(); do_close(w.s[i],true); }
    FdSet none; check_fd_owners(none,w.mine);
    arena_check_leaks("F03","after destroying every stream");
}
const Scenario S = { "fio", "F01 F02 F03 F04 F05", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
