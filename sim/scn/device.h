// Device requests and state queries of the file-backed text streams.
// (When memory for the exception itself runs out, errno names that newer failure.)
#pragma once
#include "common.h"
#include <sys/stat.h>
#include <termios.h>

// Where the text of the sparse file of far_offsets begins, beyond 31, 32, 33 and more bits.
enum { N_FAR = 6, FARNODE = 7 };
const int64_t FAR [N_FAR] = { 0x7ffff000ll, 0x80000000ll, 0xfffff000ll, 0x100000000ll, 0x2fffff000ll, 0x7ffffff0000ll };

// The state queries are views of one state.
template <typename F> void check_state_queries(F& f, const char* prop)
{
    const unsigned st = f.rdstate(); const F& k = f;
    const bool bad = k.bad(), good = k.good(), fail = k.fail(), eof = k.eof(), neg = !k, pos = k ? true : false;
    if (bad != !!(st & ustl::ios_base::badbit) || eof != !!(st & ustl::ios_base::eofbit) || fail != !!(st & (ustl::ios_base::badbit|ustl::ios_base::failbit)) || good != !st || neg != fail || pos == fail)
	sim_fail(prop,"state-queries","state %u: bad %d eof %d fail %d good %d, ! %d, as a condition %d",st,bad,eof,fail,good,neg,pos);
}
enum { DEV_FDS, DEV_STAT, DEV_NONBLK, DEV_FIONREAD, DEV_WINSZ, DEV_BRKI, DEV_BRKL, DEV_BRK0, DEV_SETSTATE, N_DEV };
// Performs one device request; returns true when the stream has to be cleared afterwards.
template <typename F> bool device_op(F& f, int fd, int node, int64_t size, int ex, uint64_t k, int64_t v, const char* prop)
{
    Caught c; c.kind = TH_NONE; bool res = false;
    const int64_t pos0 = f.pos(); const unsigned st0 = f.rdstate();
    check_state_queries(f,prop);
    if (f.is_open() != (fd >= 0) || f.fd() != fd) sim_fail(prop,"wrong-fd","is_open() is %d and fd() is %d, the stream uses descriptor %d",f.is_open(),f.fd(),fd);
    k %= N_DEV;
    unsigned added = 0;
    if (k == DEV_SETSTATE) {
	added = (unsigned)v & 7; TRY(c, f.setstate(added));
	if (c.kind != TH_NONE) sim_fail(prop,"spurious-throw","setstate threw %s",thname(c.kind));
	res = true;
    } else if (k == DEV_NONBLK && fd >= 0 && !sim.step->nf) {
	const int had = fs_flags(fd), want = (v & 1) ? had|O_NONBLOCK : had & ~O_NONBLOCK;
	if (v & 2) TRY(c, f.set_nonblock()); else TRY(c, f.set_nonblock(v & 1));
	if (fs_flags(fd) != ((v & 2) ? had|O_NONBLOCK : want)) sim_fail(prop,"nonblock-mode","set_nonblock(%d) changed the flags from %o to %o",(v & 2) ? 1 : (int)(v & 1),had,fs_flags(fd));
	if (c.kind != TH_NONE) sim_fail(prop,"spurious-throw","set_nonblock threw %s",thname(c.kind));
	fs.ofd[fs.fd[fd].ofd].flags = had;
    } else if (k == DEV_STAT && fd >= 0) {
	struct stat st; memset(&st,0x55,sizeof(st));
	TRY(c, f.stat(st));
	bool bad = false; for (size_t i = 0; i < sim.trace.size(); ++i) bad |= sim.trace[i].call == SYS_FSTAT && sim.trace[i].res < 0;
	if (bad != (c.kind == TH_FILE)) sim_fail(prop,"not-thrown","stat: the system call %s, %s was thrown",bad ? "failed" : "succeeded",thname(c.kind));
	else if (!bad && (st.st_size != (node < 2 ? size : 0) || (int)st.st_ino != 100+node || !!S_ISREG(st.st_mode) != (node < 2))) sim_fail(prop,"wrong-stat","stat says the file has %lld bytes and number %lld",(long long)st.st_size,(long long)st.st_ino);
	res = bad;
    } else if (k >= DEV_FIONREAD && k <= DEV_BRK0 && fd >= 0) {
	int rv = -2, nb = -77; static struct winsize ws; ws.ws_row = 0; int64_t want = 0;
	const char* nm = k == DEV_FIONREAD ? "ioctl(FIONREAD)" : k == DEV_WINSZ ? "ioctl(TIOCGWINSZ)" : "ioctl(TCSBRK)";
	switch (k) {
	    case DEV_FIONREAD: TRY(c, rv = f.ioctl(IOCTLID(FIONREAD),&nb)); break;
	    case DEV_WINSZ: TRY(c, rv = f.ioctl(IOCTLID(TIOCGWINSZ),&ws)); break;
	    case DEV_BRKI: want = 1+(v&63); TRY(c, rv = f.ioctl(IOCTLID(TCSBRK),(int)want)); break;
	    case DEV_BRKL: want = 1+(v&63); TRY(c, rv = f.ioctl(IOCTLID(TCSBRK),(long)want)); break;
	    default: TRY(c, rv = f.ioctl(IOCTLID(TCSBRK))); break;
	}
	int err = 0; bool bad = false; int calls = 0;
	for (size_t i = 0; i < sim.trace.size(); ++i) { const SysRec& r = sim.trace[i]; if (r.call != SYS_IOCTL) continue; ++calls; bad = r.res < 0; err = r.err; if (r.fd != fd) sim_fail(prop,"wrong-fd","%s on descriptor %d instead of %d",nm,r.fd,fd); }
	if (!calls) sim_fail(prop,"no-ioctl","%s was not passed to the device",nm);
	const bool mustThrow = bad && (ex & ustl::ios_base::failbit);
	if (mustThrow ? c.kind != TH_FILE || (c.err != err && !(c.err == ENOMEM && sim.allocfaults)) || strcmp(c.op,nm) : c.kind != TH_NONE) sim_fail(prop,"wrong-exception","%s %s (errno %d) with exceptions %d: threw %s '%s' errno %d",nm,bad ? "failed" : "succeeded",err,ex,thname(c.kind),c.op,c.err);
	else if (c.kind == TH_NONE && (bad ? rv >= 0 : rv != want)) sim_fail(prop,"ioctl-result","%s returned %d, expected %lld",nm,rv,(long long)want);
	if (!bad && k == DEV_FIONREAD && nb == -77) sim_fail(prop,"ioctl-argument","the ioctl argument was not passed through");
	if (!bad && k == DEV_WINSZ && ws.ws_row != 25) sim_fail(prop,"ioctl-argument","the ioctl argument was not passed through");
	res = bad;
    } else return false;
    if ((int64_t)f.pos() != pos0) sim_fail(prop,"moved","a device request moved the stream from %lld to %lld",(long long)pos0,(long long)f.pos());
    if (k == DEV_SETSTATE ? f.rdstate() != (st0|added) : (f.rdstate() & ~(unsigned)ustl::ios_base::failbit) != (st0 & ~(unsigned)ustl::ios_base::failbit)) sim_fail(prop,"wrong-state","a device request or setstate %u changed the state from %u to %u",added,st0,(unsigned)f.rdstate());
    check_state_queries(f,prop);
    return res;
}
