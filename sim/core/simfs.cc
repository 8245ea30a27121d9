// Simulated kernel: files, pipes, terminals, clocks, random numbers, call stacks.
// Every function here replaces a libc symbol by means of the linker's --wrap.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <termios.h>

const char* const g_sysNames [SYS_N] = { "open","close","read","write","lseek","fsync","fstat","ftruncate","mmap","munmap","msync","ioctl","fcntl","dup","unlink" };
FS fs;
extern "C" void* __real_mmap(void*, size_t, int, int, int, long);
int64_t g_realns, g_monons;
int64_t g_clkreal [64], g_clkmono [64]; int g_nclk;	// the clocks as of each query in this step
static uint8_t* g_storage;

void fs_reset(void)
{
    if (!g_storage) g_storage = (uint8_t*)__real_mmap(0,(size_t)FS_NODES*FS_MAXFILE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    for (int i = 0; i < FS_NODES; ++i) {
	Node& n = fs.n[i];
	n.path = 0; n.type = NT_REG; n.exists = n.dexists = n.mapped = n.dead = false; n.data = g_storage + (size_t)i*FS_MAXFILE; n.size = 0;
	n.durable.clear(); n.in.clear(); n.inpos = n.inavail = 0; n.inchunk = 1<<20; n.outcap = n.outdrained = 0; n.stall = n.stallset = 0; n.perms = 0; n.jitter = 0; n.base = 0;
    }
    memset(fs.fd,0,sizeof(fs.fd)); memset(fs.ofd,0,sizeof(fs.ofd));
    fs.capacity = -1; fs.sticky = fs.stickyread = fs.stickysync = 0; fs.gen = 0; fs.maps = 0; fs.mappages = 0;
    fs.unsynced.clear(); fs.udata.clear();
    g_realns = 1700000000ll*1000000000ll; g_monons = 12345ll*1000000000ll;
}
void fs_node(int i, const char* path, int type, const void* data, int64_t n)
{
    Node& f = fs.n[i];
    f.path = path; f.type = type; f.exists = f.dexists = n >= 0; f.size = 0;
    if (n > 0 && type == NT_REG) { memcpy(f.data,data,n); f.size = n; f.durable.setn(n); memcpy(f.durable.data(),data,n); }
    if (n > 0 && type != NT_REG) { f.in.setn(n); memcpy(f.in.data(),data,n); }
}
static int lowfd(void) { for (int i = 0; i < FS_MAXFD; ++i) if (!fs.fd[i].open) return i; return -1; }
static int newofd(int flags) { for (int i = 0; i < FS_MAXFD; ++i) if (!fs.ofd[i].refs) { fs.ofd[i].refs = 1; fs.ofd[i].pos = 0; fs.ofd[i].flags = flags; return i; } return -1; }
int fs_rawopen_at(int fd, int node, int flags) { FdRec& r = fs.fd[fd]; r.open = true; r.node = node; r.ofd = newofd(flags); r.gen = ++fs.gen; return fd; }
int fs_rawopen(int node, int flags) { return fs_rawopen_at(lowfd(),node,flags); }
static void reallyclose(int fd) { FdRec& r = fs.fd[fd]; r.open = false; --fs.ofd[r.ofd].refs; }
void fs_rawclose(int fd) { if (fs_isopen(fd)) reallyclose(fd); }
bool fs_isopen(int fd) { return fd >= 0 && fd < FS_MAXFD && fs.fd[fd].open; }
int64_t fs_rawpos(int fd) { return fs_isopen(fd) ? fs.ofd[fs.fd[fd].ofd].pos : -1; }
void fs_rawseek(int fd, int64_t p) { fs.ofd[fs.fd[fd].ofd].pos = p; }
int fs_flags(int fd) { return fs_isopen(fd) ? fs.ofd[fs.fd[fd].ofd].flags : -1; }
int fs_openfds(void) { int k = 0; for (int i = 0; i < FS_MAXFD; ++i) k += fs.fd[i].open; return k; }

void fs_crash(uint64_t pick)
{
    Rng r (pick);
    bool all = r.chance(200), none = r.chance(300);
    for (int i = 0; i < FS_NODES; ++i) {
	Node& n = fs.n[i];
	if (n.type != NT_REG || !n.path) continue;
	Bytes b (n.durable);
	for (size_t k = 0; k < fs.unsynced.size(); ++k) {
	    const Unsynced& u = fs.unsynced[k];
	    if (u.node != i) continue;
	    bool keep = all || (!none && r.chance(500));
	    int64_t len = u.len;
	    if (keep && !all && r.chance(300) && len > 0) len = r.below(len);	// torn
	    if (!keep) continue;
	    if (u.off < 0) { b.clear(); continue; }
	    if ((int64_t)b.size() < u.off+len) b.resize(u.off+len);
	    if (len) memcpy(b.data()+u.off, fs.udata.data()+u.dataoff, len);
	}
	if (n.mapped) for (int64_t o = 0; o < n.size && o < (int64_t)b.size(); o += 4096)
	    if (r.chance(500)) memcpy(b.data()+o, n.data+o, hmin<int64_t>(4096, hmin<int64_t>(n.size,b.size())-o));
	bool entry = n.dexists || (n.exists && (all || r.chance(500)));
	if (n.size > (int64_t)b.size()) memset(n.data+b.size(),0,n.size-b.size());
	n.size = b.size(); if (n.size) memcpy(n.data,b.data(),n.size);
	n.durable = b; n.exists = n.dexists = entry; n.mapped = false;
	if (!entry) { n.size = 0; n.durable.clear(); }
    }
    fs.unsynced.clear(); fs.udata.clear();
    for (int i = 3; i < FS_MAXFD; ++i) fs_rawclose(i);
    fs.maps = 0; fs.mappages = 0;
}

//---------------------------------------------------------------- system call entry
static SysRec& enter(int call, int fd, int64_t req, int64_t arg)
{
    ++sim.nsys; ++sim.sysidx;
    int64_t t = 1000 + (int64_t)((sim.nsys*2654435761u) % 5000);
    g_realns += t; g_monons += t; sim_tick(t);
    if (--sim.stepbudget < 0) sim_fail("", "hang", "more than 20000 system calls in one operation, last %s", g_sysNames[call]);
    SysRec r = { call, fd, req, 0, 0, -1, arg };
    sim.trace.push(r);
    if (fault_at(F_CRASH, sim.sysidx-1) && g_crasharmed) { fired(F_CRASH); g_crasharmed = false; longjmp(g_crashjmp,1); }
    return sim.trace.back();
}
static int64_t leave(SysRec& r, int64_t res, int err, int fault = -1)
{
    r.res = res; r.err = res < 0 ? err : 0; r.fault = fault;
    if (fault >= 0) fired(fault);
    sim_log("  sys %s fd=%d req=%lld -> %lld %s", g_sysNames[r.call], r.fd, (long long)r.req, (long long)res, res < 0 ? strerrorname_np(err) : "");
    sim_sig(r.call*16 + (res < 0 ? 1 : res < r.req ? 2 : 0));
    if (res < 0) errno = err;
    return res;
}
static bool hard(SysRec& r, int64_t& rv)
{
    Fault f;
    if ((r.call == SYS_OPEN || r.call == SYS_FSYNC || r.call == SYS_IOCTL) && fault_at(F_EINTR, sim.sysidx-1)) { rv = leave(r, -1, EINTR, F_EINTR); return true; }
    if (!fault_at(F_ERR, sim.sysidx-1, &f)) return false;
    rv = leave(r, -1, (int)f.arg, F_ERR);
    return true;
}
static bool badfd(SysRec& r, int fd, int64_t& rv)
{
    if (fs_isopen(fd)) return false;
    rv = leave(r, -1, EBADF);
    return true;
}
static void unsynced(int node, int64_t off, const void* p, int64_t n)
{
    if (fs.n[node].type != NT_REG) return;
    Unsynced u = { node, off, n, (int64_t)fs.udata.size() };
    if (n > 0) fs.udata.append((const uint8_t*)p, n);
    fs.unsynced.push(u);
}
static bool nonblock(int fd) { return fs.ofd[fs.fd[fd].ofd].flags & O_NONBLOCK; }

static int64_t do_open(const char* path, int flags, int perms)
{
    SysRec& r = enter(SYS_OPEN, -1, flags, perms);
    int64_t rv; if (hard(r,rv)) return rv;
    int k = -1;
    for (int i = 0; i < FS_NODES; ++i) if (fs.n[i].path && path && !strcmp(fs.n[i].path,path)) k = i;
    if (k < 0) return leave(r,-1,ENOENT);
    Node& n = fs.n[k];
    if ((flags & O_ACCMODE) == 3) return leave(r,-1,EINVAL);
    if (!n.exists) {
	if (!(flags & O_CREAT)) return leave(r,-1,ENOENT);
	n.exists = true; n.perms = perms; n.size = 0;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) return leave(r,-1,EEXIST);
    int fd = lowfd();
    if (fd < 0) return leave(r,-1,EMFILE);
    if ((flags & O_TRUNC) && n.type == NT_REG && (flags & O_ACCMODE) != O_RDONLY) { memset(n.data,0,n.size); n.size = 0; n.base = 0; unsynced(k,-1,0,0); }
    fs_rawopen_at(fd,k,flags);
    r.fd = fd;
    return leave(r,fd,0);
}
static int64_t do_close(int fd)
{
    SysRec& r = enter(SYS_CLOSE, fd, 0, 0);
    int64_t rv;
    if (!fs_isopen(fd)) return leave(r,-1,EBADF);
    if (fault_at(F_EINTR, sim.sysidx-1)) return leave(r,-1,EINTR,F_EINTR);	// POSIX.1-2024: the descriptor stays open
    if (fault_at(F_ERR, sim.sysidx-1)) { reallyclose(fd); hard(r,rv); return rv; }	// otherwise it is gone even if close fails
    reallyclose(fd);
    return leave(r,0,0);
}
static int64_t do_xfer(int call, int fd, void* buf, int64_t n, int64_t at)
{
    SysRec& r = enter(call, fd, n, at);
    int64_t rv; Fault f;
    const int idx = sim.sysidx-1;
    if (badfd(r,fd,rv)) return rv;
    Node& nd = fs.n[fs.fd[fd].node];
    OfdRec& o = fs.ofd[fs.fd[fd].ofd];
    const int acc = o.flags & O_ACCMODE;
    if (call == SYS_READ ? acc == O_WRONLY : acc == O_RDONLY) return leave(r,-1,EBADF);
    if (fault_at(F_EINTR,idx)) return leave(r,-1,EINTR,F_EINTR);
    if (fault_at(F_EAGAIN,idx)) return leave(r,-1,EAGAIN,F_EAGAIN);
    if (hard(r,rv)) return rv;
    if (fault_at(F_ZERO,idx)) return leave(r,0,0,F_ZERO);
    if (call == SYS_WRITE && fs.sticky) return leave(r,-1,fs.sticky,F_ERR);
    if (call == SYS_READ && fs.stickyread) return leave(r,-1,fs.stickyread,F_ERR);
    int fault = -1;
    int64_t m = n;
    if (m > 1 && fault_at(F_SHORT,idx,&f) && f.arg < m) { m = hmax<int64_t>(1,f.arg); fault = F_SHORT; }
    if (call == SYS_READ) {
	if (nd.type == NT_REG) {
	    int64_t p = (at >= 0 ? at : o.pos) - nd.base;
	    int64_t av = p < 0 ? -p : nd.size - p; if (av < 0) av = 0;
	    if (m > av) { m = av; fault = -1; }
	    if (nd.jitter && m > 1) { int64_t k = 1 + (int64_t)(Rng(sim.nsys*2+nd.jitter).next() % (uint64_t)nd.jitter); if (k < m) { m = k; fault = F_SHORT; } }
	    if (m > 0) { if (p < 0) memset(buf,0,m); else memcpy(buf, nd.data+p, m); }
	    if (at < 0) o.pos += m;
	    return leave(r,m,0,fault);
	}
	if (nd.inavail == nd.inpos && nd.inavail < (int64_t)nd.in.size()) {
	    if (nonblock(fd) && nd.stall > 0) { --nd.stall; return leave(r,-1,EAGAIN); }
	    nd.stall = nd.stallset;
	    nd.inavail = hmin<int64_t>(nd.in.size(), nd.inavail + (nd.jitter ? 1 + (int64_t)(Rng(sim.nsys*2+nd.jitter).next() % (uint64_t)nd.jitter) : nd.inchunk));
	    sim_tick(1000000); g_realns += 1000000; g_monons += 1000000;
	}
	int64_t av = nd.inavail - nd.inpos;
	if (m > av) { m = av; fault = -1; }
	if (m > 0) memcpy(buf, nd.in.data()+nd.inpos, m);
	nd.inpos += m;
	return leave(r,m,0,fault);
    }
    // write
    if (nd.type == NT_REG) {
	int64_t p = at >= 0 ? at - nd.base : (o.flags & O_APPEND) ? nd.size : o.pos - nd.base;
	if (p < 0) return leave(r,-1,EIO);	// in the hole
	if (p + m > FS_MAXFILE) { m = FS_MAXFILE - p; if (m <= 0) return leave(r,-1,EFBIG); }
	int64_t grow = p + m - nd.size;
	if (fs.capacity >= 0 && grow > fs.capacity) {
	    m -= grow - fs.capacity;
	    if (m <= 0) return leave(r,-1,ENOSPC,F_ERR);
	    grow = fs.capacity; fault = F_SHORT;
	}
	if (n == 0) return leave(r,0,0);
	if (p > nd.size) memset(nd.data+nd.size,0,p-nd.size);
	memcpy(nd.data+p,buf,m);
	unsynced(fs.fd[fd].node,p,buf,m);
	if (p+m > nd.size) { nd.size = p+m; if (fs.capacity >= 0) fs.capacity -= grow; }
	if (at < 0) o.pos = nd.base+p+m;
	return leave(r,m,0,fault);
    }
    if (nd.outcap) {
	int64_t room = nd.outcap - (nd.size - nd.outdrained);
	if (room <= 0) {
	    if (nonblock(fd) && (nd.dead || nd.stall > 0)) { --nd.stall; return leave(r,-1,EAGAIN,F_EAGAIN); }
	    nd.stall = nd.stallset;
	    nd.outdrained = nd.size;		// the reader catches up
	    sim_tick(1000000); g_realns += 1000000; g_monons += 1000000;
	    room = nd.outcap;
	}
	if (m > room) { m = room; fault = F_SHORT; }
    }
    if (nd.size + m > FS_MAXFILE) return leave(r,-1,EFBIG);
    if (m > 0) memcpy(nd.data+nd.size,buf,m);
    nd.size += m;
    return leave(r,m,0,fault);
}

static Rng g_rand (1); static int g_randmode; uint64_t g_randcalls;
static int g_btn = 4, g_btflavour = 0; int g_btcalls;

extern void (*g_memhook)(const void* p, size_t n, bool write);
static int64_t xfer(int call, int fd, void* p, size_t n, int64_t o)
{
    if (g_memhook && call == SYS_WRITE) g_memhook(p,n,false);
    int64_t r = do_xfer(call,fd,p,n,o);
    if (g_memhook && call == SYS_READ && r > 0) g_memhook(p,(size_t)r,true);
    return r;
}
extern "C" {
int __wrap_open(const char* path, int flags, ...) { va_list a; va_start(a,flags); int m = va_arg(a,int); va_end(a); return do_open(path,flags,(flags & O_CREAT) ? m : 0); }
int __wrap_open64(const char* path, int flags, ...) { va_list a; va_start(a,flags); int m = va_arg(a,int); va_end(a); return do_open(path,flags,(flags & O_CREAT) ? m : 0); }
int __wrap_openat(int, const char* path, int flags, ...) { va_list a; va_start(a,flags); int m = va_arg(a,int); va_end(a); return do_open(path,flags,(flags & O_CREAT) ? m : 0); }
int __wrap_creat(const char* path, int m) { return do_open(path,O_CREAT|O_WRONLY|O_TRUNC,m); }
int __wrap_close(int fd) { return do_close(fd); }
ssize_t __wrap_read(int fd, void* p, size_t n) { return xfer(SYS_READ,fd,p,n,-1); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { return xfer(SYS_WRITE,fd,(void*)p,n,-1); }
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) { return xfer(SYS_READ,fd,p,n,o); }
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) { return xfer(SYS_WRITE,fd,(void*)p,n,o); }
ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t o) { return xfer(SYS_READ,fd,p,n,o); }
ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off_t o) { return xfer(SYS_WRITE,fd,(void*)p,n,o); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n)
{
    int64_t t = 0;
    for (int i = 0; i < n; ++i) { if (!v[i].iov_len) continue; int64_t k = xfer(SYS_READ,fd,v[i].iov_base,v[i].iov_len,-1); if (k < 0) return t ? t : k; t += k; if (k < (int64_t)v[i].iov_len) break; }
    return t;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
    int64_t t = 0;
    for (int i = 0; i < n; ++i) { if (!v[i].iov_len) continue; int64_t k = xfer(SYS_WRITE,fd,v[i].iov_base,v[i].iov_len,-1); if (k < 0) return t ? t : k; t += k; if (k < (int64_t)v[i].iov_len) break; }
    return t;
}
off_t __wrap_lseek(int fd, off_t off, int wh)
{
    SysRec& r = enter(SYS_LSEEK,fd,off,wh); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    Node& nd = fs.n[fs.fd[fd].node]; OfdRec& o = fs.ofd[fs.fd[fd].ofd];
    if (nd.type != NT_REG) return leave(r,-1,ESPIPE);
    int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? o.pos+off : wh == SEEK_END ? nd.base+nd.size+off : -1;
    if (p < 0) return leave(r,-1,EINVAL);
    o.pos = p;
    return leave(r,p,0);
}
off_t __wrap_lseek64(int fd, off_t off, int wh) { return __wrap_lseek(fd,off,wh); }
int __wrap_fsync(int fd)
{
    SysRec& r = enter(SYS_FSYNC,fd,0,0); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    int k = fs.fd[fd].node; Node& nd = fs.n[k];
    if (nd.type != NT_REG) return leave(r,-1,EINVAL);
    if (fs.stickysync) return leave(r,-1,fs.stickysync,F_ERR);
    nd.durable.setn(nd.size); if (nd.size) memcpy(nd.durable.data(),nd.data,nd.size);
    nd.dexists = true; nd.mapped = false;
    size_t j = 0; for (size_t i = 0; i < fs.unsynced.size(); ++i) if (fs.unsynced[i].node != k) fs.unsynced[j++] = fs.unsynced[i];
    fs.unsynced.setn(j);
    return leave(r,0,0);
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_syncfs(int fd) { return __wrap_fsync(fd); }
int __wrap_fstat(int fd, struct stat* st)
{
    SysRec& r = enter(SYS_FSTAT,fd,0,0); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    Node& nd = fs.n[fs.fd[fd].node];
    memset(st,0,sizeof(*st));
    st->st_size = nd.type == NT_REG ? nd.base+nd.size : 0; st->st_blksize = 4096; st->st_ino = 100+fs.fd[fd].node; st->st_nlink = 1;
    st->st_mode = (nd.type == NT_REG ? S_IFREG : nd.type == NT_FIFO ? S_IFIFO : S_IFCHR) | (nd.perms & 07777);
    return leave(r,0,0);
}
int __wrap_fstat64(int fd, struct stat64* st) { return __wrap_fstat(fd,(struct stat*)st); }
int __wrap_ftruncate(int fd, off_t n)
{
    SysRec& r = enter(SYS_FTRUNC,fd,n,0); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    Node& nd = fs.n[fs.fd[fd].node];
    if (nd.type != NT_REG || n < 0 || n > FS_MAXFILE) return leave(r,-1,EINVAL);
    if (n > nd.size) memset(nd.data+nd.size,0,n-nd.size); else memset(nd.data+n,0,nd.size-n);
    nd.size = n;
    return leave(r,0,0);
}
void* __wrap_mmap(void*, size_t len, int prot, int flags, int fd, off_t off)
{
    SysRec& r = enter(SYS_MMAP,fd,len,off); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return MAP_FAILED;
    Node& nd = fs.n[fs.fd[fd].node]; OfdRec& o = fs.ofd[fs.fd[fd].ofd];
    if (nd.type != NT_REG) { leave(r,-1,ENODEV); return MAP_FAILED; }
    off -= nd.base;
    if ((off & 4095) || !len || off + (int64_t)len > FS_MAXFILE || off < 0) { leave(r,-1,EINVAL); return MAP_FAILED; }
    if ((o.flags & O_ACCMODE) == O_WRONLY || ((prot & PROT_WRITE) && (flags & MAP_SHARED) && (o.flags & O_ACCMODE) != O_RDWR)) { leave(r,-1,EACCES); return MAP_FAILED; }
    ++fs.maps; fs.mappages += ((int64_t)len + 4095)/4096; if (prot & PROT_WRITE) nd.mapped = true;
    leave(r,0,0);
    return nd.data + off;
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a,len,prot,flags,fd,off); }
int __wrap_munmap(void* p, size_t len)
{
    SysRec& r = enter(SYS_MUNMAP,-1,len,0); int64_t rv;
    r.arg = (uint8_t*)p >= g_storage && (uint8_t*)p < g_storage + (size_t)FS_NODES*FS_MAXFILE ? (uint8_t*)p - g_storage : -1;
    if (hard(r,rv)) return rv;
    if (r.arg < 0 || (r.arg & 4095) || !len) return leave(r,-1,EINVAL);
    --fs.maps; fs.mappages -= ((int64_t)len + 4095)/4096;
    return leave(r,0,0);
}
int __wrap_msync(void* p, size_t len, int flags)
{
    SysRec& r = enter(SYS_MSYNC,-1,len,flags); int64_t rv;
    if (hard(r,rv)) return rv;
    if ((uint8_t*)p < g_storage || (uint8_t*)p >= g_storage + (size_t)FS_NODES*FS_MAXFILE || ((uintptr_t)p & 4095)) return leave(r,-1,EINVAL);
    return leave(r,0,0);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list a; va_start(a,req); void* arg = va_arg(a,void*); va_end(a);
    SysRec& r = enter(SYS_IOCTL,fd,(int64_t)req,(int64_t)(intptr_t)0); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    Node& nd = fs.n[fs.fd[fd].node];
    if (req == FIONREAD) { *(int*)arg = nd.type == NT_REG ? nd.base + nd.size - fs_rawpos(fd) : nd.inavail - nd.inpos; return leave(r,0,0); }
    if (nd.type != NT_TTY) return leave(r,-1,ENOTTY);
    if (req == TIOCGWINSZ) { struct winsize* w = (struct winsize*)arg; memset(w,0,sizeof(*w)); w->ws_row = 25; w->ws_col = 80; return leave(r,0,0); }
    if (req == TCSBRK) { r.arg = (int64_t)(intptr_t)arg; return leave(r,(int64_t)(intptr_t)arg & 0xff,0); }
    return leave(r,-1,EINVAL);
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list a; va_start(a,cmd); long arg = va_arg(a,long); va_end(a);
    SysRec& r = enter(SYS_FCNTL,fd,cmd,arg); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    OfdRec& o = fs.ofd[fs.fd[fd].ofd];
    const int settable = O_APPEND|O_NONBLOCK|O_ASYNC|O_NOATIME;
    if (cmd == F_GETFL) return leave(r,o.flags & (O_ACCMODE|settable),0);
    if (cmd == F_SETFL) { o.flags = (o.flags & ~settable) | (arg & settable); return leave(r,0,0); }
    if (cmd == F_GETFD || cmd == F_SETFD) return leave(r,0,0);
    return leave(r,-1,EINVAL);
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a,cmd); long arg = va_arg(a,long); va_end(a); return __wrap_fcntl(fd,cmd,arg); }
int __wrap_dup(int fd)
{
    SysRec& r = enter(SYS_DUP,fd,0,0); int64_t rv;
    if (badfd(r,fd,rv) || hard(r,rv)) return rv;
    int n = lowfd(); if (n < 0) return leave(r,-1,EMFILE);
    fs.fd[n] = fs.fd[fd]; ++fs.ofd[fs.fd[fd].ofd].refs;
    return leave(r,n,0);
}
int __wrap_isatty(int fd) { if (!fs_isopen(fd)) { errno = EBADF; return 0; } if (fs.n[fs.fd[fd].node].type == NT_TTY) return 1; errno = ENOTTY; return 0; }
int __wrap_unlink(const char* path)
{
    SysRec& r = enter(SYS_UNLINK,-1,0,0); int64_t rv;
    if (hard(r,rv)) return rv;
    for (int i = 0; i < FS_NODES; ++i) if (fs.n[i].path && !strcmp(fs.n[i].path,path) && fs.n[i].exists) { fs.n[i].exists = false; return leave(r,0,0); }
    return leave(r,-1,ENOENT);
}

//---------------------------------------------------------------- clocks
static void clocktick()
{
    Fault f; if (fault_at(F_CLOCK,sim.clkidx,&f)) { fired(F_CLOCK); g_realns += f.arg; }
    ++sim.clkidx; g_realns += 1000; g_monons += 1000; sim_tick(1000); ++sim.nsys;
    if (g_nclk < 64) { g_clkreal[g_nclk] = g_realns; g_clkmono[g_nclk++] = g_monons; }
}
time_t __wrap_time(time_t* t) { clocktick(); time_t v = g_realns < 0 ? -((-g_realns+999999999)/1000000000) : g_realns/1000000000; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
    clocktick();
    int64_t v;
    switch (id) {
	case CLOCK_REALTIME: v = g_realns; break;
	case CLOCK_MONOTONIC: v = g_monons; break;
	case CLOCK_REALTIME_COARSE: v = g_realns - g_realns % 4000000; break;
	case CLOCK_MONOTONIC_COARSE: v = g_monons - g_monons % 4000000; break;
	case CLOCK_BOOTTIME: v = g_monons + 777000000000ll; break;
	case CLOCK_MONOTONIC_RAW: v = g_monons - g_monons/1000000; break;
	default: v = (int64_t)sim.nsys*1000; break;
    }
    int64_t s = v >= 0 ? v/1000000000 : -((-v+999999999)/1000000000);
    ts->tv_sec = s; ts->tv_nsec = v - s*1000000000;
    return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000; return 0; }

//---------------------------------------------------------------- randomness
int __wrap_rand(void)
{
    ++g_randcalls; fired(F_RAND);
    switch (g_randmode) {
	case 1: return 0;
	case 2: return RAND_MAX;
	case 3: return (g_randcalls & 1) ? RAND_MAX : 0;
	case 4: return (int)(g_randcalls & RAND_MAX);
	case 5: return RAND_MAX - (int)(g_rand.below(3));
	case 6: return (int)g_rand.below(3);
	default: return (int)(g_rand.next() & RAND_MAX);
    }
}
long __wrap_random(void) { return __wrap_rand(); }
void __wrap_srand(unsigned) {}

//---------------------------------------------------------------- call stacks
int __wrap_backtrace(void** p, int n)
{
    ++g_btcalls;
    int k = g_btn < n ? g_btn : n;
    for (int i = 0; i < k; ++i) p[i] = (void*)(uintptr_t)(0x401000 + i*0x123 + g_btcalls*0x10);
    return k;
}
void* __wrap_malloc(size_t);
}
// What the platform says about frame i at address p; a pure function of both.
void bt_text(const void* p, int i, char* t)
{
    const unsigned long a = (unsigned long)(uintptr_t)p;
    switch (g_btflavour == 9 ? (i*7+(a>>4)) % 9 : g_btflavour) {
	default: snprintf(t,700,"./prog(_ZN4ustl6stringC1Ev+0x%x) [0x%lx]",i,a); break;
	case 1: snprintf(t,700,"./prog() [0x%lx]",a); break;
	case 2: { int k = snprintf(t,700,"./prog("); for (int j = 0; j < 400; ++j) t[k++] = 'a' + j%26; snprintf(t+k,700-k,"+0x1) [0x%lx]",a); } break;
	case 3: snprintf(t,700,"[0x%lx]",a); break;
	case 4: snprintf(t,700,"/usr/lib/libstdc++.so.6(_ZSt9terminatev+0x%x) [0x%lx]",i,a); break;
	case 5: snprintf(t,700,"./prog(main) [0x%lx]",a); break;
	case 6: snprintf(t,700,"./prog(+0x%x) [0x%lx]",i,a); break;
	case 7: snprintf(t,700,"./prog(_ZN4ustl6vectorINS_6stringEE4pushERKS1_i+0x%x) [0x%lx]",i,a); break;
	case 8: { int k = snprintf(t,700,"./prog(_Z1fI"), n = 1 + i%27; for (int j = 0; j < n; ++j) k += snprintf(t+k,700-k,"5outerI"); t[k++] = 'i'; for (int j = 0; j < n; ++j) t[k++] = 'E'; snprintf(t+k,700-k,"EvT_+0x1) [0x%lx]",a); } break;
    }
}
extern "C" {
char** __wrap_backtrace_symbols(void* const* p, int n)
{
    static char txt [64][700];
    size_t tot = (size_t)n*sizeof(char*);
    for (int i = 0; i < n && i < 64; ++i) { bt_text(p[i],i,txt[i]); tot += strlen(txt[i])+1; }
    char** r = (char**)__wrap_malloc(tot);
    if (!r) return 0;
    char* q = (char*)(r+n);
    for (int i = 0; i < n && i < 64; ++i) { r[i] = q; size_t l = strlen(txt[i])+1; memcpy(q,txt[i],l); q += l; }
    return r;
}
void __wrap_backtrace_symbols_fd(void* const*, int, int) {}
}
bool g_demangle;
extern "C" const char* hx_demangle_full(char* b, size_t n, size_t* l) __attribute__((weak));
extern "C" const char* __real__ZN4ustl18demangle_type_nameEPcmPm(char* b, size_t n, size_t* l) __attribute__((weak));
extern "C" const char* __wrap__ZN4ustl18demangle_type_nameEPcmPm(char* b, size_t n, size_t* l)
{
    return g_demangle && hx_demangle_full ? hx_demangle_full(b,n,l) : __real__ZN4ustl18demangle_type_nameEPcmPm(b,n,l);
}
void rand_config(uint64_t seed, int mode) { g_rand = Rng(seed); g_randmode = mode; g_randcalls = 0; }
void bt_config(int n, int f, bool d) { g_demangle = d && hx_demangle_full; g_btn = n; g_btflavour = f; }
