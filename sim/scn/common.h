// Things shared by the scenarios.
#pragma once
#include "../core/sim.h"
#include "ustl_all.h"
#include <fcntl.h>
#include <sys/ioctl.h>

// byte k of stream id: every position distinct enough to expose loss, duplication and reordering
inline uint8_t pat(uint32_t id, uint64_t k) { uint32_t x = id*2654435761u ^ (uint32_t)(k*40503u) ^ (uint32_t)(k>>7)*97u; x ^= x>>15; x *= 2246822519u; x ^= x>>13; return (uint8_t)(x>>3); }
inline void patfill(Bytes& b, uint32_t id, size_t n) { b.setn(n); for (size_t i = 0; i < n; ++i) b[i] = pat(id,i); }

enum { TH_NONE, TH_FILE, TH_BOUNDS, TH_ALLOC, TH_OTHER, TH_CRASH };
struct Caught { int kind; int err; char op [40]; char file [64]; };
inline const char* thname(int k) { static const char* const n [] = { "nothing","file_exception","stream_bounds_exception","bad_alloc","another exception","crash" }; return n[k]; }
inline void caught_set(Caught& c, int kind, int err, const char* op, const char* file)
{
    c.kind = kind; c.err = err;
    strncpy(c.op, op ? op : "", sizeof(c.op)-1); c.op[sizeof(c.op)-1] = 0;
    strncpy(c.file, file ? file : "", sizeof(c.file)-1); c.file[sizeof(c.file)-1] = 0;
}
// Runs stmt as library code and records how it ended.
#define TRY(c, ...) do { (c).kind = TH_NONE; (c).err = 0; (c).op[0] = (c).file[0] = 0; try { LIB(__VA_ARGS__); } \
    catch (ustl::file_exception& e) { caught_set(c,TH_FILE,e.Errno(),e.Operation(),e.Filename()); } \
    catch (ustl::stream_bounds_exception& e) { caught_set(c,TH_BOUNDS,e.Errno(),e.Operation(),0); } \
    catch (ustl::bad_alloc&) { (c).kind = TH_ALLOC; } \
    catch (ustl::exception& e) { caught_set(c,TH_OTHER,0,e.what(),0); } \
    catch (...) { (c).kind = TH_OTHER; } } while (false)

// Sets of fds that the library is expected to hold.
struct FdSet { uint64_t m; FdSet() : m(0) {} void add(int fd) { if (fd >= 0 && fd < 64) m |= 1ull<<fd; } bool has(int fd) const { return fd >= 0 && fd < 64 && (m>>fd & 1); } };

// Descriptor discipline visible in this step's system calls.
inline void check_fd_calls(void)
{
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& r = sim.trace[i];
	if (r.err == EBADF && r.fd >= 0 && r.call == SYS_CLOSE) sim_fail("F03","double-close","descriptor %d closed although it is not open",r.fd);
	if (r.err == EBADF && r.fd >= 0 && !fs_isopen(r.fd)) sim_fail("F03","use-after-close","%s on descriptor %d which is not open",g_sysNames[r.call],r.fd);
    }
}
// Every open descriptor belongs to a stream or to the harness.
inline void check_fd_owners(const FdSet& lib, const FdSet& mine)
{
    for (int i = 0; i < FS_MAXFD; ++i) {
	if (fs_isopen(i) && !lib.has(i) && !mine.has(i)) sim_fail("F03","fd-leak","descriptor %d (%s) is open but no stream refers to it",i,fs.n[fs.fd[i].node].path);
	if (!fs_isopen(i) && lib.has(i)) sim_fail("F03","stale-fd","a stream refers to descriptor %d which is not open",i);
	if (!fs_isopen(i) && mine.has(i)) sim_fail("F03","foreign-close","descriptor %d was closed although no stream owned it",i);
    }
}
// Flags that a user combines stand for different things.
inline void check_distinct(const char* prop, const char* msg, const uint32_t* b, int n)
{
    uint32_t seen = 0;
    for (int i = 0; i < n; ++i) { if (!b[i] || (b[i] & (b[i]-1)) || (seen & b[i])) sim_fail(prop,"flags-overlap","%s number %d is %u, the ones before make %u",msg,i,b[i],seen); seen |= b[i]; }
}
inline int count_sys(int call) { int k = 0; for (size_t i = 0; i < sim.trace.size(); ++i) k += sim.trace[i].call == call; return k; }
