// Deterministic simulator for uSTL: core interface.
//
// A run is a pure function of a Plan: a list of steps, each with an operation
// code, integer arguments and the faults injected while that step executes.
// A Plan is generated from one integer seed, or read back from a replay file.
#pragma once
#include "mini.h"

//---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z ^ (z>>31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi-lo)+1); }  // inclusive
    bool chance(unsigned permille) { return below(1000) < permille; }
    // every order of magnitude up to hi equally likely
    int64_t skewed(int64_t hi) { int lb = 0; while ((1ll<<lb) < hi) ++lb; int64_t b = 1ll << below(lb+1); return (int64_t)below((uint64_t)hmin(b,hi)+1); }
};

//---------------------------------------------------------------- plan
enum FaultKind {
    F_SHORT,	// a transfer moves at most arg bytes
    F_EINTR,	// the call is interrupted by a signal before doing anything
    F_EAGAIN,	// a transfer would block
    F_ERR,	// the call fails with errno arg
    F_ZERO,	// a transfer returns 0
    F_ALLOC,	// an allocation fails
    F_THROW,	// an element constructor/assignment throws
    F_CRASH,	// the process dies in this call
    F_PREEMPT,	// thread preemption
    F_RAND,	// adversarial random number
    F_CLOCK,	// clock jump (arg ns)
    F_FLIP,	// stored bytes damaged
    F_STALE,	// an atomic load returns an older value the memory model allows
    F_SPUR,	// a weak compare-exchange fails spuriously
    F_NKINDS
};
extern const char* const g_faultNames [F_NKINDS];

struct Fault { int kind, idx, cnt; int64_t arg; };
enum { MAXARGS = 8, MAXFAULTS = 6 };
struct Step {
    int op, na, nf;
    int64_t a [MAXARGS];
    Fault f [MAXFAULTS];
};
struct Scenario;
enum { MAXCFG = 16 };
struct Plan {
    const Scenario* scn;
    char prop [8];
    int64_t cfg [MAXCFG];
    Vec<Step> steps;
    Plan() : scn(0) { memset(prop,0,sizeof(prop)); memset(cfg,0,sizeof(cfg)); }
    Step& add(int op, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0, int64_t a4 = 0, int64_t a5 = 0) {
	Step s; memset(&s,0,sizeof(s)); s.op = op; s.na = 6; s.a[0]=a0; s.a[1]=a1; s.a[2]=a2; s.a[3]=a3; s.a[4]=a4; s.a[5]=a5;
	steps.push(s); return steps.back();
    }
    bool is(const char* p) const { return !strcmp(p, prop); }
};
inline void addfault(Step& s, int kind, int idx, int cnt, int64_t arg) {
    if (s.nf < MAXFAULTS) { Fault f = { kind, idx, cnt, arg }; s.f[s.nf++] = f; }
}

struct Scenario {
    const char* name;
    const char* props;			// space separated
    const char* const* ops; int nops;
    const char* const* cfgs; int ncfgs;
    const char* const* probes; int nprobes;
    void (*gen)(Rng&, Plan&, bool faults);
    void (*exec)(const Plan&);
};
#define SCENARIO_LIST(v) static const char* const v[]
void register_scenario(const Scenario* s);
struct ScenarioReg { explicit ScenarioReg(const Scenario* s) { register_scenario(s); } };

//---------------------------------------------------------------- run state
enum Sys { SYS_OPEN, SYS_CLOSE, SYS_READ, SYS_WRITE, SYS_LSEEK, SYS_FSYNC, SYS_FSTAT, SYS_FTRUNC, SYS_MMAP, SYS_MUNMAP, SYS_MSYNC, SYS_IOCTL, SYS_FCNTL, SYS_DUP, SYS_UNLINK, SYS_N };
extern const char* const g_sysNames [SYS_N];
struct SysRec { int call, fd; int64_t req, res; int err; int fault; int64_t arg; };

struct Sim {
    const Plan* plan;
    const Step* step;
    int stepno;
    int sysidx;			// system calls seen in this step
    int allocidx;		// allocation requests seen in this step
    int ctoridx;		// element copies seen in this step
    int clkidx;			// clock queries seen in this step
    int64_t stepbudget;		// system calls allowed within this step
    int64_t clock;		// simulated ns
    bool on;			// library code is running
    bool allocfaults;		// this step has failing allocations
    int allocfailed;		// allocations that failed in this step
    bool verbose;
    uint64_t hash, sig;
    Vec<SysRec> trace;		// system calls of this step
    uint64_t nsys, nalloc;
};
extern Sim sim;

struct LibScope { bool o; LibScope() : o(sim.on) { sim.on = true; } ~LibScope() { sim.on = o; } };
struct HxScope { bool o; HxScope() : o(sim.on) { sim.on = false; } ~HxScope() { sim.on = o; } };
#define LIB(...) do { LibScope _ls; __VA_ARGS__; } while (false)

void step_begin(const Plan& p, int i);
bool fault_at(int kind, int idx, Fault* out = 0);	// does the current step inject kind at idx?
void fired(int kind);
void probe(int n);					// scenario specific reach probe

void sim_mix(uint64_t v);
void sim_sig(uint64_t v);
void sim_log(const char* fmt, ...) __attribute__((format(printf,1,2)));
// Reports a violation of prop and ends the run, if this run judges prop
// ("" means any property).
void sim_fail(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf,3,4)));
[[noreturn]] void sim_exit_run(void);
bool judging(const char* prop);
void sim_tick(int64_t ns);

//---------------------------------------------------------------- allocator
size_t arena_live_blocks(void);
size_t arena_live_bytes(void);
size_t arena_peak_bytes(void);
void arena_reset_peak(void);
void arena_check_leaks(const char* prop, const char* what);
void arena_set_limit(size_t bytes);
void* arena_place(size_t n, const void* src);		// n bytes ending exactly at a guard page; readable and writable
void arena_protect_ro(void* p);				// make a placed block read only
size_t arena_block_size(const void* p);			// 0 if not a live arena block
void arena_forget_all(void);				// process died: its memory is gone

//---------------------------------------------------------------- file system
enum NodeType { NT_REG, NT_FIFO, NT_TTY };
enum { FS_NODES = 8, FS_MAXFILE = 1<<20, FS_MAXFD = 64 };
struct Node {
    const char* path;
    int type;
    bool exists;		// visible in the directory
    bool dexists;		// directory entry survives a crash
    bool mapped;		// has been memory mapped since the last sync
    uint8_t* data;		// regular file: contents; fifo, tty: log of everything written to it
    int64_t size;
    Bytes durable;		// contents that survive a crash
    int64_t perms;
    Bytes in;			// fifo, tty: what the peer sends
    int64_t inpos, inavail;	//   consumed by us, arrived so far
    int64_t inchunk;		//   arrival granularity
    int64_t outcap, outdrained;	// fifo: pipe capacity (0 = unlimited), how much the reader took
    int stall;			// EAGAINs still to deliver before the peer acts
    int stallset;		//   how many per episode
    int64_t jitter;		// >0: data arrives in pieces of 1 to jitter bytes
    bool dead;			// fifo: the reader never takes anything
    int64_t base;		// regular file: so many zero bytes (a hole) precede what data holds
};
struct FdRec { bool open; int node; int ofd; uint64_t gen; };
struct OfdRec { int64_t pos; int refs; int flags; };
struct Unsynced { int node; int64_t off, len, dataoff; };	// off -1: truncation to 0
struct FS {
    Node n [FS_NODES];
    FdRec fd [FS_MAXFD];
    OfdRec ofd [FS_MAXFD];
    int64_t capacity;		// free bytes left on the disk, <0 unlimited
    int sticky;			// errno every write fails with while set
    int stickyread;		// errno every read fails with while set
    int stickysync;		// errno every fsync fails with while set
    uint64_t gen;
    int maps; int64_t mappages;	// live mappings
    Vec<Unsynced> unsynced;
    Bytes udata;
};
extern FS fs;
void fs_reset(void);
void fs_node(int i, const char* path, int type, const void* data, int64_t n);	// create; n<0: does not exist yet
int fs_rawopen(int node, int flags);		// harness side open: no faults, no trace
int fs_rawopen_at(int fd, int node, int flags);
void fs_rawclose(int fd);
bool fs_isopen(int fd);
int64_t fs_rawpos(int fd);
void fs_rawseek(int fd, int64_t p);
void fs_crash(uint64_t pick);			// power loss: unsynced effects survive or not as pick decides
int fs_openfds(void);
int fs_flags(int fd);
extern int64_t g_realns, g_monons;		// simulated clocks
extern int64_t g_clkreal [64], g_clkmono [64]; extern int g_nclk;	// their values at each query
extern bool g_demangle;
void bt_config(int nframes, int flavour, bool demangled = false);	// call stack seam
void bt_text(const void* addr, int frame, char* text);	// what the platform says about a frame
extern int g_btcalls;
void rand_config(uint64_t seed, int mode);	// rand() seam
extern uint64_t g_randcalls;

// crash by longjmp out of the library
#include <setjmp.h>
extern jmp_buf g_crashjmp; extern bool g_crasharmed;
