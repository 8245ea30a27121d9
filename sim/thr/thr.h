// Simulated threads.  Library and scenario code is compiled with thread
// sanitizer instrumentation, and the instrumentation calls are this simulator:
// every access to memory that is not the thread's own stack is a scheduling
// point, is checked for data races, and atomic loads may return any value the
// memory model allows.
#pragma once
#include "../core/sim.h"

enum { MAXTHR = 4 };
// Runs the plan's steps, step i on thread a[0] modulo n, and returns when all
// threads are done.  a[7] of a step salts its random decisions.
struct ThrConfig { int n; int rate, brate, stale, spur; };	// permille: preemption per access, switch per step, stale loads, spurious CAS failures
void thr_run(const Plan& p, const ThrConfig& c, void (*dostep)(int tid, int si));
int thr_self(void);				// 0 based; -1 outside of thr_run
void thr_yield(void);				// the thread cannot go on until others do something
// Synchronization made by the harness itself
struct ThrSync { uint32_t vc [MAXTHR]; };
void thr_release(ThrSync& s);
void thr_acquire(const ThrSync& s);
uint64_t thr_now(void);				// grows with every call
extern uint64_t g_switches, g_points, g_stales;
