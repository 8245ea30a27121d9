// Whole file load and save of memory blocks and strings.
#include "common.h"
using namespace ustl;

namespace {
enum { OP_READ, OP_WRITE, OP_FILL, OP_LINK, OP_PEER, OP_ERASE, OP_CAP, OP_DEALLOC, OP_SIZEERR, N_OPS };
const char* const OPS [N_OPS] = { "read_file","write_file","assign","link","peer_writes","erase_some","free_space","clear","unused" };
enum { C_LEN0, C_LEN1, C_JITTER, N_CFG };
const char* const CFG [N_CFG] = { "length_a","length_b","arrival" };
enum { P_LOADED, P_SAVED, P_CREATED, P_REPLACED, P_LOADFAIL, P_SAVEFAIL, P_SHRUNK, P_FULL, P_LINKED, P_EMPTY, P_CLOSEFAIL, P_BIG, N_PROBES };
const char* const PROBES [N_PROBES] = { "loaded","saved","created_file","replaced_longer_file","load_failed","save_failed","file_shrank_while_read","disk_full","loaded_into_linked_block","empty_file","close_failed","large_file" };
enum { NFILE = 4, NOBJ = 4 };	// objects: memblock, memblock, string, cmemlink
const char* const PATHS [NFILE] = { "/d/a", "/d/b", "/d/new", "/d/missing" };

struct World {
    memblock* m [2]; string* s; cmemlink* l;
    Bytes v [NOBJ];		// what each object holds
    bool unk [NOBJ];		// contents not predicted
    const char* src;		// read only block to link to
};
World* W;
const uint8_t* dataof(int o) { return (const uint8_t*)(o < 2 ? (const void*)W->m[o]->cdata() : o == 2 ? (const void*)W->s->c_str() : (const void*)W->l->cdata()); }
size_t sizeofobj(int o) { return o < 2 ? W->m[o]->size() : o == 2 ? W->s->size() : W->l->size(); }

void gen(Rng& r, Plan& p, bool faults)
{
    const int64_t big = r.chance(200) ? 70000 : r.chance(500) ? 5000 : 100;
    p.cfg[C_LEN0] = r.skewed(big); p.cfg[C_LEN1] = r.chance(200) ? 0 : r.skewed(big);
    const bool huge = r.chance(6); if (huge) p.cfg[C_LEN0] = r.range(200000,1000000);
    p.cfg[C_JITTER] = faults && r.chance(400) ? (huge ? 5000 : 100) + r.skewed(big) : 0;
    const bool eErr = faults && r.chance(500), eShort = faults && r.chance(500), eIntr = faults && r.chance(400), eAlloc = faults && r.chance(400), eFull = faults && r.chance(200);
    const int n = 3 + (int)r.skewed(25);
    for (int i = 0; i < n; ++i) {
	const size_t qi = p.steps.size();
	switch (r.below(12)) {
	    case 0: case 1: case 2: case 3: p.add(OP_READ,r.below(3),r.below(NFILE)); break;
	    case 4: case 5: case 6: p.add(OP_WRITE,r.below(NOBJ),r.below(3),r.below(4)); break;
	    case 7: p.add(OP_FILL,r.below(3),r.skewed(big),r.below(1000)); break;
	    case 8: p.add(OP_LINK,r.below(NOBJ),r.skewed(4000)); break;
	    case 9: p.add(OP_PEER,r.below(3),r.skewed(big),r.below(1000)); break;
	    case 10: p.add(OP_ERASE,r.below(3),r.skewed(50),r.skewed(50)); break;
	    default: if (eFull) p.add(OP_CAP,r.chance(600) ? r.skewed(6000) : -1); else p.add(OP_DEALLOC,r.below(3)); break;
	}
	Step& st = p.steps[qi];
	if (!faults || (st.op != OP_READ && st.op != OP_WRITE)) continue;
	if (eErr && r.chance(350)) { static const int errs [] = { 5, 13, 24, 28, 5 }; addfault(st,F_ERR,(int)r.skewed(6),1,errs[r.below(5)]); }
	if (eShort && r.chance(600)) addfault(st,F_SHORT,(int)r.skewed(4),1+(int)r.skewed(30),1+r.skewed(500));
	if (eIntr && r.chance(400)) addfault(st,F_EINTR,(int)r.skewed(6),1+(int)r.skewed(4),0);
	if (eErr && r.chance(150)) addfault(st,F_ZERO,(int)r.skewed(5),1,0);
	if (eAlloc && r.chance(350)) addfault(st,F_ALLOC,(int)r.skewed(2),1+(int)r.skewed(3),0);
    }
}
// what is known to have gone wrong in this step's system calls
bool failed(bool* zero)
{
    bool bad = false;
    for (size_t i = 0; i < sim.trace.size(); ++i) {
	const SysRec& t = sim.trace[i];
	if (t.res < 0 && !(t.err == EINTR && i+1 < sim.trace.size() && sim.trace[i+1].call == t.call && sim.trace[i+1].fd == t.fd)) bad = true;	// unless tried again
	if (t.res == 0 && t.req > 0 && (t.call == SYS_READ || t.call == SYS_WRITE)) { bad = true; if (zero && t.call == SYS_READ) *zero = true; }
    }
    return bad;
}
void verify(int o)
{
    const size_t n = sizeofobj(o); const uint8_t* d = dataof(o);
    if (W->unk[o]) {	// whatever it is, it can be read
	W->v[o].clear(); if (n > 2000000) sim_fail("B01","broken-object","object claims %llu bytes",(unsigned long long)n);
	W->v[o].append(d,n); W->unk[o] = false;
    } else if (n != W->v[o].size() || (n && memcmp(d,W->v[o].data(),n))) { size_t k = 0; while (k < n && k < W->v[o].size() && d[k] == W->v[o][k]) ++k; sim_fail("B01","wrong-contents","object %d holds %llu bytes, expected %llu, first difference at %llu",o,(unsigned long long)n,(unsigned long long)W->v[o].size(),(unsigned long long)k); sim_exit_run(); }
    if (o == 2 && W->s->c_str()[n]) sim_fail("B01","unterminated","the string is not terminated");
    if (o < 2 && !W->m[o]->is_linked() && W->m[o]->capacity() < n) sim_fail("B01","broken-object","capacity %llu below size %llu",(unsigned long long)W->m[o]->capacity(),(unsigned long long)n);
}
void step(int op, const int64_t* a)
{
    Caught c; bool zero = false;
    const int o = (int)((uint64_t)a[0] % (op == OP_WRITE || op == OP_LINK ? NOBJ : 3));
    const int64_t n = hmax<int64_t>(0,hmin<int64_t>(a[1],200000));
    switch (op) {
	case OP_READ: {
	    const int f = (int)((uint64_t)a[1] % NFILE); const Node& nd = fs.n[f];
	    const bool linked = o < 2 && W->m[o]->is_linked() && W->m[o]->size();
	    if (o < 2) TRY(c, W->m[o]->read_file(PATHS[f])); else TRY(c, W->s->read_file(PATHS[f]));
	    const bool bad = failed(&zero);
	    if (c.kind == TH_NONE) {
		if (bad) sim_fail("B01","silent-failure","read_file reported success although a call failed");
		probe(P_LOADED); if (linked) probe(P_LINKED); if (!nd.size) probe(P_EMPTY); if (nd.size > 4096) probe(P_BIG);
		W->v[o].clear(); W->v[o].append(nd.data,nd.size);
	    } else {
		if (!bad && !(c.kind == TH_ALLOC && sim.allocfaults)) sim_fail("B01","spurious-throw","read_file threw %s %s although nothing failed",thname(c.kind),c.op);
		if (c.kind == TH_OTHER) sim_fail("B01","wrong-exception","read_file threw another exception");
		if (zero) probe(P_SHRUNK);
		probe(P_LOADFAIL); W->unk[o] = true;
		for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].call == SYS_CLOSE && sim.trace[i].res < 0 && sim.trace[i].err != EINTR) probe(P_CLOSEFAIL);
	    }
	    break; }
	case OP_WRITE: {
	    const int f = (int)((uint64_t)a[1] % 3); const Node& nd = fs.n[f];
	    const bool existed = nd.exists; const int64_t old = nd.size; const int mode = a[2] == 1 ? 0600 : a[2] == 2 ? 0666 : 0644;
	    const cmemlink& obj = o < 2 ? (const cmemlink&)*W->m[o] : o == 2 ? (const cmemlink&)*W->s : *W->l;
	    if (a[2]) TRY(c, obj.write_file(PATHS[f],mode)); else TRY(c, obj.write_file(PATHS[f]));
	    const bool bad = failed(&zero);
	    if (c.kind == TH_NONE) {
		if (bad) sim_fail("B01","silent-failure","write_file reported success although a call failed");
		if (!nd.exists || nd.size != (int64_t)W->v[o].size() || (nd.size && memcmp(nd.data,W->v[o].data(),nd.size))) sim_fail("B01","wrong-file","the file holds %lld bytes after saving %llu",(long long)nd.size,(unsigned long long)W->v[o].size());
		if (!existed && nd.perms != mode) sim_fail("B01","wrong-file","created with mode %o, expected %o",(unsigned)nd.perms,(unsigned)mode);
		probe(P_SAVED); if (!existed) probe(P_CREATED); else if (old > nd.size) probe(P_REPLACED);
	    } else {
		if (!bad && !(c.kind == TH_ALLOC && sim.allocfaults)) sim_fail("B01","spurious-throw","write_file threw %s %s although nothing failed",thname(c.kind),c.op);
		if (c.kind == TH_OTHER) sim_fail("B01","wrong-exception","write_file threw %s",thname(c.kind));
		for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].err == ENOSPC) probe(P_FULL);
		probe(P_SAVEFAIL);
	    }
	    break; }
	case OP_FILL: {
	    Bytes b; patfill(b,(uint32_t)a[2],n); const void* src = arena_place(n,b.data());
	    if (o < 2) TRY(c, W->m[o]->assign(src,n)); else TRY(c, W->s->assign((const char*)src,n));
	    if (c.kind != TH_NONE) sim_fail("B01","unusable","assigning to the object afterwards threw %s",thname(c.kind));
	    W->v[o] = b; break; }
	case OP_LINK: {
	    const int64_t k = hmin<int64_t>(n,4000);
	    if (o == 2) break;
	    const char* s = W->src + 4000 - k;
	    if (o < 2) { LIB(W->m[o]->deallocate()); LIB(W->m[o]->link((const void*)s,k)); } else LIB(W->l->link(s,k));
	    W->v[o].clear(); W->v[o].append((const uint8_t*)s,k); break; }
	case OP_PEER: { Node& nd = fs.n[o]; Bytes b; patfill(b,(uint32_t)a[2],n); if (n) memcpy(nd.data,b.data(),n); nd.size = n; nd.exists = true; break; }
	case OP_ERASE: {
	    const int64_t sz = sizeofobj(o), at = hmin<int64_t>(n,sz), k = hmin<int64_t>(hmax<int64_t>(0,a[2]),sz-at);
	    if (!k) break;
	    if (o < 2) TRY(c, W->m[o]->erase(W->m[o]->begin()+at,k)); else TRY(c, W->s->erase(W->s->begin()+at,k));
	    if (c.kind != TH_NONE) sim_fail("B01","unusable","erasing afterwards threw %s",thname(c.kind));
	    Bytes b; b.append(W->v[o].data(),at); b.append(W->v[o].data()+at+k,sz-at-k); W->v[o] = b; break; }
	case OP_CAP: fs.capacity = a[0]; break;
	case OP_DEALLOC: if (o < 2) LIB(W->m[o]->deallocate()); else LIB(W->s->clear()); W->v[o].clear(); break;
    }
    for (int i = 0; i < NOBJ; ++i) verify(i);
    check_fd_calls();
    for (size_t i = 0; i < sim.trace.size(); ++i) if (sim.trace[i].err == EBADF) sim_fail("B01","bad-descriptor","%s on descriptor %d which is not open",g_sysNames[sim.trace[i].call],sim.trace[i].fd);
    if (fs_openfds() != 3) sim_fail("B01","fd-leak","%d descriptors are open after the call",fs_openfds()-3);
}
void exec(const Plan& p)
{
    static World w; W = &w;
    for (int i = 0; i < NFILE; ++i) {
	Bytes b; if (i < 2) patfill(b,i+1,hmax<int64_t>(0,hmin<int64_t>(1000000,p.cfg[i ? C_LEN1 : C_LEN0])));
	fs_node(i,PATHS[i],NT_REG,b.data(),i < 2 ? (int64_t)b.size() : -1);
	fs.n[i].jitter = hmax<int64_t>(0,p.cfg[C_JITTER]);
    }
    for (int i = 0; i < 3; ++i) { fs_node(4+i,"/std",NT_FIFO,0,0); fs.n[4+i].path = 0; fs_rawopen_at(i,4+i,O_RDONLY); }
    { Bytes b; patfill(b,77,4000); w.src = (const char*)arena_place(4000,b.data()); arena_protect_ro((void*)w.src); }
    static char mem [4][64] __attribute__((aligned(16)));
    LIB(w.m[0] = new (mem[0]) memblock; w.m[1] = new (mem[1]) memblock; w.s = new (mem[2]) string; w.l = new (mem[3]) cmemlink);
    for (int i = 0; i < NOBJ; ++i) { w.v[i].clear(); w.unk[i] = false; }
    for (int i = 0; i < (int)p.steps.size(); ++i) { step_begin(p,i); step(p.steps[i].op,p.steps[i].a); }
    sim.step = 0;
    LIB(w.m[0]->~memblock(); w.m[1]->~memblock(); w.s->~string());
    arena_check_leaks("B01","after destroying the objects");
}
const Scenario S = { "blk", "B01", OPS, N_OPS, CFG, N_CFG, PROBES, N_PROBES, gen, exec };
ScenarioReg reg (&S);
}
