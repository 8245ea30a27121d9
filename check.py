#!/usr/bin/env python3
"""Runs the deterministic simulator for one property and judges the outcome.

usage: check.py PROPERTY            search (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py --replay FILE [-v]  replay one recorded violation

exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check.
"""
import os, sys, subprocess, hashlib, json, time, re, shutil, fcntl, struct, array

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
import props as P

WORKERS = 8


def die(msg, code=2):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(code)


# ---------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    files = []
    for n in sorted(os.listdir(REPO)):
        if n.endswith(('.cc', '.h', '.S', '.c')):
            files.append(os.path.join(REPO, n))
    for root in ('sim', 'tools'):
        for d, dirs, fs in os.walk(os.path.join(V, root)):
            dirs.sort()
            for n in sorted(fs):
                if n.endswith(('.cc', '.h', '.mk', '.sh')):
                    files.append(os.path.join(d, n))
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def build(what):
    root = os.path.join(V, 'build')
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(root, tree_hash())
        ok = os.path.join(out, '.ok-' + what)
        if not os.path.exists(ok):
            old = sorted((d for d in os.listdir(root) if re.fullmatch('[0-9a-f]{16}', d) and os.path.join(root, d) != out),
                         key=lambda d: os.path.getmtime(os.path.join(root, d)))
            for d in old[:-3]:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            r = subprocess.run([os.path.join(V, 'tools', 'build.sh'), out, what], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-6000:])
                die('the simulator does not build against %s' % REPO)
            open(ok, 'w').close()
        return out


# ---------------------------------------------------------------- plans
class Plan:
    def __init__(self, text):
        self.head, self.cfg, self.steps = [], [], []
        for ln in text.splitlines():
            w = ln.split()
            if not w or w[0].startswith('#') or w[0] == 'end':
                continue
            if w[0] in ('plan', 'prop', 'scn'):
                self.head.append(ln)
            elif w[0] == 'cfg':
                self.cfg.append([w[1], int(w[2])])
            elif w[0] == 's':
                self.steps.append([w[1], [int(x) for x in w[2:]], []])
            elif w[0] == 'f':
                self.steps[-1][2].append([w[1], int(w[2]), int(w[3]), int(w[4])])

    def text(self):
        o = list(self.head)
        o += ['cfg %s %d' % (k, v) for k, v in self.cfg]
        for op, a, fs in self.steps:
            o.append(' '.join(['s', op] + [str(x) for x in a]))
            o += ['f %s %d %d %d' % tuple(f) for f in fs]
        return '\n'.join(o) + '\nend\n'

    def copy(self):
        return Plan(self.text())


class Runner:
    """Executes plans in one simulator process."""
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def run(self, text):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.exe, 'execmany'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.p.stdin.write(text)
        self.p.stdin.flush()
        return parse_result(self.p.stdout.readline())

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def parse_result(line):
    w = line.split(None, 4)
    if len(w) >= 3 and w[0] == 'RESULT' and w[1] == 'OK':
        return ('OK', '', w[2], '')
    if len(w) >= 4 and w[0] == 'RESULT' and w[1] == 'VIOL':
        return ('VIOL', w[3], w[2], w[4].strip() if len(w) > 4 else '')
    return ('BAD', '', '', line.strip())


def fresh(exe, text):
    """Executes a plan in a process of its own."""
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.plan', delete=False) as f:
        f.write(text)
    try:
        r = subprocess.run([exe, 'exec', f.name], stdout=subprocess.PIPE, text=True)
    finally:
        os.unlink(f.name)
    for ln in r.stdout.splitlines():
        if ln.startswith('RESULT'):
            return parse_result(ln)
    return ('BAD', '', '', r.stdout[-300:])


def minimise(exe, text, cls, budget):
    end = time.time() + budget
    rn = Runner(exe)
    tried = [0]

    def bad(p):
        tried[0] += 1
        r = rn.run(p.text())
        return r[0] == 'VIOL' and r[1] == cls

    best = Plan(text)
    # drop runs of steps
    changed = True
    while changed and time.time() < end:
        changed = False
        n = max(1, len(best.steps) // 2)
        while n >= 1 and time.time() < end:
            i = 0
            while i < len(best.steps) and time.time() < end:
                c = best.copy()
                del c.steps[i:i + n]
                if c.steps and bad(c):
                    best = c
                    changed = True
                else:
                    i += n
            n //= 2
        # drop and simplify faults
        for i in range(len(best.steps)):
            k = 0
            while k < len(best.steps[i][2]) and time.time() < end:
                c = best.copy()
                del c.steps[i][2][k]
                if bad(c):
                    best = c
                    changed = True
                    continue
                f = best.steps[i][2][k]
                if f[2] > 1:
                    c = best.copy()
                    c.steps[i][2][k][2] = 1
                    if bad(c):
                        best = c
                        changed = True
                        continue
                k += 1
        # shrink numbers
        def shrink(get, put):
            nonlocal best, changed
            v = get(best)
            for t in (0, 1, 2, v // 2, v - 1, v - 8):
                if t == v or abs(t) >= abs(v) or time.time() >= end:
                    continue
                c = best.copy()
                put(c, t)
                if bad(c):
                    best = c
                    changed = True
                    return True
            return False
        for i in range(len(best.steps)):
            for k in range(len(best.steps[i][1])):
                n = 0
                while n < 30 and shrink(lambda p: p.steps[i][1][k], lambda p, t: p.steps[i][1].__setitem__(k, t)):
                    n += 1
            for k in range(len(best.steps[i][2])):
                n = 0
                while n < 30 and shrink(lambda p: p.steps[i][2][k][1], lambda p, t: p.steps[i][2][k].__setitem__(1, t)):
                    n += 1
        for i in range(len(best.cfg)):
            n = 0
            while n < 30 and shrink(lambda p: p.cfg[i][1], lambda p, t: p.cfg[i].__setitem__(1, t)):
                n += 1
    rn.close()
    return best.text(), tried[0]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """known_findings.txt: 'known: property=ID class=CLS plan=FILE match=REGEX :: description'"""
    out = []
    path = os.path.join(V, 'known_findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r'known:\s+property=(\S+)\s+class=(\S+)\s+plan=(\S+)\s+match=(.*?)\s+::\s+(.*)', ln)
            if m and m.group(1) == prop:
                out.append(dict(cls=m.group(2), plan=os.path.join(V, m.group(3)), match=m.group(4), what=m.group(5)))
    return out


# ---------------------------------------------------------------- main
def search(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = P.PROPS.get(prop)
    if not spec:
        die('no check for property %s' % prop)
    t0 = time.time()
    ev_path = os.path.join(V, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    rdir = os.path.join(V, 'replays')
    os.makedirs(rdir, exist_ok=True)
    out = build(spec['bin'])
    exe = os.path.join(out, spec['bin'] == 'io' and 'simio' or 'simthr')
    t_build = time.time() - t0

    base = int.from_bytes(hashlib.sha256(('%d/%s/%s' % (seed, prop, 'uSTL')).encode()).digest()[:6], 'big')
    print('property %s tier %s VERIF_SEED %d base seed %d' % (prop, tier, seed, base))
    runs = spec['quick'] if tier == 'quick' else spec['quick'] * 25
    cap = 150 if tier == 'quick' else 560
    per = (runs + WORKERS - 1) // WORKERS
    tmp = os.path.join(out, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(tmp)
    t1 = time.time()
    ps = [subprocess.Popen([exe, 'batch', prop, str(base), str(w), str(per), str(WORKERS), str(cap), os.path.join(tmp, 'w%d' % w)],
                           stdout=subprocess.PIPE, text=True) for w in range(WORKERS)]
    outs = [p.communicate()[0] for p in ps]
    wall_batch = time.time() - t1
    if any(p.returncode for p in ps):
        die('a simulator worker failed: %s' % [p.returncode for p in ps])
    stat, faults, probes, viols = {}, {}, {}, []
    for o in outs:
        seen = False
        for ln in o.splitlines():
            w = ln.split(None, 3)
            if w[0] == 'V':
                viols.append((int(w[1]), w[2], w[3] if len(w) > 3 else ''))
            elif w[0] == 'STAT':
                seen = True
                x = ln.split()
                for k, v in zip(x[1::2], x[2::2]):
                    stat[k] = stat.get(k, 0) + float(v)
            elif w[0] == 'FAULT':
                a = faults.setdefault(w[1], [0, 0])
                a[0] += int(w[2])
                a[1] += int(w[3])
            elif w[0] == 'PROBE':
                probes[w[1]] = probes.get(w[1], 0) + int(w[2])
        if not seen:
            die('a simulator worker gave no statistics')
    sigs = set()
    hashes = {}
    for w in range(WORKERS):
        a = array.array('Q')
        with open(os.path.join(tmp, 'w%d.sig' % w), 'rb') as f:
            a.frombytes(f.read())
        sigs.update(a)
        with open(os.path.join(tmp, 'w%d.hash' % w), 'rb') as f:
            d = f.read()
        for i in range(0, len(d), 16):
            s, h = struct.unpack_from('QQ', d, i)
            hashes[s] = h
    sigs.discard(0)
    shutil.rmtree(tmp, ignore_errors=True)

    # determinism: a sample of the seeds again, in other processes, in another order and grouping
    nsample = 400 if tier == 'quick' else 4000
    keys = sorted(hashes)
    step = max(1, len(keys) // nsample)
    sample = keys[::step]
    mism = []
    chunk = (len(sample) + 4) // 5
    dps = []
    for c in range(0, len(sample), max(1, chunk)):
        part = sample[c:c + chunk]
        st = step if len(part) > 1 else 1
        if len(set(b - a for a, b in zip(part, part[1:]))) > 1:
            st = None
        if st is not None and len(part) > 1:
            st = part[1] - part[0]
        if st is None:      # uneven because workers stopped early: one process per seed range
            for s in part[:40]:
                dps.append(subprocess.Popen([exe, 'hashes', prop, str(s), '0', '1', '1'], stdout=subprocess.PIPE, text=True))
        else:
            dps.append(subprocess.Popen([exe, 'hashes', prop, str(part[0]), '0', str(len(part)), str(st)], stdout=subprocess.PIPE, text=True))
    ndet = 0
    for p in dps:
        for ln in p.communicate()[0].splitlines():
            w = ln.split()
            ndet += 1
            if hashes.get(int(w[1])) != int(w[2]):
                mism.append(int(w[1]))
    if mism:
        die('nondeterministic: seeds %s gave different event histories when run twice' % mism[:5])

    # violations: one per class, minimised, each confirmed by replay
    kf = known_findings(prop)
    reported, known_hit = [], []
    order = []
    for v in sorted(viols):
        if v[1] not in [o[1] for o in order]:
            order.append(v)
    extra = [v for v in sorted(viols) if v not in order]
    for s, cls, msg in order + (extra if kf else []):
        if reported and cls in [r[1] for r in reported]:
            continue
        txt = subprocess.run([exe, 'plan', prop, str(s)], stdout=subprocess.PIPE, text=True).stdout
        r1, r2 = fresh(exe, txt), fresh(exe, txt)
        if r1[0] != 'VIOL' or r1 != r2 or r1[1] != cls:
            die('seed %d reported %s but replaying it gave %s / %s' % (s, cls, r1, r2))
        small, tried = minimise(exe, txt, cls, 25 if len(reported) < 2 else 8)
        r3, r4 = fresh(exe, small), fresh(exe, small)
        if r3[0] != 'VIOL' or r3 != r4 or r3[1] != cls:
            die('minimised seed %d does not replay: %s / %s' % (s, r3, r4))
        k = [f for f in kf if f['cls'] == cls and re.search(f['match'], r3[3])]
        if k:
            known_hit.append(k[0]['what'])
            continue
        path = os.path.join(rdir, '%s-%s-%d.plan' % (prop, re.sub(r'\W+', '_', cls), s))
        with open(path, 'w') as f:
            f.write('# property %s violated: %s\n# %s\n# seed %d (VERIF_SEED %d), minimised with %d executions\n# replay: ./check.py --replay %s\n# history hash %s\n'
                    % (prop, cls, r3[3], s, seed, tried, path, r3[2]))
            f.write(small)
        reported.append((path, cls, r3[3], s))
    for f in kf:
        with open(f['plan']) as fh:
            r = fresh(exe, fh.read())
        if r[0] == 'VIOL' and r[1] == f['cls']:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))

    # evidence
    samples = []
    for s in keys[:1] + keys[len(keys) // 2:len(keys) // 2 + 1] + keys[-1:]:
        txt = subprocess.run([exe, 'plan', prop, str(s)], stdout=subprocess.PIPE, text=True).stdout
        r = fresh(exe, txt)
        samples.append({'seed': s, 'plan': txt.splitlines(), 'outcome': r[0] + (' ' + r[1] if r[1] else ''), 'history_hash': r[2]})
    nruns = int(stat['runs'])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': nruns,
            'distinct_nontrivial': len(sigs),
            'rule': 'one evaluation is one simulated run generated from one seed (a workload of library calls plus the faults injected into it); '
                    'two runs are distinct when the sequence of (operation, seam call kind, outcome class, injected fault kind) differs; '
                    'runs in which no call of the library reached a seam (system call, allocation, clock, element copy, scheduling point) are trivial and not counted',
            'samples': samples,
            'base_seed': base,
            'runs_per_hour': int(nruns * 3600 / max(wall_batch, 1e-3)),
            'seeds_per_hour': int(nruns * 3600 / max(wall_batch, 1e-3)),
            'workers': WORKERS,
            'steps_executed': int(stat['steps']),
            'simulated_system_calls': int(stat['syscalls']),
            'simulated_allocations': int(stat['allocs']),
            'simulated_seconds': round(stat['simns'] / 1e9, 6),
            'runs_without_any_fault': int(stat['faultless']),
            'faults_injected': {k: {'times': v[0], 'runs': v[1]} for k, v in sorted(faults.items())},
            'reach_probes': probes,
            'probes_never_hit': sorted(k for k, v in probes.items() if not v),
            'determinism_reruns_identical': ndet,
            'real_components': spec['real'],
            'stubbed_components': spec['stub'],
            'known_findings_seen': known_hit,
            'build_s': round(t_build, 1),
        },
        'assumptions': spec['assume'],
        'wall_s': round(time.time() - t0, 1),
        'violations': len(reported),
    }
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%d runs, %d distinct histories, %d without faults, %.1f s, faults %s' % (nruns, len(sigs), int(stat['faultless']), time.time() - t0,
          ' '.join('%s=%d' % (k, v[0]) for k, v in sorted(faults.items()))))
    for path, cls, msg, s in reported:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  seed %d %s: %s' % (s, cls, msg))
    return 1 if reported else 0


def replay(path, verbose):
    txt = open(path).read()
    m = re.search(r'^prop (\S+)', txt, re.M)
    prop = m.group(1)
    out = build(P.PROPS[prop]['bin'])
    exe = os.path.join(out, P.PROPS[prop]['bin'] == 'io' and 'simio' or 'simthr')
    r = subprocess.run([exe, 'exec', path] + (['-v'] if verbose else []), stdout=subprocess.PIPE, text=True)
    print(r.stdout, end='')
    if 'RESULT VIOL' in r.stdout:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if 'RESULT OK' in r.stdout else 2


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay' and len(a) > 1:
        sys.exit(replay(a[1], '-v' in a))
    if a and a[0] == '--build':
        build(a[1] if len(a) > 1 else 'all')
        sys.exit(0)
    if len(a) != 1:
        die(__doc__)
    sys.exit(search(a[0]))
