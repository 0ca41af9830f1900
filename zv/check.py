#!/usr/bin/env python3-vt
"""Check one property: export the SSA of /repo's current tree, generate the obligations of the property's contracts and
lemmas, discharge them; on failure look for a failing input with the replay driver.
usage: check.py PROPERTY [--tier quick|thorough] [--no-replay] [--ssa FILE] [-v]"""
import sys, os, json, time, subprocess, tempfile, shutil, traceback, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('ZV_REPO', '/repo')
TOOLS = '/opt/veriftools/go1.27.3/bin'

def goenv(modfile=None):
    e = dict(os.environ)
    e['PATH'] = TOOLS + ':' + e.get('PATH', '')
    e.setdefault('HOME', '/root')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='1', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    e['GOFLAGS'] = '-mod=mod' + (' -modfile=' + modfile if modfile else '')
    e['GOSUMDB'] = 'off'; e['GONOSUMDB'] = '*'; e['GONOSUMCHECK'] = '1'; e['GOFLAGS'] += ' -buildvcs=false'
    return e

def exporter(tmp):
    b = os.path.join(VERIF, '.cache', 'zvexport')
    if os.path.exists(b) and os.path.getmtime(b) >= max(os.path.getmtime(f) for f in glob.glob(HERE + '/exporter/*')):
        return b
    out = os.path.join(tmp, 'zvexport')
    src = os.path.join(tmp, 'expsrc'); shutil.copytree(HERE + '/exporter', src)
    r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=src, env=goenv(), capture_output=True, text=True, errors='replace')
    if r.returncode: raise RuntimeError('building the exporter failed: ' + r.stderr)
    return out

def modfile(tmp):
    m = os.path.join(tmp, 'zrep.mod')
    shutil.copy(REPO + '/go.mod', m); shutil.copy(REPO + '/go.sum', os.path.join(tmp, 'zrep.sum'))
    return m

def export(tmp):
    out = os.path.join(tmp, 'ssa.json')
    r = subprocess.run([exporter(tmp), REPO, out, './...'], cwd=REPO, env=goenv(modfile(tmp)), capture_output=True, text=True, errors='replace')
    if r.returncode or not os.path.exists(out): raise RuntimeError('SSA export failed: ' + r.stderr[-2000:])
    return out

def setup():
    os.makedirs(os.path.join(VERIF, '.cache'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='zv')
    try:
        b = exporter(tmp)
        if not b.startswith(VERIF): shutil.copy(b, os.path.join(VERIF, '.cache', 'zvexport'))
    finally: shutil.rmtree(tmp)

def load_all():
    import registry
    for d in ('contracts', 'props'):
        for f in sorted(glob.glob(os.path.join(HERE, d, '*.py'))):
            n = os.path.basename(f)[:-3]
            if n != '__init__': importlib.import_module('%s.%s' % (d, n))
    return registry

def short(n): return n.replace('zRep/', '')

class Run:
    def __init__(self, pid, ssa, reg, tier, verbose=False):
        self.pid = pid; self.reg = reg; self.prop = reg.PROPERTIES[pid]; self.ssa = ssa; self.tier = tier; self.verbose = verbose
        self.results = []; self.dropped = {}; self.deadline = time.time() + 600; self.used = set(); self.inlined = set(); self.used_intr = set()
    def mkexec(self, contracts):
        from engine import exec as X, intrinsics, terms
        E = X.Exec(self.prog, intrinsics.INTR, contracts)
        E.compute_globals()
        E.deadline = self.deadline
        return E
    def one(self, name, f, E):
        from engine.exec import T_ERR
        from engine import exec as X, contracts as C
        try:
            return f(E)
        except (X.Unsupported, C.CheckError, C.Branch) as e:
            if self.verbose: traceback.print_exc()
            return [(name, False, 'cannot be translated: %s' % e)]
        except Exception as e:
            if self.verbose: traceback.print_exc()
            return [(name, False, 'verifier error: %s: %s' % (type(e).__name__, e))]
    def run(self):
        from engine import exec as X, contracts as C, goals as G
        self.prog = X.Prog(self.ssa)
        if self.prog.errors and any(not e.startswith('zRep/util/shuffle') and 'openssl' not in e for e in self.prog.errors):
            self.results.append(('type checking', False, str(self.prog.errors[:3]))); return
        p = self.prop
        dropped = {}
        auxdone = {}
        while True:
            contracts = {n: c for n, c in self.reg.CONTRACTS.items() if n not in dropped and n in self.prog.funcs}
            used = set(); self.used_intr = set(); self.inlined = set()
            results = []
            def note(E):
                used.update(E.used_contracts); self.used_intr |= E.used_intr; self.inlined |= E.inlined
            for n in p.contracts:
                c = self.reg.CONTRACTS[n]
                E = self.mkexec(contracts)
                results += [(short(n) if not r[0] else r[0], r[1], r[2]) for r in self.one(short(n), lambda E: C.check_contract(E, c), E)]
                note(E)
            for g in p.goals:
                E = self.mkexec(contracts)
                def rg(E):
                    go = G.Goal(E, g.__name__)
                    g(go)
                    if not go.nlive: go.fail('reachable', 'the lemma reached no state')
                    return go.results
                results += self.one(g.__name__, rg, E)
                note(E)
            # contracts of callees: verified too; one that no longer holds is not used (the body is used instead)
            todo = [n for n in used if n not in p.contracts]
            seen = set()
            bad = None
            auxres = []
            while todo and not bad:
                n = todo.pop()
                if n in seen: continue
                seen.add(n)
                if n not in auxdone:
                    E = self.mkexec(contracts)
                    rs = self.one(short(n), lambda E: C.check_contract(E, self.reg.CONTRACTS[n]), E)
                    auxdone[n] = (rs, set(E.used_contracts), set(E.used_intr), set(E.inlined))
                rs, us, ui, ii = auxdone[n]
                if not all(r[1] for r in rs): bad = n; dropped[n] = [r[0] for r in rs if not r[1]]; break
                auxres += rs; self.used_intr |= ui; self.inlined |= ii
                todo += [u for u in us if u not in p.contracts]
            if bad:
                # everything that relied on the dropped contract has to be redone
                auxdone = {n: v for n, v in auxdone.items() if bad not in v[1] and n != bad}
                if self.verbose: print('  dropped contract of', bad, dropped[bad][:3])
                continue
            break
        self.dropped = dropped
        self.used = seen | set(p.contracts)
        self.results += results + auxres

def replay(pid, prop, tmp, seed, failed):
    """look for a failing input on the real code"""
    tried = []
    for pkg, fname, test in prop.replay:
        src = os.path.join(HERE, 'replay', fname)
        ov = os.path.join(tmp, 'overlay.json')
        rep = {os.path.join(REPO, pkg, 'zv_replay_verif_test.go'): src}
        # the package's own tests are not needed and may not compile against openssl
        for f in glob.glob(os.path.join(REPO, pkg, '*_test.go')):
            rep[f] = os.path.join(tmp, 'empty_test.go')
            pk = [l for l in open(f) if l.startswith('package ')]
            rep[f] = os.path.join(tmp, 'empty_%s' % os.path.basename(f))
            open(rep[f], 'w').write(pk[0] if pk else 'package x\n')
        rep[os.path.join(REPO, 'zvlib', 'zvlib.go')] = os.path.join(HERE, 'replay', 'zvlib', 'zvlib.go')
        json.dump({'Replace': rep}, open(ov, 'w'))
        env = goenv(modfile(tmp)); env['ZV_SEED'] = str(seed); env['TMPDIR'] = tmp
        cmd = ['go', 'test', '-vet=off', '-count=1', '-timeout', '200s', '-overlay', ov, '-run', '^%s$' % test, '-v', './' + pkg]
        try:
            r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, errors='replace', timeout=300)
        except subprocess.TimeoutExpired as e:
            tried.append((test, 'timeout')); continue
        out = r.stdout + r.stderr
        hits = [l.strip() for l in out.splitlines() if 'ZV-FAIL' in l]
        if hits and r.returncode != 0:
            return hits, {'package': pkg, 'driver': 'zv/replay/' + fname, 'test': test, 'command': ' '.join(cmd), 'output': out[-8000:]}
        tried.append((test, 'no failing input' if r.returncode == 0 else 'driver did not finish: ' + out[-1500:]))
    return None, tried

def known(pid):
    out = []
    for f in (os.path.join(VERIF, 'known-findings.txt'),):
        if os.path.exists(f):
            for l in open(f):
                if l.startswith('KNOWN-FINDING: property=%s ' % pid): out.append(l.strip())
    return out

ASSUMPTIONS = [
 'Go int arithmetic and lengths are treated as mathematical integers (no overflow); explicit conversions to uint8/16/32/64 wrap',
 'partial correctness: a path that panics, exits or does not terminate is not required to reach a postcondition',
 'index operations are in range after they executed (an out-of-range index panics)',
 'append returns a slice that does not share memory with any slice read later under its old name',
 'one call at a time: no concurrent modification of the state a function works on',
 'library functions behave as their listed contracts (trusted_base); points and secrets read from state are valid values of the suite',
 'the SSA form of golang.org/x/tools/go/ssa represents the compiled program; z3 and the term normaliser are trusted',
]

def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup': setup(); return 0
    verbose = '-v' in a; noreplay = '--no-replay' in a
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='zv')
    code = 0
    try:
        reg = load_all()
        from engine import prover as P, intrinsics
        if '--ssa' in a: ssa = a[a.index('--ssa') + 1]
        else:
            try: ssa = export(tmp)
            except RuntimeError as e:
                ssa = None; err = str(e)
        run = Run(pid, ssa, reg, tier, verbose)
        if ssa is None: run.results = [('export of the current tree', False, err)]; run.used = set(); run.inlined = set(); run.used_intr = set()
        else: run.run()
        total = len(run.results); ok = sum(1 for r in run.results if r[1])
        failed = [r for r in run.results if not r[1]]
        if total == 0: failed = [('no obligations were generated', False, '')]
        if verbose:
            for r in run.results: print(('ok   ' if r[1] else 'FAIL ') + r[0], '' if r[1] else info(r[2])[:3000])
        kn = known(pid)
        for l in kn: print(l)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        hows = {}
        for r in run.results:
            if r[1]:
                h = getattr(r[2], 'how', 'simplifier'); hows[h] = hows.get(h, 0) + 1
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
              'coverage': {'obligations': total, 'discharged': ok,
                           'checker_cmd': 'python3-vt zv/check.py %s --tier %s' % (pid, tier),
                           'trusted_base': ['%s: %s' % (n, intrinsics.DOC.get(n, '')) for n in sorted(run.used_intr)] + reg.PROPERTIES[pid].trusted,
                           'functions_under_contract': sorted(short(n) for n in run.used),
                           'functions_verified_inline': sorted(short(n) for n in run.inlined),
                           'contracts_not_used_because_they_no_longer_hold': {short(k): v[:5] for k, v in run.dropped.items()},
                           'discharged_by': hows, 'solver_queries': P.STATS['z3_queries'], 'solver_time_s': round(P.STATS['z3_time'], 2),
                           'failed_obligations': [r[0] for r in failed][:50],
                           'samples': [r[0] for r in run.results][:12]},
              'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if failed else 0}
        if failed:
            code = 1
            rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
            rf = os.path.join(rd, '%s.json' % pid)
            rec = {'property': pid, 'failed_obligations': [{'obligation': r[0], 'verifier_output': info(r[2])[:6000]} for r in failed[:20]]}
            hits, det = (None, 'replay not run')
            if not noreplay:
                try: hits, det = replay(pid, run.prop, tmp, seed, failed)
                except Exception as e: det = 'replay error: %r' % e
            rec['replay'] = det; rec['failing_inputs'] = hits or []
            json.dump(rec, open(rf, 'w'), indent=1)
            ev['wall_s'] = round(time.time() - t0, 2)
            for r in failed[:5]: print('failed obligation: %s' % r[0])
            if hits:
                for h in hits[:3]: print('failing input: %s' % h)
                print('VIOLATION property=%s replay=%s' % (pid, rf))
            else:
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rf))
        else:
            print('property %s: %d obligations, all discharged (%.1f s)' % (pid, total, time.time() - t0))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code

def info(i):
    if isinstance(i, tuple): return ' | '.join(info(x) for x in i)
    if hasattr(i, 'how'):
        R = i.info
        if hasattr(R, 'rest'):
            from engine.terms import show
            return '%s: not refuted; remaining facts: %s; rules: %s' % (i.how, [show(x)[:600] for x in R.rest[:25]], [(show(a)[:300], show(b)[:300]) for a, b in list(R.rules.items())[:25]])
        return i.how
    return str(i)

if __name__ == '__main__':
    try: c = main()
    except Exception:
        traceback.print_exc(); c = 2
    sys.stdout.flush()
    os._exit(c)
