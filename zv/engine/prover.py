"""Discharges verification conditions: normalisation by the term constructors, rewriting with equational facts,
quantifier instantiation, case splitting, and z3 / cvc5 for the arithmetic and propositional rest."""
import time
from . import terms as T
from .terms import *
import z3

STATS = {'vcs': 0, 'simplifier': 0, 'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'z3_queries': 0, 'failed': 0, 'time': 0.0}
TIMEOUT = 6000

def flatten(facts):
    out = []; st = list(facts)[::-1]; seen = set()
    while st:
        f = st.pop()
        if f.op == 'and': st.extend(reversed(f.args)); continue
        if f.op == 'not' and f.args[0].op == 'or':
            st.extend(not_(x) for x in f.args[0].args); continue
        if f is TRUE or f in seen: continue
        seen.add(f); out.append(f)
    return out

HEAPY = ('hbase', 'hst', 'hfam', 'lam')
def _occurs(a, t, memo=None):
    return T.occurs(a, t)

_rank = {'sym': 0, 'var': 1}
def _solvable(a):
    return a.op in ('sym', 'var', 'sel', 'unbox', 'seqget', 'seqlen', 'recget', 'sfield', 'dec', 'b2i', 'unpb', 'slen', 'sref', 'u32of',
                    'bigsum', 'bigprod', 'pint', 'uf', 'abs', 'div', 'unsb', 'mod', 'zn', 'ite', 'i2b', 'hash', 's2b', 'b2s', 'first', 'mapidx', 'mapkey', 'maplen', 'strlen', 'blen')

def orient(f):
    """fact -> (lhs, rhs) rewrite or None"""
    op = f.op
    if op == 'eq0':
        p = f.args[0]
        d = monos(p)
        best = None
        for m, c in d.items():
            if c in (1, -1) and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if not _solvable(a): continue
                if a is Q: continue
                rest = _rm(d, m)
                if c == 1: rest = neg(rest)
                if _occurs(a, rest): continue
                # prefer syms/vars created last
                r = (0 if a.op in ('sym', 'var') else 2 if a.op == 'zn' else 1, -a.id)
                if best is None or r < best[0]: best = (r, a, rest)
        if best: return best[1], best[2]
        # pure monomial equations over squares are left to z3
        return None
    if op == 'geq1':
        g = f.args[0]
        d = dict(g.args) if g.op == 'grp' else {g: ONE}
        best = None
        for a, e in d.items():
            if e.op == 'int' and e.args[0] in (1, -1) and a is not GB:
                if a.op not in ('sym', 'var', 'sel', 'unpb', 'seqget', 'bigprod', 'recget', 'sfield', 'unbox', 'uf'): continue
                rest = {b: x for b, x in d.items() if b is not a}
                r = T._gfrom(rest)
                if e.args[0] == 1: r = ginv(r)
                if _occurs(a, r): continue
                k = (0 if a.op in ('sym', 'var') else 1, -a.id)
                if best is None or k < best[0]: best = (k, a, r)
        if best: return best[1], best[2]
        return None
    if op == 'eq':
        a, b = f.args
        ca, cb = a.op in ('iface', 'blit', 'str', 'pb', 'enc', 'nil', 'nilany', 'alloc', 'gobj', 'gzero', 'fld', 'elem', 'slice', 'cat', 'scat'), \
                 b.op in ('iface', 'blit', 'str', 'pb', 'enc', 'nil', 'nilany', 'alloc', 'gobj', 'gzero', 'fld', 'elem', 'slice', 'cat', 'scat')
        cands = []
        if not ca: cands.append((a, b))
        if not cb: cands.append((b, a))
        # rewrite the younger term to the older one; constructors are never rewritten unless both are
        cands.sort(key=lambda ab: (not (ab[1].op in ('blit', 'str', 'nil', 'nilany', 'gobj')), -ab[0].id))
        if not cands: cands = [(a, b), (b, a)]
        for x, y in cands:
            if x.op in ('nil', 'nilany', 'str', 'blit', 'gobj'): continue
            if not _occurs(x, y): return x, y
        return None
    if op == 'iff':
        a, b = f.args
        if not _occurs(a, b): return a, b
        if not _occurs(b, a): return b, a
        return None
    if op == 'not':
        return f.args[0], FALSE
    if op in ('hastype', 'sel', 'sym', 'var', 'unbox', 'seqget', 'recget', 'sfield', 'uf', 'forall', 'or', 'ite', 'ge0', 'pvalid', 'decok', 'svalid'):
        if f.sort == 'Bool': return f, TRUE
    return None
def _rm(d, m):
    return T._frompoly({k: c for k, c in d.items() if k != m})

class Refuter:
    def __init__(self, facts, deadline, note=None):
        self.deadline = deadline
        self.rules = {}
        self.queue = list(facts)
        self.rest = []            # facts kept (non-rule)
        self.contra = False
        self.tried = set()

    def saturate(self):
        rules = self.rules
        pend = flatten(self.queue); self.queue = []
        pend.reverse()
        while pend:
            if time.time() > self.deadline: return
            f = pend.pop()
            if rules: f = self._rw(f)
            if f is FALSE: self.contra = True; return
            if f is TRUE: continue
            if f.op == 'and' or (f.op == 'not' and f.args[0].op == 'or'):
                pend.extend(flatten([f])); continue
            if f.op == 'not' and f.args[0].op == 'and':
                f = or_(*[not_(x) for x in f.args[0].args])
                if f.op != 'or': pend.append(f); continue
            o = orient(f)
            if o is None:
                if f not in self.rest: self.rest.append(f)
                continue
            l, r = o
            if f.op in ('or', 'forall', 'ge0', 'ite'):
                # keep as a fact and use for rewriting of equal propositions
                self.rest.append(f)
                continue
            # new rule: rewrite everything else with it
            nm = {l: r}
            nr = {}
            for k, v in list(rules.items()):
                k2 = k if not _touch(k, l) else replace(k, nm)
                v2 = v if not _touch(v, l) else replace(v, nm)
                if k2 is k:
                    nr[k] = v2
                else:
                    pend.append(eq(k2, v2))
            rules.clear(); rules.update(nr); rules[l] = r
            keep = []
            for g in self.rest:
                if _touch(g, l): pend.append(replace(g, nm))
                else: keep.append(g)
            self.rest = keep

    def conditions(self):
        """conditions of conditional terms that the facts decide"""
        for _ in range(4):
            facts = set(self.rest)
            conds = {}
            for f in list(self.rest) + list(self.rules.keys()) + list(self.rules.values()):
                for s in subterms(f):
                    if s.op == 'ite' and not any(v.args[0].startswith('$') for v in s.args[0].vars): conds[s.args[0]] = 1
            if not conds or time.time() > self.deadline: return
            dec = {}
            ar = [f for f in self.rest if _arith(f)]
            for c in sorted(conds, key=lambda t: t.id)[:40]:
                if c in facts: dec[c] = TRUE
                elif not_(c) in facts: dec[c] = FALSE
                elif c.op == 'or' and any(d in facts for d in c.args): dec[c] = TRUE
                elif _arith(c):
                    if z3check(ar + [not_(c)], 1500): dec[c] = TRUE
                    elif z3check(ar + [c], 1500): dec[c] = FALSE
            if not dec: return
            memo = {}
            def go(f): return T.iteresolve(f, dec, memo)
            rules = dict(self.rules); self.rules.clear()
            rest = self.rest; self.rest = []
            self.queue = [go(T.eq(k, v) if k.sort != 'Bool' or v not in (TRUE, FALSE) else (k if v is TRUE else not_(k))) for k, v in rules.items()] + [go(g) for g in rest]
            self.saturate()
            if self.contra: return

    def smallmods(self):
        """mod(t, q) is t where the arithmetic facts put t between 0 and 2^500 < q"""
        ts = {}
        for f in list(self.rest) + list(self.rules.keys()) + list(self.rules.values()):
            for s in subterms(f):
                if s.op == 'mod' and s.args[1] is Q and _arith(ge0(s.args[0])) and not any(v.args[0].startswith('$') for v in s.vars): ts[s] = 1
        if not ts: return
        ar = [f for f in self.rest if _arith(f)]
        m = {}
        for t in sorted(ts, key=lambda t: t.id)[:20]:
            if time.time() > self.deadline: return
            a = t.args[0]
            if z3check(ar + [T.lt(a, T.I(0))], 1000) and z3check(ar + [T.ge(a, T.I(2 ** 500))], 1000): m[t] = a
        if not m: return
        rules = dict(self.rules); self.rules.clear()
        rest = self.rest; self.rest = []
        self.queue = [replace(T.eq(k, v) if k.sort != 'Bool' or v not in (TRUE, FALSE) else (k if v is TRUE else not_(k)), m) for k, v in rules.items()] + [replace(g, m) for g in rest]
        self.saturate()

    def bigs(self):
        """sums, products and concatenations over an index range: conditions on the index are decided under the range, a
        position singled out by an equation is taken out (sums) or made the outermost case (concatenations)"""
        for _ in range(4):
            ts = {}
            for f in list(self.rest) + list(self.rules.keys()) + list(self.rules.values()):
                for s in subterms(f):
                    if s.op in ('bigsum', 'bigcat') and s not in self.tried and any(x.op == 'ite' for x in subterms(s.args[2].args[1])): ts[s] = 1
            if not ts or time.time() > self.deadline: return
            ar = [f for f in self.rest if _arith(f)]
            m = {}
            inner = [t for t in ts if not any(u is not t and u in ts for u in subterms(t))]
            for t in sorted(inner, key=lambda t: t.id)[:20]:
                self.tried.add(t)
                r = self._big(t, ar)
                if r is not t: m[t] = r; self.tried.add(r)
            if not m: continue
            rules = dict(self.rules); self.rules.clear()
            rest = self.rest; self.rest = []
            self.queue = [replace(T.eq(k, v) if k.sort != 'Bool' or v not in (TRUE, FALSE) else (k if v is TRUE else not_(k)), m) for k, v in rules.items()] + [replace(g, m) for g in rest]
            self.saturate()
            if self.contra: return
    def _big(self, t, ar):
        lo, hi, l = t.args
        v, b = l.args
        if any(x.args[0].startswith('$') for x in t.vars): return t
        w = freshvar('w', 'Int'); b = subst(b, {v: w})
        rng = [ge0(sub(w, lo)), T.lt(w, hi)]
        def atoms(b):
            out = {}
            for s in subterms(b):
                if s.op == 'ite':
                    for a in subterms(s.args[0]):
                        if a.op in ('ge0', 'eq0') and w in a.vars and _arith(a) and not any(x.args[0].startswith('$') for x in a.vars): out[a] = 1
            return sorted(out, key=lambda a: a.id)
        d = {}
        for a in atoms(b)[:10]:
            if z3check(ar + rng + [not_(a)], 500): d[a] = TRUE
            elif z3check(ar + rng + [a], 500): d[a] = FALSE
        b = replace(b, d) if d else b
        extra = []
        for _ in range(3):
            hit = None
            for a in atoms(b):
                if a.op != 'eq0': continue
                p = monos(a.args[0])
                k = p.get(((w, 1),))
                if k not in (1, -1): continue
                x = mul(I(-k), sub(a.args[0], mul(I(k), w)))
                if w in x.vars: continue
                hit = (a, x); break
            if not hit: break
            a, x = hit
            A = subst(replace(b, {a: TRUE}), {w: x}); B = replace(b, {a: FALSE})
            if t.op == 'bigsum' and not (z3check(ar + [T.lt(x, lo)], 500) and z3check(ar + [T.ge(x, hi)], 500)): break
            extra.append((x, A)); b = B
        if not d and not extra: return t
        if t.op == 'bigsum':
            r = T.bigsum(lo, hi, lam(w, b))
            # later positions first: every correction is relative to the body that remains after it
            for x, A in extra: r = add(r, sub(A, subst(b, {w: x})))
            return r if len(extra) <= 1 else t
        for x, A in reversed(extra): b = ite(T.eq(w, x), A, b)
        return T.bigcat(lo, hi, lam(w, b))

    def units(self):
        """alternatives of a disjunction that the arithmetic facts exclude"""
        for _ in range(8):
            ar = [f for f in self.rest if f.op in ('ge0', 'eq0') and _arith(f)]
            hit = None; n = 0
            fs = set(self.rest)
            for f in self.rest:
                if f.op != 'or': continue
                d = [d for d in f.args if not_(d) in fs]
                if d: hit = (f, d[0]); break
                if len(f.args) > 6 or not ar: continue
                for d in f.args:
                    if d.op not in ('ge0', 'eq0') or not _arith(d): continue
                    n += 1
                    if n > 30 or time.time() > self.deadline: return
                    if (f, d) in self.tried: continue
                    if z3check(ar + [d], 500): hit = (f, d); break
                    self.tried.add((f, d))
                if hit: break
            if not hit: return
            f, d = hit
            self.rest = [g for g in self.rest if g is not f]
            self.queue = [or_(*[x for x in f.args if x is not d])]
            self.saturate()
            if self.contra: return
    def quadratic(self):
        """equations whose leading part is a square are used to reduce every polynomial"""
        for f in list(self.rest):
            if f.op != 'eq0': continue
            d = monos(f.args[0])
            cand = [(m[0][0].id, m, c) for m, c in d.items() if c in (1, -1) and len(m) == 1 and m[0][1] == 2]
            if not cand: continue
            _, m, c = max(cand)
            x = m[0][0]
            rest = _rm(d, m)
            if c == 1: rest = neg(rest)
            if T.occurs(x, rest): continue
            memo = {}
            rules = dict(self.rules); self.rules.clear()
            others = [g for g in self.rest if g is not f]
            self.rest = [f]
            self.queue = [T.polyreduce(T.eq(k, v) if k.sort != 'Bool' or v not in (TRUE, FALSE) else (k if v is TRUE else not_(k)), x, 2, rest, memo) for k, v in rules.items()] + [T.polyreduce(g, x, 2, rest, memo) for g in others]
            self.saturate()
            if self.contra: return

    def _rw(self, f):
        for _ in range(30):
            g = replace(f, self.rules)
            if g is f: return f
            f = g
        return f

def _arith(c):
    if c.op in ('ge0', 'eq0'): return not any(x.op in ('lam', 'ite') for x in subterms(c))
    if c.op in ('and', 'or', 'not'): return all(_arith(a) for a in c.args)
    return False

def _touch(t, l):
    if l.vars and not (l.vars & t.vars) and not any(v.args[0].startswith('$') for v in l.vars): return False
    return T.occurs(l, t)

def unor(f):
    return list(f.args) if f.op == 'or' else [f]

# ------------------------------------------------------------------ z3 back end
class Z3Enc:
    def __init__(self):
        self.memo = {}
        self.sorts = {}
        self.decls = {}
        self.side = []
        self.atoms = set()
    def sort(self, s):
        if s == 'Int': return z3.IntSort()
        if s == 'Bool': return z3.BoolSort()
        if s not in self.sorts: self.sorts[s] = z3.DeclareSort(s)
        return self.sorts[s]
    def decl(self, name, dom, rng):
        k = (name, tuple(dom), rng)
        if k not in self.decls:
            self.decls[k] = z3.Function('%s#%d' % (name, len(self.decls)), *([self.sort(x) for x in dom] + [self.sort(rng)]))
        return self.decls[k]
    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._enc(t); self.memo[t] = r
            if t.sort == 'Int' and t.op not in ('int', 'poly', 'ite') and nonneg(t):
                self.side.append(r >= 0)
            if t.op == 'mod' :
                m = self.enc(t.args[1])
                if t.args[1].op == 'int' or t.args[1] is Q: self.side.append(r < m)
                if t.args[1].op == 'int': self.side.append(self.enc(t.args[0]) == m * z3.Int('quot!%d' % t.id) + r)
            if t.op == 'abs':
                x = self.enc(t.args[0]); self.side.append(z3.Or(r == x, r == -x)); self.side.append(r >= 0)
            if t is Q: self.side.append(r > z3.IntVal(2 ** 500))
            if t.op == 'sym':
                b = CTX.bounds.get(t.args[0])
                if b is not None:
                    lo, hi = b(t)
                    if lo is not None: self.side.append(self.enc(lo) <= r)
                    if hi is not None: self.side.append(r < self.enc(hi))
        return r
    def _enc(self, t):
        op = t.op
        if op == 'int': return z3.IntVal(t.args[0])
        if op == 'bool': return z3.BoolVal(t.args[0])
        if op == 'poly':
            s = []
            for m, c in t.args:
                if not m: s.append(z3.IntVal(c)); continue
                if len(m) == 1 and m[0][1] == 1: x = self.enc(m[0][0])
                else:
                    x = self.mono(m)
                s.append(c * x if c != 1 else x)
            return z3.Sum(s)
        if op == 'ge0': return self.enc(t.args[0]) >= 0
        if op == 'eq0': return self.enc(t.args[0]) == 0
        if op in ('eq', 'iff'): return self.enc(t.args[0]) == self.enc(t.args[1])
        if op == 'not': return z3.Not(self.enc(t.args[0]))
        if op == 'and': return z3.And([self.enc(x) for x in t.args])
        if op == 'or': return z3.Or([self.enc(x) for x in t.args])
        if op == 'ite': return z3.If(self.enc(t.args[0]), self.enc(t.args[1]), self.enc(t.args[2]))
        ts = [a for a in t.args if isinstance(a, Term)]
        if op in ('grp', 'zn', 'lam', 'forall', 'seq', 'bigsum', 'bigprod', 'bigcat', 'bigbag', 'first', 'hst', 'hfam', 'hbase', 'var', 'cat', 'scat', 'bag', 'bag+') or not ts:
            return z3.Const('%s!%d' % (op, t.id), self.sort(t.sort))
        if op == 'sel' and t.args[0].op != 'hbase':
            return z3.Const('sel!%d' % t.id, self.sort(t.sort))
        name = op + ''.join('|' + str(a) for a in t.args if not isinstance(a, Term))
        if op == 'geq1': return z3.Const('geq1!%d' % t.id, z3.BoolSort())
        f = self.decl(name, [a.sort for a in ts], t.sort)
        return f(*[self.enc(a) for a in ts])
    nl = False
    def mono(self, m):
        if self.nl:
            x = None
            for a, e in m:
                for _ in range(e): x = self.enc(a) if x is None else x * self.enc(a)
            return x
        x = z3.Int('m!' + '_'.join('%d^%d' % (a.id, e) for a, e in m))
        if len(m) == 1 and m[0][1] == 2:
            a = self.enc(m[0][0])
            self.side.append(x >= 0); self.side.append(x >= a); self.side.append(x >= -a)
        elif all(nonneg(a) or e % 2 == 0 for a, e in m):
            self.side.append(x >= 0)
        return x

def z3check(facts, timeout, nl=False):
    """True if facts are unsatisfiable."""
    STATS['z3_queries'] += 1
    t0 = time.time()
    e = Z3Enc(); e.nl = nl
    s = z3.Solver()
    s.set('timeout', timeout)
    fs = [e.enc(f) for f in facts]
    for f in fs: s.add(f)
    for f in e.side: s.add(f)
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat: return True
    return False

def eq0raw(k, v):
    if k.sort == 'Bool': return k if v is TRUE else not_(k) if v is FALSE else T.eq(k, v)
    return T.eq(k, v)
_q_cache = {}
def quick(facts, cond):
    """decide cond from facts with z3 only on arithmetic/boolean structure: True / False / None"""
    k = (tuple(facts), cond)
    r = _q_cache.get(k, 0)
    if r != 0: return r
    r = None
    if z3check(list(facts) + [not_(cond)], 1500): r = True
    elif z3check(list(facts) + [cond], 1500): r = False
    _q_cache[k] = r
    return r

# ------------------------------------------------------------------ main entry
class Result:
    def __init__(self, ok, how, info=''):
        self.ok = ok; self.how = how; self.info = info

def prove(facts, goal, timeout=60.0, hints=()):
    """hints: extra index terms for instantiating universally quantified facts"""
    t0 = time.time()
    STATS['vcs'] += 1
    fs = relevant(facts, goal)
    r = _prove(fs, goal, t0 + timeout, 0, hints)
    if not r.ok and goal is FALSE:              # a fact that denies several others: each of them is shown
        for f in fs:
            if f.op == 'not' and f.args[0].op == 'and' and len(f.args[0].args) > 2:
                r = _prove([x for x in fs if x is not f], f.args[0], time.time() + timeout, 0, hints)
                if r.ok: break
    STATS['time'] += time.time() - t0
    if r.ok: STATS['simplifier' if r.how == 'simplifier' else 'z3'] += 1
    else: STATS['failed'] += 1
    return r

_names = {}
def names(t):
    r = _names.get(t)
    if r is None: r = _names[t] = {x.args[0] for x in T.subterms(t) if x.op == 'sym' and x.args[0].startswith('L:')}
    return r
def relevant(facts, goal):
    """without the definitions of loop-carried values that nothing else mentions"""
    recs = [f for f in facts if f in CTX.recs]
    if not recs: return list(facts)
    live = set(names(goal))
    for f in facts:
        if f not in CTX.recs: live |= names(f)
    keep = set(); more = True
    while more:
        more = False
        for f in recs:
            if f not in keep and CTX.recs[f] in live: keep.add(f); live |= names(f); more = True
    return [f for f in facts if f not in CTX.recs or f in keep]

def prove_nl(facts, goal, timeout=20):
    """non-linear integer arithmetic"""
    t0 = time.time(); STATS['vcs'] += 1
    ok = z3check([f for f in flatten(facts) if f.op != 'forall'] + [not_(goal)], int(timeout * 1000), nl=True)
    STATS['time'] += time.time() - t0
    STATS['z3' if ok else 'failed'] += 1
    return Result(ok, 'z3')
def instantiate(f, ws):
    """a weaker formula: every positive universal quantifier replaced by its instances at the given terms"""
    if f.op == 'forall':
        v, b = f.args[0].args
        return and_(*[instantiate(subst(b, {v: w}), ws) for w in ws if w.sort == v.sort])
    if f.op == 'and': return and_(*[instantiate(x, ws) for x in f.args])
    if f.op == 'or': return or_(*[instantiate(x, ws) for x in f.args])
    return f

def skolem(goal):
    v, b = goal.args[0].args
    w = freshvar('sk', v.sort)
    return subst(b, {v: w}), w

def _prove(facts, goal, deadline, depth, hints):
    if goal is TRUE: return Result(True, 'simplifier')
    if goal.op == 'and':
        how = 'simplifier'
        for g in goal.args:
            r = _prove(facts, g, deadline, depth, hints)
            if not r.ok: return r
            if r.how != 'simplifier': how = r.how
        return Result(True, how)
    if goal.op == 'forall':
        b, w = skolem(goal)
        return _prove(facts, b, deadline, depth, tuple(hints) + (w,))
    if goal.op == 'or':
        # prove the last one that is a forall / complex under the negation of the others
        ds = list(goal.args)
        fa = [d for d in ds if d.op == 'forall']
        if fa:
            d = fa[0]; ds.remove(d)
            return _prove(facts + [not_(x) for x in ds], d, deadline, depth, hints)
        ea = [d for d in ds if d.op in ('eq0', 'geq1', 'eq')]
        if ea:
            d = ea[0]; ds.remove(d)
            return _prove(facts + [not_(x) for x in ds], d, deadline, depth, hints)
    if goal.op in ('ite',):
        c, a, b = goal.args
        r = _prove(facts + [c], a, deadline, depth, hints)
        if not r.ok: return r
        return _prove(facts + [not_(c)], b, deadline, depth, hints)
    return refute(facts, goal, deadline, depth, hints)

def matched(b, v, ground):
    """indices at which an indexed message of the quantified body is one that occurs"""
    out = {}
    for x in subterms(b):
        if x.op != 'uf' or x.args[-1].sort != 'Int' or v not in x.args[-1].vars or x.args[:-1] not in ground: continue
        for g in ground[x.args[:-1]]:
            s = T._solve_index(x.args[-1], v, g)
            if s and s[0] is not None: out[s[0]] = 1
    return list(out)

def boundaries(b, v):
    """the values of v at which a bound that the quantified body concludes just fails"""
    out = {}
    def go(x, pos):
        if x.op in ('and', 'or'):
            for y in x.args: go(y, pos)
        elif x.op == 'not': go(x.args[0], not pos)
        elif x.op == 'ge0' and pos and v in x.vars:
            p = x.args[0]; c = subst(p, {v: T.ZERO})
            if v in c.vars: return
            d = T.sub(p, c)
            if d is v: out[T.sub(T.neg(c), T.ONE)] = 1
            elif d is T.neg(v): out[T.add(c, T.ONE)] = 1
    go(b, True)
    return list(out)

def index_terms(ts, hints):
    """candidate Int terms for instantiation: arguments in index positions"""
    out = {}
    for h in hints: out[h] = 0
    for t in ts:
        for s in subterms(t):
            if s.op in ('first', 'mapidx') and not s.vars: out.setdefault(s, 1)
            if s.op == 'elem': out.setdefault(s.args[1], 1)
            elif s.op == 'seqget': out.setdefault(s.args[1], 1)
            elif s.op == 'sym':
                for a in s.args[1:]: out.setdefault(a, 1)
            elif s.op == 'alloc':
                for a in s.args[1:]: out.setdefault(a, 1)
            elif s.op == 'mapkey': out.setdefault(s.args[2], 1)
            elif s.op == 'pair':
                out.setdefault(s.args[1], 2)
    return [t for t in out if not any(v.args[0].startswith('$') for v in t.vars)]

def refute(facts, goal, deadline, depth, hints):
    R = Refuter(list(facts) + [not_(goal)], deadline)
    R.saturate()
    if R.contra: return Result(True, 'simplifier')
    R.quadratic()
    if R.contra: return Result(True, 'simplifier')
    R.conditions()
    if R.contra: return Result(True, 'reduction')
    R.smallmods()
    if R.contra: return Result(True, 'z3')
    R.bigs()
    if R.contra: return Result(True, 'z3')
    R.units()
    if R.contra: return Result(True, 'z3')
    used = set()
    how = 'z3'
    # a refuted universal statement has a counterexample
    neg = [k for k, v in R.rules.items() if k.op == 'forall' and v is FALSE]
    if neg:
        ws = []
        for k in neg:
            del R.rules[k]
            b, w = skolem(k)
            ws.append(w); R.queue.append(not_(b))
        hints = tuple(hints) + tuple(ws)
        R.saturate()
        if R.contra: return Result(True, 'simplifier')
        R.conditions()
        if R.contra: return Result(True, 'z3')
        if any(f.op == 'forall' for f in R.rest):
            # first the propositional and algebraic part alone, then with instances at the witnesses only
            qf = [f for f in _facts_of(R) if f.op != 'forall']
            if refute(qf, FALSE, deadline, max(depth, 3), hints).ok: return Result(True, 'z3')
            ins = [x for x in (instantiate(f, ws) for f in R.rest if f.op == 'forall') if x is not TRUE]
            if refute(qf + ins, FALSE, deadline, max(depth, 2), hints).ok: return Result(True, 'z3')
    for rnd in range(4):
        if time.time() > deadline: break
        if z3check(R.rest, TIMEOUT): return Result(True, 'z3')
        # congruence for big operators in a negated equality goal
        r = _bigcong(R, deadline, depth, hints)
        if r: return Result(True, 'z3')
        fs = [f for f in R.rest if f.op == 'forall']
        if not fs: break
        others = [f for f in R.rest if f.op != 'forall']
        cands = index_terms(others + list(R.rules.values()) + list(R.rules.keys()) , [R._rw(h) for h in hints])
        new = []
        ground = {}
        for t in others + list(R.rules.values()) + list(R.rules.keys()):
            for x in subterms(t):
                if x.op == 'uf' and x.args[-1].sort == 'Int' and not any(y.args[0].startswith('$') for y in x.vars): ground.setdefault(x.args[:-1], {})[x.args[-1]] = 1
        for f in fs:
            v, b = f.args[0].args
            for c in cands + matched(b, v, ground) + (boundaries(b, v) if v.sort == 'Int' else []):
                if c.sort != v.sort: continue
                if (f, c) in used: continue
                used.add((f, c))
                i = subst(b, {v: c})
                if i is not TRUE: new.append(i)
        if not new: break
        if len(new) > 400: new = new[:400]
        R.queue = new
        R.saturate()
        if R.contra: return Result(True, 'z3')
        R.units()
        if R.contra: return Result(True, 'z3')
    if time.time() <= deadline and z3check(R.rest + [eq0raw(k, v) for k, v in R.rules.items() if k.sort in ('Int', 'Bool')], TIMEOUT): return Result(True, 'z3')
    # case split on conditions of ite terms / disjunctions
    if depth < 6 and time.time() < deadline:
        c = _splitcond(R)
        if c is not None:
            base = R.rest + [T.eq(k, v) for k, v in R.rules.items()]
            base = [f for f in base if f is not TRUE]
            r1 = refute(base + [c], FALSE, deadline, depth + 1, hints)
            if r1.ok:
                r2 = refute(base + [not_(c)], FALSE, deadline, depth + 1, hints)
                if r2.ok: return Result(True, 'z3')
                return r2
            return r1
    return Result(False, 'timeout' if time.time() > deadline else 'unknown', R)

def _splitcond(R):
    neg_eq = [f for f in R.rest if f.op in ('not',)] + R.rest
    for f in list(R.rules.keys()) + R.rest:
        for s in sorted(subterms(f), key=lambda t: t.id):
            if s.op == 'ite' and not any(v.args[0].startswith('$') for v in s.args[0].vars) and s.args[0].op not in ('or',):
                return s.args[0]
    for f in R.rest:
        if f.op == 'or' and len(f.args) <= 6:
            for d in f.args:
                if d.op in ('eq0', 'geq1', 'eq', 'not', 'sym', 'sel', 'hastype') : return d
    return None

def _bigcong(R, deadline, depth, hints):
    """a negated equation whose sides differ only in big operators over the same range: compare bodies pointwise"""
    for l, r in list(R.rules.items()):
        if r is not FALSE: continue
        if l.op == 'eq0': ok = _bc_int(R, l.args[0], deadline, depth, hints)
        elif l.op == 'geq1': ok = _bc_grp(R, l.args[0], deadline, depth, hints)
        elif l.op == 'eq' and l.args[0].sort in ('Bytes', 'Seq', 'Bag'): ok = _bc_eq(R, l.args[0], l.args[1], deadline, depth, hints)
        else: continue
        if ok: return True
    return False

def _facts_of(R, skip=None):
    fs = list(R.rest)
    for k, v in R.rules.items():
        if k is skip: continue
        fs.append(T.eq(k, v) if k.sort != 'Bool' else (k if v is TRUE else not_(k) if v is FALSE else T.eq(k, v)))
    return fs

def _lam_eq(R, lo, hi, l1, l2, deadline, depth, hints):
    if depth > 4: return False
    w = freshvar('bi', 'Int')
    g = T.eq(app(l1, w), app(l2, w))
    fs = [f for f in _facts_of(R) if not (f.op == 'not')] + [le(lo, w), lt(w, hi)]
    return _prove(fs, g, deadline, depth + 1, tuple(hints) + (w,)).ok

def _bc_int(R, p, deadline, depth, hints):
    d = monos(p)
    bs = {}
    for m, c in d.items():
        b = [a for a, e in m if a.op == 'bigsum' and e == 1]
        if len(b) != 1: return False
        rest = tuple((a, e) for a, e in m if a is not b[0])
        lo, hi, l = b[0].args
        bs.setdefault((lo, hi), []).append((rest, c, l))
    w = freshvar('bi', 'Int')
    for (lo, hi), items in bs.items():
        s = ZERO
        for rest, c, l in items: s = add(s, mul(monoterm(rest, c), app(l, w)))
        fs = [f for f in _facts_of(R) if f.op != 'not'] + [le(lo, w), lt(w, hi)]
        if depth > 4 or not _prove(fs, T.eq(s, ZERO), deadline, depth + 1, tuple(hints) + (w,)).ok: return False
    return True

def _bc_grp(R, g, deadline, depth, hints):
    d = dict(g.args) if g.op == 'grp' else {g: ONE}
    bs = {}
    for a, e in d.items():
        if a.op == 'bigprod':
            lo, hi, l = a.args
            bs.setdefault((lo, hi), []).append((l, e))
        else:
            # atom with bigsum exponents
            for m, c in monos(e).items():
                b = [x for x, k in m if x.op == 'bigsum' and k == 1]
                if len(b) != 1: return False
                rest = tuple((x, k) for x, k in m if x is not b[0])
                lo, hi, l = b[0].args
                v = freshvar('v', 'Int')
                bs.setdefault((lo, hi), []).append((lam(v, gexp(a, mul(monoterm(rest, c), app(l, v)))), ONE))
    w = freshvar('bi', 'Int')
    for (lo, hi), items in bs.items():
        s = GID
        for l, e in items: s = gmul(s, gexp(app(l, w), e))
        fs = [f for f in _facts_of(R) if f.op != 'not'] + [le(lo, w), lt(w, hi)]
        if depth > 4 or not _prove(fs, T.eq(s, GID), deadline, depth + 1, tuple(hints) + (w,)).ok: return False
    return True

def _bc_eq(R, a, b, deadline, depth, hints):
    if a.op == 'cat' and b.op == 'cat' and len(a.args) == len(b.args): ps = list(zip(a.args, b.args))
    elif a.op == 'bag+' and b.op == 'bag+' and len(a.args) == len(b.args): ps = list(zip(a.args, b.args))
    else: ps = [(a, b)]
    for x, y in ps:
        if x is y: continue
        if x.op == y.op and x.op in ('bigcat', 'bigbag') and x.args[0] is y.args[0] and x.args[1] is y.args[1]:
            if not _lam_eq(R, x.args[0], x.args[1], x.args[2], y.args[2], deadline, depth, hints): return False
        elif x.op == y.op == 'seq' and x.args[0] is y.args[0]:
            if not _lam_eq(R, ZERO, x.args[0], x.args[1], y.args[1], deadline, depth, hints): return False
        elif x.op == y.op == 'seq':
            if not _prove([f for f in _facts_of(R) if f.op != 'not'], T.eq(x.args[0], y.args[0]), deadline, depth + 1, hints).ok: return False
            if not _lam_eq(R, ZERO, x.args[0], x.args[1], y.args[1], deadline, depth, hints): return False
        elif x.sort == y.sort == 'Seq':
            n1, n2 = seqlen(x), seqlen(y)
            if not _prove([f for f in _facts_of(R) if f.op != 'not'], T.eq(n1, n2), deadline, depth + 1, hints).ok: return False
            return False
        else:
            if depth > 4: return False
            fs = [f for f in _facts_of(R) if f.op != 'not']
            if x.sort == y.sort and not (len(ps) == 1) and _prove(fs, T.eq(x, y), deadline, depth + 1, hints).ok: continue
            return False
    return True
