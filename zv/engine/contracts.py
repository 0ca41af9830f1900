"""Contracts: one declarative definition per function, used in two ways.
 * at a call site it replaces the call (precondition becomes an obligation, effect and results are applied);
 * in the check of the function itself the body is executed symbolically and every outcome is compared with the
   definition: results, every memory cell the contract mentions, and the frame (nothing else that existed before the
   call was changed)."""
import time
from . import terms as T
from .terms import *
from . import prover as P
from .exec import Unsupported, Outcome, State, blen, strlen, T_ERR

class Branch(Exception): pass

class Spec:
    """the view a contract definition has of a call"""
    def __init__(self, E, st, args, site, ks, decisions, mode):
        self.E = E; self.st = st; self.pre_st = st.copy(); self.args = args; self.site = site; self.ks = ks
        self.decisions = decisions; self.nd = 0; self.mode = mode
        self.reqs = []; self.asms = []; self.result = None; self.outs = []; self.names = 0; self.stopped = False
        self.pending = None; self.rands = []; self.rn = {}; self.flags = []; self.lemmas = []; self.partial = False; self.optional = False; self.alts = False
    def outf(self, hint, sort):
        """an output for every index: function of the index"""
        self.names += 1
        n = '%s:%s%d' % (self.site, hint, self.names); ks = self.ks
        self.outs.append(sym(n, sort, *(ks + (freshvar('w', 'Int'),))))
        return lambda i: sym(n, sort, *(ks + (i,)))
    # --- reading the pre-state
    def pv(self, r): return self.E.pv(self.pre_st, r)
    def sv(self, s): return self.E.sv(self.pre_st, s)
    def bi(self, r): return self.E.bi(self.pre_st, r)
    def load(self, t, a): return self.E.load(self.pre_st, t, a)
    def f(self, r, t, name):
        """field `name` of struct type t at r (or of a struct value)"""
        E = self.E
        for i, fd in enumerate(E.p.fields(t)):
            if fd['name'] == name:
                return E.load(self.pre_st, fd['t'], fld(r, E.fname(t, i)))
        raise Unsupported('no field %s in %s' % (name, t))
    def faddr(self, r, t, name):
        E = self.E
        for i, fd in enumerate(E.p.fields(t)):
            if fd['name'] == name: return fld(r, E.fname(t, i))
        raise Unsupported('no field %s in %s' % (name, t))
    def at(self, s, i, et): return self.E.load(self.pre_st, et, self.E.elem_addr(s, i))
    def param(self, m, key, t='[]byte', mt='map[string]interface{}'):
        """params[key].(t) of a message"""
        ok, v, et = self.E.mapget(self.pre_st, mt, m, S(key))
        return T.unbox(t, v, self.E.p.sort(t))
    def has(self, m, key, mt='map[string]interface{}'):
        return self.E.mapget(self.pre_st, mt, m, S(key))[0]
    def glob(self, name, t):
        """value of a global variable of type t"""
        return self.E.load(self.pre_st, t, gobj(name))
    def mget(self, mt, m, k, at=None):
        """(present, value) of a map entry (at: in another state of the call)"""
        at = at or self.pre_st; n = len(at.facts)
        ok, v, et = self.E.mapget(at, mt, m, k)
        if at is not self.st:
            for x in at.facts[n:]: self.st.assume(x)        # consequences of what is known
        return ok, v
    def mset(self, mt, m, k, v): self.E.mapset(self.st, mt, m, k, v)
    def mdel(self, mt, m, k): self.E.mapdel(self.st, mt, m, k)
    def struct(self, t, **fields):
        """struct value; fields not given are zero"""
        p = self.E.p
        return struct(p.canon(t), *[fields.get(f['name'], None) if f['name'] in fields else p.zero(f['t']) for f in p.fields(t)])
    def vf(self, v, t, name):
        """field of a struct value"""
        for i, fd in enumerate(self.E.p.fields(t)):
            if fd['name'] == name: return self.E.field(v, i)
        raise Unsupported('no field %s in %s' % (name, t))
    # --- clauses
    def requires(self, f, text=''):
        self.reqs.append((f, text))
    def assume(self, f): self.asms.append(f)
    def trust(self, f):
        """a mathematical fact about the outputs that callers may use and that is not checked (listed in the evidence)"""
        if self.mode == 'call': note_units(f); self.asms.append(f)
    def know(self, f):
        """assume, effective for the reads that follow"""
        self.asms.append(f)
        if self.mode == 'call': self.st.assume(f); self.pre_st.assume(f)
    def case(self, cond):
        """split the contract on a condition of the pre-state (or of outputs)"""
        if cond is TRUE: return True
        if cond is FALSE: return False
        if self.nd < len(self.decisions): d = self.decisions[self.nd]
        else:
            self.pending = True
            self.decisions = self.decisions + (True,); d = True
        self.nd += 1
        self.asms.append(cond if d else not_(cond))
        return d
    def alt(self):
        """two outcomes the contract allows alike: an implementation is free to choose, a caller must expect both"""
        if self.nd < len(self.decisions): d = self.decisions[self.nd]
        else:
            self.decisions = self.decisions + (True,); d = True
        self.nd += 1; self.alts = True
        return d
    def out(self, hint, sort, modq=False, nonneg=False):
        self.names += 1
        n = '%s:%s%d' % (self.site, hint, self.names)
        if modq: CTX.symmod[n] = Q
        if nonneg: CTX.symnonneg.add(n)
        v = sym(n, sort, *self.ks)
        self.outs.append(v)
        if modq: self.flags.append((v, 'q'))
        if nonneg: self.flags.append((v, '0'))
        return v
    def lemma(self, kind, x):
        """argument that stopping paths are infeasible: ('trust', fact), ('nl', step proved by arithmetic),
        ('inst', terms at which the universal facts are instantiated)"""
        self.lemmas.append((kind, x))
    def all(self, n, fn):
        """fn(i) for every 0 <= i < n"""
        w = freshvar('i', 'Int'); save = self.pre_st
        self.pre_st = save.copy(); self.pre_st.assume(ge0(w)); self.pre_st.assume(lt(w, n))
        b = fn(w); self.pre_st = save
        return forall(w, or_(not_(and_(ge0(w), lt(w, n))), b))
    def distinct(self, n, fn):
        """fn(0), ..., fn(n-1) are different"""
        return T.distinct(n, self.inrange(n, fn))
    def first(self, n, fn):
        """the first 0 <= i < n with fn(i), or n"""
        w = freshvar('i', 'Int'); save = self.pre_st
        self.pre_st = save.copy(); self.pre_st.assume(ge0(w)); self.pre_st.assume(lt(w, n))
        b = fn(w); self.pre_st = save
        r = T.first(n, lam(w, b))
        if r.op == 'first': self.asms += T.first_facts(r)
        return r
    def entries(self, mt, m, after=False):
        """the entries of a map in the order of iteration: (number, i -> key, i -> value); after: with what has been set so far"""
        at = self.st if after else self.pre_st
        n, hd, hv, facts = self.E.mapiter(at, mt, m)
        w = freshvar('i', 'Int'); u, ty = self.E.p.under(mt); ks = self.E.p.sort(ty['key'])
        self.asms += facts
        key = lambda i: mk('mapkey', (hd, m, i), ks)
        self.asms.append(forall(w, or_(not_(and_(ge0(w), lt(w, n))), sel(hd, pair(m, key(w)), 'Bool', self.E.decide(at)))))
        return n, key, lambda i: self.mget(mt, m, key(i), at)[1]
    def secure(self, s):
        """the stream is the secure random source (or a cipher with a random key)"""
        from .intrinsics import secure
        return TRUE if secure(self.E, self.pre_st, s) else eq(s, gobj('random.Stream'))
    def may_stop(self):
        """the call may also end the process (error of a dependency)"""
        self.partial = True
    def random(self, hint='r'):
        """an exponent drawn from the secure random source during the call"""
        self.names += 1
        n = 'pick:%s:%s%d' % (self.site, hint, self.names)
        CTX.symmod[n] = Q
        v = sym(n, 'Int', *self.ks)
        self.outs.append(v); self.rands.append((v, 'pick:'))
        return v
    def randf(self, hint='r', n=None):
        """an exponent for every index (below n), each drawn on its own"""
        self.names += 1; n0 = n
        n = 'pick:%s:%s%d' % (self.site, hint, self.names); ks = self.ks
        CTX.symmod[n] = Q
        v = sym(n, 'Int', *(ks + (freshvar('w', 'Int'),)))
        self.outs.append(v); self.rands.append((v, 'pick:', n0)); self.rn[n] = n0
        return lambda i: sym(n, 'Int', *(ks + (i,)))
    def permf(self, n, hint='s'):
        """a permutation of 0..n-1, unknown otherwise"""
        self.names += 1
        nm = 'perm:%s:%s%d' % (self.site, hint, self.names); ks = self.ks
        CTX.permn[nm] = n
        v = sym(nm, 'Int', *(ks + (freshvar('w', 'Int'),)))
        self.outs.append(v); self.rands.append((v, 'perm:', n))
        if self.mode == 'call':
            w = freshvar('w', 'Int'); x = sym(nm, 'Int', *(ks + (w,)))
            self.st.assume(forall(w, or_(not_(and_(ge0(w), lt(w, n))), and_(ge0(x), lt(x, n)))))
        return lambda i: sym(nm, 'Int', *(ks + (i,)))
    def randint(self, mod, hint='n'):
        """an integer drawn uniformly from [0, mod) with the secure random source during the call"""
        self.names += 1
        n = 'randint:%s:%s%d' % (self.site, hint, self.names)
        CTX.symnonneg.add(n)
        v = sym(n, 'Int', mod, *self.ks)
        self.outs.append(v); self.rands.append((v, 'randint:', None))
        if self.mode == 'call' and not v.vars: self.st.assume(lt(v, mod))
        return v
    def randintf(self, mod, n, hint='n'):
        """an integer drawn uniformly from [0, mod) for every index below n, each drawn on its own"""
        self.names += 1
        nm = 'randint:%s:%s%d' % (self.site, hint, self.names); ks = self.ks
        CTX.symnonneg.add(nm)
        v = sym(nm, 'Int', mod, *(ks + (freshvar('w', 'Int'),)))
        self.outs.append(v); self.rands.append((v, 'randint:', n)); self.rn[nm] = n
        if self.mode == 'call':
            w = freshvar('w', 'Int'); x = sym(nm, 'Int', mod, *(ks + (w,)))
            self.st.assume(forall(w, lt(x, mod)))
        return lambda i: sym(nm, 'Int', mod, *(ks + (i,)))
    def genprime(self, hint='g'):
        """a newly generated 512-bit safe prime: s with 2s+1"""
        from .intrinsics import primefacts
        self.names += 1
        n = 'genprime:%s:%s%d' % (self.site, hint, self.names)
        CTX.symnonneg.add(n)
        v = sym(n, 'Int', *self.ks)
        self.outs.append(v); self.rands.append((v, 'genprime:'))
        if self.mode == 'call':
            for f in primefacts(add(v, v, ONE)): self.st.assume(f)
        return v
    def randbool(self, hint='b'):
        self.names += 1
        v = sym('randbool:%s:%s%d' % (self.site, hint, self.names), 'Bool', *self.ks)
        self.outs.append(v); self.rands.append((v, 'randbool:'))
        return v
    def fresh(self, hint='o'):
        self.names += 1
        return alloc('%s!%s%d' % (self.site, hint, self.names), *self.ks)
    def freshf(self, hint='o'):
        """a new object for every index"""
        self.names += 1
        n = '%s!%s%d' % (self.site, hint, self.names); ks = self.ks
        return lambda i: alloc(n, *(ks + (i,)))
    def inrange(self, n, fn):
        """fn(i) as a function, read under 0 <= i < n"""
        w = freshvar('w', 'Int'); p0 = self.pre_st
        self.pre_st = p0.copy(); self.pre_st.assume(ge0(w)); self.pre_st.assume(lt(w, n))
        v = fn(w)
        self.pre_st = p0
        return lam(w, v)
    def family(self, heap, n, key, val):
        """cells key(i) become val(i) for every i < n"""
        w = freshvar('w', 'Int')
        h = self.st.heaps.get(heap)
        if h is None and heap in self.E.SPECIAL: h = self.E.heap(self.st, heap, *self.E.SPECIAL[heap])
        if h is None:
            t = heap[2:]
            h = self.E.heap(self.st, heap, self.E.p.sort(t), self.E.p.zero(t))
        self.st.heaps[heap] = hfam(h, n, lam(w, key(w)), self.inrange(n, val), lam(w, TRUE))
    def mfamily(self, mt, m, n, key, val):
        """entries key(i) of a map become val(i) for every i < n, later ones last"""
        nd, hd, nv, hv, x = self.E.mheaps(self.st, mt)
        self.family(nd, n, lambda i: pair(m, key(i)), lambda i: TRUE)
        self.family(nv, n, lambda i: pair(m, key(i)), val)
    def newpoint(self, g):
        r = self.fresh('pt'); self.E.sp_store(self.st, 'PV', r, g); return r
    def newsecret(self, v):
        r = self.fresh('sec'); self.E.set_sv(self.st, r, v); return r
    def newbig(self, v):
        r = self.fresh('big'); self.E.sp_store(self.st, 'BI', r, v); return r
    def newstruct(self, t, **fields):
        """fresh struct object; fields not given are zero"""
        E = self.E; r = self.fresh('st')
        names = {}
        for i, fd in enumerate(E.p.fields(t)):
            names[fd['name']] = (i, fd['t'])
        for k, v in fields.items():
            i, ft = names[k]
            E.store(self.st, ft, fld(r, E.fname(t, i)), v)
        return r
    def setpv(self, r, g): self.E.sp_store(self.st, 'PV', r, g)
    def setsv(self, r, v): self.E.set_sv(self.st, r, v)
    def setbi(self, r, v): self.E.sp_store(self.st, 'BI', r, v)
    def setf(self, r, t, name, v):
        E = self.E
        for i, fd in enumerate(E.p.fields(t)):
            if fd['name'] == name:
                E.store(self.st, fd['t'], fld(r, E.fname(t, i)), v); return
        raise Unsupported('no field ' + name)
    def setat(self, s, i, et, v): self.E.store(self.st, et, self.E.elem_addr(s, i), v)
    def setglob(self, name, t, v): self.E.store(self.st, t, gobj(name), v)
    def newslice(self, et, n, fn, when=None):
        """fresh slice of length n; fn(i) -> element (Spec-created objects inside are indexed by i), zero where `when` does not hold"""
        s = slice_(self.fresh('sl'), ZERO, n)
        self.fill(s, et, n, fn, when)
        return s
    def append(self, et, s, *vals):
        """a slice holding the elements of s followed by vals"""
        E = self.E; A = self.fresh('sl')
        E.copy_slice(self.st, et, A, ZERO, s)
        for j, v in enumerate(vals): E.store(self.st, et, elem(A, add(slen(s), I(j))), v)
        return slice_(A, ZERO, add(slen(s), I(len(vals))))
    def fill(self, sl, et, n, fn, when=None):
        """the first n elements of a slice become fn(i)"""
        w = freshvar('w', 'Int')
        s0 = self.st; E = self.E
        before = dict(s0.heaps)
        self.st = s0.copy()
        ks0 = self.ks; self.ks = ks0 + (w,); r0 = len(self.rands)
        p0 = self.pre_st; self.pre_st = p0.copy(); self.pre_st.assume(ge0(w)); self.pre_st.assume(lt(w, n))
        v = fn(w)
        self.pre_st = p0
        E.store(self.st, et, E.elem_addr(sl, w), v)
        after = self.st; self.st = s0; self.ks = ks0
        for rv, *_ in self.rands[r0:]:
            if rv.args[-1] is w: self.rn[rv.args[0]] = n       # one draw for every index below n
        for nm, h in after.heaps.items():
            b = before.get(nm)
            if b is None: b = hbase(nm, 'init', 0)
            if h is b: continue
            ws = []; x = h
            while x is not b:
                if x.op != 'hst': raise Unsupported('nested newslice')
                ws.append((x.args[1], x.args[2])); x = x.args[0]
            cur = s0.heaps.get(nm, b)
            for k, val in reversed(ws):
                cur = hfam(cur, n, lam(w, k), lam(w, val), lam(w, TRUE if when is None else when(w)))
            s0.heaps[nm] = cur
    def sends(self, dst, etype, src, **params):
        """the call sends an event to the address object dst; parameters are (Go type, value) or an interface value"""
        self.E.add_sent(self.st, event(self.E, self.pre_st, dst, etype, src, params))
    def sends_all(self, n, dst, etype, src, when=TRUE, **params):
        """the same event to dst(0), ..., dst(n-1)"""
        b = T.bigbag(ZERO, n, self.inrange(n, lambda i: bag1(event(self.E, self.pre_st, dst(i), etype, src, params))))
        self.st.heaps['$sent'] = bagadd(self.E.sent(self.st), ite(when, b, BAGE))
    def calls(self, name, argof):
        """one call of a function whose calls are observed; argof(i, type) is the i-th argument"""
        self.E.add_sent(self.st, observed_call(self.E, self.pre_st, name, argof))
    def ret(self, *vals): self.result = list(vals)
    def rejects(self, *vals):
        """the input is refused: the call returns the given values or does not return; either way nothing else happens"""
        self.result = list(vals); self.partial = True; self.optional = True
    def stops(self): self.stopped = True      # the call does not return

EVENTKIND = 'gob:{EventType:int,Params:map[string]iface,SrcAddr:string}'
def event(E, st, dst, etype, src, params):
    from .intrinsics import tcpstr
    out = []
    for k in sorted(params):
        v = params[k]
        out += [S(k), iface(*v) if isinstance(v, tuple) else v]
    m = mk('mrec', tuple(out), 'Map')
    return pair(dst if dst.sort == 'Str' else tcpstr(E, st, dst), T.enc(EVENTKIND, T.rec(EVENTKIND[4:], I(etype) if isinstance(etype, int) else etype, m, tcpstr(E, st, src))))
class Contract:
    def __init__(self, name, fn, role='aux', prop=None, doc=''):
        self.name = name; self.fn = fn; self.role = role; self.doc = doc or (fn.__doc__ or '')
        self.prop = prop
        self.stubs = ()         # callees of which only the calls are observed
    def cases(self, E, st, args, site, ks, mode):
        """all cases of the contract: list of Spec"""
        out = []
        stack = [()]
        while stack:
            dec = stack.pop()
            sp = Spec(E, st.copy(), args, site, ks, dec, mode)
            self.fn(sp, *args)
            out.append(sp)
            for i in range(len(dec), len(sp.decisions)):
                stack.append(sp.decisions[:i] + (False,))
            if len(out) > 64: raise Unsupported('too many contract cases')
        return out
    def apply(self, E, st, args, site, ks):
        outs = []
        for sp in self.cases(E, st, args, site + '~' + self.name.split('/')[-1], ks, 'call'):
            s = sp.st
            ok = True
            for a in sp.asms: ok = s.assume(a) and ok
            if not ok or s.dead: continue
            if any(is_ar(a) for a in sp.asms) and len(sp.decisions) and E.quick(s, FALSE) is True: continue
            for f, text in sp.reqs:
                E.require(s, f, 'precondition of %s: %s' % (self.name, text))
            if len(sp.decisions):
                s.br = list(s.br) + list(sp.asms)
            if sp.stopped: outs.append(Outcome('panic', s, [NIL]))
            else: outs.append(Outcome('ret', s, sp.result or []))
        return outs

def is_ar(a): return a.op in ('ge0', 'eq0') 

class Obl:
    """one verification condition"""
    def __init__(self, name, facts, goal, hints=()):
        self.name = name; self.facts = facts; self.goal = goal; self.hints = hints

class CheckError(Exception): pass

def observed_call(E, st, name, argof):
    """what a stub records: its name and, per parameter, what the type says of the argument: contents of a map, text of an
    address, otherwise the value"""
    from .intrinsics import mapval, tcpstr
    f = E.p.funcs.get(name)
    if f is None: raise CheckError('function %s not found' % name)
    v = S('')
    for i, p in enumerate(f['params']):
        t = E.p.canon(p['t'])
        a = argof(i, t)
        if E.p.kind(t) == 'map': a = a if a.sort == 'Map' else mapval(E, st, t, a)
        elif t == '*net.TCPAddr': a = a if a.sort == 'Str' else tcpstr(E, st, a)
        v = pair(a, v)
    return pair(S('call ' + name), v)
def recorder(name):
    def f(E, st, a, site, ks, x):
        E.add_sent(st, observed_call(E, st, name, lambda i, t: a[i]))
        return [(st, [])]
    return f

def zero_param(E, name, t):
    s = E.p.sort(t)
    if s == 'Struct':
        return struct(E.p.canon(t), *[zero_param(E, name + '.' + f['name'], f['t']) for f in E.p.fields(t)])
    if s == 'Slice':
        v = var(name, 'Slice', 0)
        return v
    return var(name, s, 0)

def note_units(f):
    """a precondition that a value is invertible is available to the normaliser"""
    if f.op == 'and':
        for x in f.args: note_units(x)
    if f.op == 'unitp': CTX.units.add((f.args[1], f.args[0]))
    if f.op == 'ge0' and f.args[0].op in ('sel', 'var', 'sym'): CTX.nonneg.add(f.args[0])

def fresh_context():
    T.reset_ctx(); P._q_cache.clear()

def same_slice(x, v):
    """the same elements; what an empty slice points to does not matter, nor does the capacity (append copies)"""
    return and_(eq(slen(x), slen(v)), or_(eq(slen(x), ZERO), and_(eq(sref(x), sref(v)), eq(soff(x), soff(v)))))
def same_value(y, v): return same_slice(y, v) if y.sort == 'Slice' and v.sort == 'Slice' else eq(y, v)
def check_contract(E, c, timeout=60):
    """returns list of (obligation name, ok, info)"""
    fresh_context()
    f = E.p.funcs.get(c.name)
    if f is None: raise CheckError('function %s not found' % c.name)
    args = [zero_param(E, 'p_%d' % i, p['t']) for i, p in enumerate(f['params'])]
    st0 = E.initial_state()
    try:
        cases = c.cases(E, st0, args, '!abs', (), 'check')
        # a required value of a parameter is substituted
        for _ in range(3):
            sub = {}
            for sp in cases:
                for r, _t in sp.reqs:
                    if r.op == 'eq0':
                        d = monos(r.args[0])
                        us = [mo for mo in d if mo != ()]
                        if len(us) == 1 and len(us[0]) == 1 and us[0][0][1] == 1:
                            x = us[0][0][0]
                            if x.op == 'slen' and x.args[0].op == 'var' and x.args[0] in args and d[us[0]] in (1, -1):
                                v = x.args[0]
                                sub[v] = slice_(sref(v), soff(v), I(-d.get((), 0) * d[us[0]]))
                    if r.op == 'eq':
                        for x, y in ((r.args[0], r.args[1]), (r.args[1], r.args[0])):
                            if x.op == 'var' and x in args and not y.vars: sub[x] = y
            if not sub: break
            args = [sub.get(x, x) for x in args]
            cases = c.cases(E, st0, args, '!abs', (), 'check')
        # invertibility that holds in every case of the precondition is given to the normaliser
        common = None
        for sp in cases:
            k = set(r for r, _t in sp.reqs)
            common = k if common is None else common & k
        for r in common or (): note_units(r)
        keep = common
        cases = c.cases(E, st0, args, '!abs', (), 'check')
        for sp in cases: sp.reqs = sp.reqs + [(r, '') for r in keep if r.op == 'unitp']
    except TypeError as e:
        raise CheckError('signature of %s changed: %s' % (c.name, e))
    results = []
    n = 0
    short = c.name.split('/')[-1]
    npath = 0
    groups = []                                 # cases that differ only in what the implementation may choose
    for sp in cases:
        g = next((g for g in groups if sp.alts and g[0].alts and g[0].asms == sp.asms), None)
        if g is None: groups.append([sp])
        else: g.append(sp)
    for ci, group in enumerate(groups):
        sp = group[0]
        st = st0.copy()
        ok = True
        for r, _ in sp.reqs:
            ok = st.assume(r) and ok
        if not ok: raise CheckError('contradictory precondition of ' + c.name)
        # conditions that only concern the inputs restrict the paths; those on outputs are obligations
        ins = [a for a in sp.asms if not any(T.occurs(o, a) for o in sp.outs)]
        for a in ins: st.assume(a)
        if st.dead: continue
        E.pre_obl = []
        before = st.copy()                      # execution changes the state in place
        if c.stubs:
            E.contracts = {n: x for n, x in E.contracts.items() if n not in c.stubs}
            E.intr = dict(E.intr, **{n: recorder(n) for n in c.stubs})
        outs = E.inline(c.name, st, list(args), '', ())
        st = before
        for facts, g, text in E.pre_obl:
            r = P.prove(facts, g, timeout); n += 1
            results.append(('%s/case%d: %s' % (short, ci, text), r.ok, r))
        live = 0
        for oi, o in enumerate(outs):
            if o.st.dead: continue
            tag = '%s/case%d/path%d' % (short, ci, oi)
            if o.kind == 'panic':
                if sp.stopped or sp.partial: continue
                fs = list(o.st.facts)
                if not sp.lemmas: r = P.prove(fs, FALSE, timeout)
                for kind, x in sp.lemmas:
                    if kind == 'trust': fs.append(x)
                    elif kind == 'nl':
                        r = P.prove_nl(fs, x); results.append((tag + ': step ' + T.show(x)[:60], r.ok, r)); fs.append(x)
                    elif kind == 'inst':
                        fs += [y for y in (P.instantiate(f, x) for f in fs if f.op == 'forall') if y is not TRUE]
                if sp.lemmas: r = P.prove_nl(fs, FALSE)
                results.append((tag + ': does not stop', r.ok, r)); continue
            if sp.stopped:
                r = P.prove(o.st.facts, FALSE, timeout)
                results.append((tag + ': must not return', r.ok, r)); continue
            if P.z3check([x for x in o.st.facts if is_simple(x)], 2000): continue
            live += 1
            n0 = len(results)
            for sp in group:
                del results[n0:]
                compare(E, sp, o, st, tag, results, timeout)
                if all(r[1] for r in results[n0:]): break
            if len(results) == n0: results.append((tag + ': same outcome', True, None))
        if not live and not sp.stopped and not sp.optional and outs is not None:
            results.append(('%s/case%d: reachable' % (short, ci), False, 'no path returns normally'))
    if not results: raise CheckError('no obligations for ' + c.name)
    return results

def is_simple(f): return f.op != 'forall'

def compare(E, sp, o, st, tag, results, timeout):
    """actual outcome o against abstract post-state sp"""
    m = {}
    outs = set(sp.outs)
    famn = {x.args[0] for x in outs if len(x.args) > 1}
    goals = []
    f = E.p.funcs
    if sp.result is None: sp.result = []
    if len(sp.result) != len(o.vals):
        results.append((tag + ': number of results', False, None)); return
    D = E.decide(o.st)
    def isabs(r): return r.op == 'alloc' and r.args[0].startswith('!abs')
    # conditions the path settles are settled inside what was sent, too
    dec = {}
    for f_ in o.st.facts:
        if f_.op in ('not', 'or', 'and', 'forall'): continue
        dec[f_] = TRUE; dec[not_(f_)] = FALSE
    for f_ in o.st.facts:
        if f_.op == 'not': dec[f_.args[0]] = FALSE
    for nm in list(o.st.heaps):
        if nm.startswith('$') or o.st.heaps[nm] is not st.heaps.get(nm): o.st.heaps[nm] = T.iteresolve(o.st.heaps[nm], dec, {})
    # bind abstract objects and outputs
    o.vals = [E.simp(o.st, v) for v in o.vals]
    todo = list(zip(['result %d' % i for i in range(len(o.vals))], sp.result, o.vals))
    written = {}
    for nm, h in sp.st.heaps.items():
        b = sp.pre_st.heaps.get(nm) 
        if nm.startswith('$'): continue
        ws = []
        x = h
        while x is not b and x.op != 'hbase':
            if x.op == 'hst': ws.append(('hst', x.args[1]))
            elif x.op == 'hfam': ws.append(('fam', x))
            x = x.args[0]
        if ws: written[nm] = ws
    done = set()
    checks = []
    bad = []
    def bind(lab, a, v):
        if a is v:
            checks.append((lab, a, v)); return
        if a in outs and a not in m:
            m[a] = v; return
        if a.op == 'sym' and a.args[0] in famn and ('fam', a.args[0]) not in m and a.args[-1].op == 'var':
            m[('fam', a.args[0])] = (a.args[-1], v); return
        if a.op == 'alloc' and isabs(a) and len(a.args) == 1:
            if a in m:
                checks.append((lab, a, v)); return
            if v.op != 'alloc' :
                bad.append(lab + ': expected a newly allocated object, got ' + T.show(v)[:80])
                return
            m[a] = v; return
        if a.op == 'slice' and v.sort == 'Slice' and isabs(a.args[0]) and a.args[0] not in m:
            if sref(v).op == 'alloc' or True:
                m[a.args[0]] = ('slice', v)
                checks.append((lab + ' length', a.args[2], slen(v)))
            return
        if a.op == 'struct' and v.op == 'struct':
            for i, (x, y) in enumerate(zip(a.args[1:], v.args[1:])): bind('%s.%d' % (lab, i), x, y)
            return
        checks.append((lab, a, v))
    for lab, a, v in todo:
        if not isinstance(v, Term): continue
        bind(lab, a, v)
    def isbad():
        if not bad: return False
        r = P.prove(list(o.st.facts), FALSE, timeout)
        if r.ok: results.append((tag + ': cannot occur', True, r)); return True
        for b in bad: results.append((tag + ': ' + b, False, None))
        return True
    if isbad(): return
    # follow memory
    def mapkey(k):
        """abstract key -> actual key, None if its root is not bound yet"""
        r = T.root(k if k.op != 'pair' else k.args[0])
        return tr(k)
    class Unb(Exception): pass
    def tr(t):
        if t.op == 'elem' and isabs(t.args[0]) and len(t.args[0].args) == 1:
            b = m.get(t.args[0])
            if b is None: raise Unb
            if isinstance(b, tuple): return E.elem_addr(b[1], tr(t.args[1]))
        if t.op == 'slice' and isabs(t.args[0]) and isinstance(m.get(t.args[0]), tuple):
            b = m[t.args[0]][1]
            return slice_(sref(b), add(soff(b), tr(t.args[1])), tr(t.args[2]))
        if isinstance(t, Term) and t.op == 'alloc' and isabs(t):
            if t in m: return sref(m[t][1]) if isinstance(m[t], tuple) else m[t]
            if len(t.args) > 1:
                g = m.get(('fam', t.args[0]))
                if g is not None: return subst(g[1], {g[0]: tr(t.args[1])})
            raise Unb
        if t in m: return m[t]
        if strict[0] and t in outs: raise Unb
        if t.op == 'sym' and t.args[0] in famn:
            g = m.get(('fam', t.args[0]))
            if g is None: raise Unb
            return subst(g[1], {g[0]: tr(t.args[-1])})
        if not has_abs(t): return t
        return T.rebuild(t, tr)
    def has_abs(t):
        for x in T.subterms(t):
            if x in outs or (x.op == 'alloc' and isabs(x)) or (x.op == 'sym' and x.args[0] in famn): return True
        return False
    def T2(t):
        try: return tr(t)
        except Unb: return None
    # outputs that occur only inside values: witnesses by matching
    bound = []
    def unify(a, v):
        if not isinstance(a, Term) or not isinstance(v, Term) or a.sort != v.sort: return
        if a in outs:
            if a not in m and not any(x in v.vars for x in bound): m[a] = v
            return
        if a.op == 'sym' and a.args[0] in famn and a.args[-1].op == 'var':
            if ('fam', a.args[0]) not in m: m[('fam', a.args[0])] = (a.args[-1], v)
            return
        if a.op == v.op == 'sym' and a.args[0] in famn and len(v.args) > 1:        # at an index that is itself an output
            if ('fam', a.args[0]) not in m:
                w = freshvar('w', 'Int'); m[('fam', a.args[0])] = (w, sym(v.args[0], v.sort, *(v.args[1:-1] + (w,))))
            return unify(a.args[-1], v.args[-1])
        if a.op == 'alloc' and isabs(a) and len(a.args) == 2 and a.args[1].op == 'var':
            if ('fam', a.args[0]) not in m: m[('fam', a.args[0])] = (a.args[-1], v)
            return
        if a.op == v.op == 'alloc' and isabs(a) and len(a.args) == 1:
            if a not in m and not v.vars: m[a] = v
            return
        if a.op == v.op == 'hfam':
            for x, y in zip(a.args, v.args): unify(x, y)
            return
        if a.op == v.op == 'lam':
            w = freshvar('u', a.args[0].sort); bound.append(w)
            return unify(app(a, w), app(v, w))
        if a.op == v.op == 'ite':
            c = T2(a.args[0]); k = v.args[0].args if v.args[0].op == 'and' else (v.args[0],)
            if c is not None and not_(c) in k and c not in k:              # branches the other way round
                unify(a.args[1], v.args[2]); return unify(a.args[2], v.args[1])
        if not any((x in outs and x not in m) or (x.op == 'sym' and x.args[0] in famn and ('fam', x.args[0]) not in m) or (x.op == 'alloc' and isabs(x) and len(x.args) == 2 and ('fam', x.args[0]) not in m) for x in T.subterms(a)): return
        if a.sort == 'G':
            da = T._gdict(a); dv = T._gdict(v)
            for g, e in da.items():
                g2 = T2(g)
                if g2 is not None and g2 in dv: unify(e, dv[g2])
            return
        if a.sort == 'Int' and (a.op == 'poly' or v.op == 'poly'):
            d = monos(a)
            us = [(mo, k) for mo, k in d.items() if len(mo) == 1 and mo[0][1] == 1 and k in (1, -1) and mo[0][0] in outs and mo[0][0] not in m]
            if len(us) == 1:
                mo, k = us[0]
                rest = T2(sub(a, monoterm(mo, k)))
                if rest is not None:
                    w = sub(v, rest)
                    m[mo[0][0]] = w if k == 1 else neg(w)
                    return
            cs = [(mo, k) for mo, k in d.items() if any(x in outs and x not in m for y, _ in mo for x in T.subterms(y))]
            if len(cs) == 1 and len(cs[0][0]) == 1 and cs[0][0][0][0] is not a:
                mo, k = cs[0]
                rest = T2(sub(a, monoterm(mo, k)))
                if rest is not None:
                    w = sub(v, rest)
                    if mo[0][1] > 1:
                        ws = list(monos(w).items())
                        if len(ws) == 1 and ws[0][1] == k and len(ws[0][0]) == 1 and ws[0][0][0][1] == mo[0][1]: unify(mo[0][0], ws[0][0][0][0])
                    elif k == 1: unify(mo[0][0], w)
                    elif k == -1: unify(mo[0][0], neg(w))
                    elif k and all(c % k == 0 for c in monos(w).values()): unify(mo[0][0], add(*[mul(I(c // k), monoterm(x, 1)) for x, c in monos(w).items()]))
            vs = {y for mo in monos(v) for y, _ in mo}
            for mo, _ in cs:                            # the only part of the value of that shape
                for y, _ in mo:
                    c = [z for z in vs if z.op == y.op]
                    if y is not a and y not in outs and y.op != 'sym' and len(c) == 1 and c[0] is not v: unify(y, c[0])
            return
        if a.op == v.op == 'zn':
            dv = dict(v.args[1])
            for g, e in a.args[1]:
                g2 = T2(g)
                if g2 is not None and g2 in dv: unify(e, dv[g2])
            return
        if a.op == v.op and len(a.args) == len(v.args) and a.op not in ('poly', 'grp', 'lam', 'sym', 'var', 'hst', 'hfam', 'hbase'):
            for x, y in zip(a.args, v.args): unify(x, y)
    def drawn(a, v):
        """the draw behind a value that is drawn under a condition only (a witness: that the value equals it is proved)"""
        pre = a.args[0].split(':')[0] + ':'
        while v.op == 'ite':
            c = [x for x in v.args[1:] if any(y.op == 'sym' and y.args[0].startswith(pre) for y in (x, *T.subterms(x)))]
            if len(c) != 1: break
            v = c[0]
        return v
    def datakeyed(k, w):
        """families of map entries whose keys are data: compared as a whole"""
        return k.op == 'pair' and T._solve_index(k, w, subst(k, {w: freshvar('o', 'Int')})) is None
    def samechain(a, v):
        if a is v: return []
        if a is None or v is None or a.op != v.op: return None
        if a.op == 'hst':
            r = samechain(a.args[0], v.args[0])
            return None if r is None else r + [eq(a.args[1], v.args[1]), eq(a.args[2], v.args[2])]
        if a.op == 'hfam':
            r = samechain(a.args[0], v.args[0])
            if r is None: return None
            w = freshvar('ix', 'Int'); rng = and_(ge0(w), lt(w, v.args[1]))
            ls = [(app(x, w), app(y, w)) for x, y in zip(a.args[2:5], v.args[2:5])]
            return r + [eq(a.args[1], v.args[1])] + [forall(w, or_(not_(rng), eq(x, y))) for x, y in ls]
        return None
    def pruned(h):
        """without the entries of maps made during the call that the contract does not mention"""
        if h is None or h.op not in ('hst', 'hfam'): return h
        b = pruned(h.args[0])
        k = h.args[1] if h.op == 'hst' else app(h.args[2], freshvar('q', 'Int'))
        if k.op == 'pair' and k.args[0].op == 'alloc' and not any(v is k.args[0] for v in m.values()): return b
        return h if b is h.args[0] else mk(h.op, (b,) + h.args[1:], h.sort)
    def known(h):
        """the maps of the state before the call that are written, if they are different maps (writes to different maps commute)"""
        rs = []
        while h.op in ('hst', 'hfam'):
            k = h.args[1] if h.op == 'hst' else app(h.args[2], freshvar('q', 'Int'))
            r = k.args[0] if k.op == 'pair' else None
            if r is None or r.vars or (r.op != 'alloc' and T2(r) is not r): return set()
            if r.op != 'alloc' and r not in rs: rs.append(r)
            h = h.args[0]
        return set(rs) if all(D(eq(x, y)) is False for i, x in enumerate(rs) for y in rs[:i]) else set()
    def split(h, kn=None):
        """the writes to maps made during the call, map by map, and the others (None); maps made during the call differ from all others"""
        if h is None or h.op not in ('hst', 'hfam'): return {None: h}
        if kn is None: kn = known(h)
        d = split(h.args[0], kn)
        k = h.args[1] if h.op == 'hst' else app(h.args[2], freshvar('q', 'Int'))
        r = k.args[0] if k.op == 'pair' and not k.args[0].vars and (k.args[0].op == 'alloc' or k.args[0] in kn) else None
        b = d[r] if r in d else base_of(h)
        d[r] = mk(h.op, (b,) + h.args[1:], h.sort)
        return d
    def base_of(h):
        while h.op in ('hst', 'hfam'): h = h.args[0]
        return h
    def unifychain(a, v):
        if a is None or v is None: return
        da, dv = split(a), split(pruned(v)); un = []
        for r in da:
            r2 = r if r is None or r.op != 'alloc' else m.get(r)
            if r is not None and r2 is None: un.append(r)
            elif r2 in dv: unify(da[r], dv[r2])
        if un and not strict[0] and len(da) <= 2: unify(a, pruned(v))
    def chainpairs(a, v):
        """per map: (contract, code), None if they do not correspond"""
        da, dv = split(a), split(v)
        if set(da) - set(dv): return None
        return [(da.get(r, base_of(a)), dv[r]) for r in dv]
    chains = []
    progress = True
    famkeys = []
    strict = [True]
    pend = [(nm, kind, k) for nm, ws in written.items() for kind, k in ws]
    for lab, a, v in checks:
        if lab.endswith(' length'): unify(a, v)
    while progress:
        progress = False
        rest = []
        for nm, kind, k in pend:
            sort = T.HEAPSORT[nm]
            try:
                if kind == 'hst':
                    key = tr(k)
                    av = T.sel(sp.st.heaps[nm], k, sort, E.decide(sp.st))
                    vv = T.sel(E.heap(o.st, nm, sort, T.HEAPZERO[nm]), key, sort, D)
                    bind('%s[%s]' % (nm, T.show(k)[:60]), av, vv)
                else:
                    w = freshvar('ix', 'Int')
                    g, n, kl, vl, cl = k.args
                    ka = app(kl, w)
                    if datakeyed(ka, w): 
                        if nm not in chains: chains.append(nm)
                        progress = True; continue
                    key = tr(ka)
                    if strict[0]: tr(n)
                    st3 = sp.st.copy(); st3.assume(ge0(w)); st3.assume(lt(w, n))
                    av = T.sel(sp.st.heaps[nm], ka, sort, E.decide(st3))
                    rng = and_(ge0(w), lt(w, n))
                    st2 = o.st.copy(); st2.assume(rng)
                    try: st2.assume(ge0(w)); st2.assume(lt(w, tr(n)))
                    except Unb: pass
                    vv = T.sel(E.heap(o.st, nm, sort, T.HEAPZERO[nm]), key, sort, E.decide(st2))
                    if av.op == 'ite' and vv.op == 'ite':          # what is left of the values on each side
                        g_ = T2(av.args[0])
                        if g_ is not None:
                            def sides(x, s0, c):
                                r = []
                                for y in (c, not_(c)):
                                    s_ = s0.copy(); s_.assume(y); r.append(E.simpdeep(s_, x))
                                return ite(c, *r)
                            av, vv = sides(av, st3, av.args[0]), sides(vv, st2, g_)
                    if av.op == 'alloc' and isabs(av) and ('fam', av.args[0]) not in m and len(av.args) == 2 and av.args[1] is w:
                        m[('fam', av.args[0])] = (w, vv)
                    elif av.op == 'sym' and av.args[0] in famn and ('fam', av.args[0]) not in m and av.args[-1] is w:
                        m[('fam', av.args[0])] = (w, drawn(av, vv))
                        if m[('fam', av.args[0])][1] is not vv: famkeys.append(('%s family' % nm, w, n, av, vv))
                    else:
                        famkeys.append(('%s family' % nm, w, n, av, vv))
                progress = True
            except Unb:
                rest.append((nm, kind, k))
        pend = rest
        if pend and not progress and strict[0]:
            # names that only occur inside values: find them there
            strict[0] = False; n0 = len(m)
            for lab, a, v in checks: unify(a, v)
            for lab, w, n, av, vv in famkeys: unify(lam(w, av), lam(w, vv))
            for nm in chains: unifychain(sp.st.heaps[nm], o.st.heaps.get(nm))
            strict[0] = True
            progress = len(m) > n0
            if not progress: strict[0] = False; progress = True
    # different new objects are different
    objs = {}
    for a, v in m.items():
        if isinstance(a, Term) and a.op == 'alloc' and isabs(a):
            v = sref(v[1]) if isinstance(v, tuple) else v
            if v.op != 'alloc' and not (isinstance(m[a], tuple) and fresh_key(v)): continue
            if v in objs and not isinstance(m[a], tuple): bad.append('expected different objects, got one for ' + T.show(a) + ' and ' + T.show(objs[v]))
            objs[v] = a
    if isbad(): return
    strict[0] = False
    final = []
    for _ in range(3):
        for lab, a, v in checks: unify(a, v)
        for lab, w, n, av, vv in famkeys: unify(lam(w, av), lam(w, vv))
        for nm in chains: unifychain(sp.st.heaps[nm], o.st.heaps.get(nm))
        for nm in sp.st.heaps:
            if nm.startswith('$'): unify(sp.st.heaps[nm], o.st.heaps.get(nm, E.ghost_init(nm)))
    base = [x for x in (T2(a) for a in sp.asms if any(T.occurs(o_, a) for o_ in outs)) if x is not None]
    unb = [o_ for o_ in sp.outs if o_ not in m]
    facts = list(o.st.facts)
    for lab, a, v in checks:
        x = T2(a)
        if x is None: final.append((lab + ' (unbound)', FALSE)); continue
        if x.sort == 'Slice' and v.sort == 'Slice': g = same_slice(x, v)
        elif x.sort != v.sort: g = FALSE
        else: g = eq(x, v)
        final.append((lab, g))
    for lab, w, n, av, vv in famkeys:
        x = T2(av); n2 = T2(n)
        if x is None or n2 is None: final.append((lab + ' (unbound)', FALSE)); continue
        final.append((lab, forall(w, or_(not_(and_(ge0(w), lt(w, n2))), eq(x, vv)))))
    for nm in chains:
        r = None
        def strip(a):
            while a.op == 'hfam':                       # nothing is written
                k = T2(a.args[1])
                if k is None or k is ONE or not P.prove(facts, ge(ZERO, k), min(timeout, 5)).ok: break
                a = a.args[0]
            return a
        real = pruned(E.heap(o.st, nm, T.HEAPSORT[nm], T.HEAPZERO[nm]))
        for cut in (lambda h: h, strip):
            x = T2(cut(sp.st.heaps[nm]))
            ps = chainpairs(x, cut(real)) if x is not None else None
            rs = [samechain(cut(y), cut(z)) for y, z in ps] if ps is not None else [None]
            if None not in rs: r = sum(rs, []); break
        final += [(nm + ' as a whole', g) for g in ([FALSE] if r is None else r)]
    # randomness is really fresh
    seenr = []
    for rv, pre, *cnt in sp.rands:
        v = m.get(rv)
        if cnt and cnt[0] is not None and v is None and ('fam', rv.args[0]) not in m:
            k = T2(cnt[0]); final.append(('fresh randomness %s' % T.show(rv)[:40], ge(ZERO, k) if k is not None else FALSE)); continue
        if v is None and ('fam', rv.args[0]) in m:
            w, v = m[('fam', rv.args[0])]
            if w not in v.vars: v = None
        good = v is not None and not isinstance(v, tuple) and v.op == 'sym' and v.args[0].startswith(pre)
        if good and pre == 'perm:':
            N = CTX.permn.get(v.args[0]); k = T2(cnt[0])
            good = v.args[-1] is w and N is not None and k is not None and P.prove(facts, eq(N, k), timeout).ok
        if good and pre == 'randint:':                  # from the whole range
            k = T2(rv.args[1])
            good = k is not None and P.prove(facts, eq(v.args[1], k), timeout).ok
        if good:
            lim = sp.rn.get(rv.args[0]); lim = T2(lim) if lim is not None else None
            if ('fam', rv.args[0]) not in m: w = None
            seenr.append((rv, v, w, lim))
        final.append(('fresh randomness %s' % T.show(rv)[:40], B(good)))
    # no two of the draws of the contract are the same draw of the body
    def ranged(v, w, lim):
        if w is None: return v, TRUE, None
        x = freshvar('dw', 'Int'); c = ge0(x)
        return T.subst(v, {w: x}), (c if lim is None else and_(c, lt(x, lim))), x
    for i, (rv, v, w, lim) in enumerate(seenr):
        for j in range(i + 1):
            rv2, v2, w2, lim2 = seenr[j]
            if v.args[0] != v2.args[0] or len(v.args) != len(v2.args) or (i == j and w is None): continue
            a, ca, xa = ranged(v, w, lim); b, cb, xb = ranged(v2, w2, lim2)
            same = and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
            if i == j: same = and_(same, neq(xa, xb))
            final.append(('independent randomness %s %s' % (T.show(rv)[:30], T.show(rv2)[:30]), not_(and_(ca, cb, same))))
    for rv, k in sp.flags:
        v = m.get(rv)
        if v is None or isinstance(v, tuple): continue
        final.append(('ensures range of ' + T.show(rv)[:40], ge0(v) if k == '0' else eq(T.mod(v, Q), v)))
    # conditions on outputs
    for a in sp.asms:
        if any(T.occurs(o_, a) for o_ in outs):
            x = T2(a)
            final.append(('ensures ' + T.show(a)[:80], x if x is not None else FALSE))
    # ghost
    for nm in set(o.st.heaps) | set(sp.st.heaps):
        if not nm.startswith('$'): continue
        a = sp.st.heaps.get(nm, E.ghost_init(nm)); v = o.st.heaps.get(nm, E.ghost_init(nm))
        x = T2(a)
        final.append(('ghost ' + nm, eq(x, v) if x is not None else FALSE))
    # frame
    for nm, h in o.st.heaps.items():
        if nm.startswith('$') or nm in ('IT', 'ITM', 'BB') or nm in chains: continue
        b = st.heaps.get(nm)
        x = h; sort = T.HEAPSORT[nm]
        seen = set()
        while x is not b and x.op != 'hbase':
            if x.op == 'hst':
                k = x.args[1]
                if k not in seen and not fresh_key(k):
                    seen.add(k)
                    av = T.sel(E.heap(sp.st, nm, sort, T.HEAPZERO[nm]), k, sort, E.decide(sp.st))
                    y = T2(av)
                    vv = T.sel(h, k, sort, D)
                    final.append(('frame %s[%s]' % (nm, T.show(k)[:60]), same_value(y, vv) if y is not None else FALSE))
            elif x.op == 'hfam':
                w = freshvar('fx', 'Int')
                k = app(x.args[2], w)
                if not fresh_key(k):
                    av = T.sel(E.heap(sp.st, nm, sort, T.HEAPZERO[nm]), k, sort, E.decide(sp.st))
                    y = T2(av)
                    vv = T.sel(h, k, sort, D)
                    final.append(('frame %s[%s]' % (nm, T.show(k)[:60]), forall(w, or_(not_(and_(ge0(w), lt(w, x.args[1]))), same_value(y, vv))) if y is not None else FALSE))
            elif x.op == 'hhav':
                for pl in x.args[2:]:
                    if isinstance(pl, Term) and pl.op == 'lam' and not fresh_key(app(pl, freshvar('q', 'Int'))):
                        final.append(('frame %s unknown effect' % nm, FALSE))
            x = x.args[0]
    for lab, g in final:
        t0 = time.time()
        r = P.prove(facts, g, timeout)
        results.append((tag + ': ' + lab, r.ok, r if r.ok else (r, T.show(g)[:1500])))

def fresh_key(k):
    if k.op == 'pair': k = k.args[0]
    if k.sort != 'Ref': return False
    r = T.root(k)
    if r.op == 'ite': return fresh_key(r.args[1]) and fresh_key(r.args[2])
    return r.op == 'alloc'
