"""Lemmas: a goal script builds a symbolic state, runs real functions (through their contracts where they have one) and
states what must hold in every resulting state."""
from . import terms as T
from .terms import *
from . import prover as P
from .exec import Unsupported, State

class Goal:
    def __init__(self, E, name, timeout=60):
        self.E = E; self.name = name; self.results = []; self.timeout = timeout; self.nlive = 0; self.P = P
        from .contracts import fresh_context
        fresh_context()
        self.st = E.initial_state()
        self.nobj = 0
    # --- inputs
    def ref(self, name): return var(name, 'Ref', 0)
    def any(self, name, sort): return var(name, sort, 0)
    def arg(self, name, t):
        from .contracts import zero_param
        return zero_param(self.E, name, t)
    def params(self, fn, prefix='p'):
        """fresh symbolic arguments for a function"""
        f = self.E.p.funcs.get(fn)
        if f is None: raise Unsupported('function %s not found' % fn)
        return [self.arg('%s_%d' % (prefix, i), p['t']) for i, p in enumerate(f['params'])]
    def pv(self, st, r): return self.E.pv(st, r)
    def sv(self, st, r): return self.E.sv(st, r)
    def bi(self, st, r): return self.E.bi(st, r)
    def load(self, st, t, a): return self.E.load(st, t, a)
    def f(self, st, r, t, name):
        E = self.E
        for i, fd in enumerate(E.p.fields(t)):
            if fd['name'] == name:
                if r.sort == 'Struct': return E.field(r, i)
                return E.load(st, fd['t'], fld(r, E.fname(t, i)))
        raise Unsupported('no field %s in %s' % (name, t))
    def at(self, st, s, i, et): return self.E.load(st, et, self.E.elem_addr(s, i))
    def assume(self, st, *fs):
        from .contracts import note_units
        for f in fs: note_units(f); st.assume(f)
    # --- running
    def inline(self, *names):
        """follow the bodies of these functions instead of their contracts"""
        self.E.contracts = {n: c for n, c in self.E.contracts.items() if n not in names}
    def call(self, fn, st, *args, site=None):
        """normal outcomes of a call: list of (state, results)"""
        self.nobj += 1
        E = self.E
        n0 = len(E.pre_obl)
        outs = E.call_all(fn, st.copy(), list(args), site or '/g%d' % self.nobj, ())
        self.drain(n0)
        return [(o.st, o.vals) for o in outs if o.kind == 'ret' and not o.st.dead and self.alive(o.st)]
    def call_clo(self, clo, st, *args):
        """normal outcomes of calling a function value"""
        self.nobj += 1
        n0 = len(self.E.pre_obl)
        outs = self.E.call_clo(clo, st.copy(), list(args), '/g%d' % self.nobj, ())
        self.drain(n0)
        return [(o.st, o.vals) for o in outs if o.kind == 'ret' and not o.st.dead and self.alive(o.st)]
    def call_all(self, fn, st, *args):
        self.nobj += 1
        n0 = len(self.E.pre_obl)
        outs = self.E.call_all(fn, st.copy(), list(args), '/g%d' % self.nobj, ())
        self.drain(n0)
        return [o for o in outs if not o.st.dead and self.alive(o.st)]
    def alive(self, st):
        from .contracts import is_simple
        return not P.z3check([x for x in st.facts if is_simple(x)], 2000)
    def drain(self, n0):
        for facts, g, text in self.E.pre_obl[n0:]:
            r = P.prove(facts, g, self.timeout)
            self.results.append(('%s: %s' % (self.name, text), r.ok, r if r.ok else (r, T.show(g)[:1500])))
        del self.E.pre_obl[n0:]
    def prove(self, label, st, goal, hints=(), extra=()):
        self.nlive += 1
        facts = list(st.facts) + list(extra)
        r = P.prove(facts, goal, self.timeout, hints)
        self.results.append(('%s: %s' % (self.name, label), r.ok, r if r.ok else (r, T.show(goal)[:1500])))
        return r.ok
    def fail(self, label, info=''):
        self.results.append(('%s: %s' % (self.name, label), False, info))

    def view(self, st): return View(self, st)
    # --- messages
    def sent(self, st):
        """messages sent so far: list of (destination text, event type, {parameter: interface value}, sender text)"""
        b = self.E.sent(st)
        parts = b.args if b.op in ('bag+', 'bag') else [b]
        out = []
        for x in parts:
            if x.op == 'bag': x = x.args[0]
            if x.op == 'bigbag':       # one message for every index: an arbitrary one of them
                i = self.any('i%d' % self.nobj, 'Int'); self.nobj += 1
                lo, hi, l = x.args
                st.assume(T.ge(i, lo)); st.assume(T.lt(i, hi))
                b = T.app(l, i)
                if b.op != 'bag' or len(b.args) != 1: raise Unsupported('unknown family of messages')
                x = b.args[0]
            if x.op != 'pair' or x.args[1].op != 'enc': raise Unsupported('unknown message ' + x.op)
            et, m, src = [T.recget(x.args[1].args[1], j, so) for j, so in enumerate(('Int', 'Map', 'Str'))]
            if m.op != 'mrec': raise Unsupported('unknown message parameters: ' + T.show(m)[:3000])
            out.append((x.args[0], et, {m.args[i].args[0]: m.args[i + 1] for i in range(0, len(m.args), 2)}, src))
        return out
    def deliver(self, st, params, mt='map[string]interface{}'):
        """the parameters of a message as its receiver sees them"""
        self.nobj += 1
        m = gobj('received%d' % self.nobj)
        for k, v in params.items(): self.E.mapset(st, mt, m, S(k), v)
        return m
    def glob(self, st, name, t): return self.E.load(st, t, gobj(name))
    def mget(self, st, mt, m, k):
        ok, v, et = self.E.mapget(st, mt, m, k)
        return ok, v
    def vf(self, v, t, name):
        for i, fd in enumerate(self.E.p.fields(t)):
            if fd['name'] == name: return self.E.field(v, i)
        raise Unsupported('no field %s in %s' % (name, t))

class View:
    """a goal state seen like a contract (for the shared well-formedness predicates)"""
    def __init__(self, g, st): self.g = g; self.st = st
    def f(self, r, t, n): return self.g.f(self.st, r, t, n)
    def bi(self, r): return self.g.bi(self.st, r)
    def pv(self, r): return self.g.pv(self.st, r)
    def sv(self, r): return self.g.sv(self.st, r)
    def load(self, t, a): return self.g.load(self.st, t, a)
    def at(self, s, i, et): return self.g.at(self.st, s, i, et)
    def requires(self, f, text=''): self.g.assume(self.st, f)
    assume = requires
    def all(self, n, fn):
        w = freshvar('i', 'Int'); save = self.st
        self.st = save.copy(); self.st.assume(ge0(w)); self.st.assume(lt(w, n))
        b = fn(w); self.st = save
        return forall(w, or_(not_(and_(ge0(w), lt(w, n))), b))
    def param(self, m, key, t='[]byte', mt='map[string]interface{}'):
        ok, v, et = self.g.E.mapget(self.st, mt, m, S(key))
        return T.unbox(t, v, self.g.E.p.sort(t))
    def case(self, cond):
        for b in (True, False):
            if P.prove(list(self.st.facts), cond if b else not_(cond), self.g.timeout).ok: return b
        raise Unsupported('open case: ' + T.show(cond)[:100])
    @property
    def E(self): return self.g.E
    def glob(self, name, t): return self.g.glob(self.st, name, t)
    def inrange(self, n, fn):
        w = freshvar('w', 'Int'); save = self.st
        self.st = save.copy(); self.st.assume(ge0(w)); self.st.assume(lt(w, n))
        b = fn(w); self.st = save
        return lam(w, b)
    def vf(self, v, t, name): return self.g.vf(v, t, name)
    def distinct(self, n, fn): return T.distinct(n, self.inrange(n, fn))
    def mget(self, mt, m, k): return self.g.mget(self.st, mt, m, k)
    def has(self, m, key, mt='map[string]interface{}'):
        return self.g.E.mapget(self.st, mt, m, S(key))[0]
    def entries(self, mt, m):
        E = self.g.E; n, hd, hv, facts = E.mapiter(self.st, mt, m)
        w = freshvar('i', 'Int'); u, ty = E.p.under(mt); ks = E.p.sort(ty['key'])
        for x in facts: self.g.assume(self.st, x)
        key = lambda i: mk('mapkey', (hd, m, i), ks)
        self.g.assume(self.st, forall(w, or_(not_(and_(ge0(w), lt(w, n))), sel(hd, pair(m, key(w)), 'Bool', E.decide(self.st)))))
        return n, key, lambda i: self.mget(mt, m, key(i))[1]
