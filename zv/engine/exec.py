"""Symbolic execution of the exported SSA: computes, for a call of a function in a symbolic state, the set of outcomes
(path facts, heap, results).  Calls of functions under contract use the contract; loops are summarised by solved
recurrences (checked for base and step), never unrolled (except loops over a small literal range)."""
import json, sys, time
from . import terms as T
from .terms import *
from . import prover as P

class Unsupported(Exception): pass
T_ERR = (TypeError, KeyError, AttributeError, IndexError, ValueError, AssertionError)

INTTYPES = {'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64', 'uintptr', 'byte', 'rune',
            'untyped int', 'float64', 'float32', 'untyped float', 'untyped rune'}
WRAP = {'uint8': 8, 'byte': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'uint': 64, 'uintptr': 64}
SIGNED = {'int8': 8, 'int16': 16, 'int32': 32, 'rune': 32, 'int64': 64, 'int': 64}
def swrap(v, w):
    """the signed w-bit integer with the same low bits"""
    h = I(2 ** (w - 1))
    if v.op == 'int': return I((v.args[0] + 2 ** (w - 1)) % 2 ** w - 2 ** (w - 1))
    return sub(mod(add(v, h), I(2 ** w)), h)
OPAQUE_REF_STRUCTS = {'github.com/dedis/crypto/abstract.Cipher', 'bytes.Buffer', 'bytes.Reader', 'encoding/gob.Encoder', 'encoding/gob.Decoder'}

class Prog:
    def __init__(self, path):
        from engine import names
        d = names.load(path); self.renamed = d.get("renamed") or {}
        self.types = d['types']; self.funcs = d['funcs']; self.globals = d['globals']; self.errors = d.get('errors') or []
        for f in self.funcs.values():
            f['params'] = f['params'] or []; f['free'] = f['free'] or []; f['results'] = f['results'] or []
            f['blocks'] = f['blocks'] or []
        self._loops = {}
        self._sort = {}
    def under(self, t):
        while True:
            x = self.types.get(t)
            if x is None: raise Unsupported('type ' + t)
            if x['kind'] in ('alias', 'named'): t = x['under']; continue
            return t, x
    def canon(self, t):
        x = self.types.get(t)
        while x is not None and x['kind'] == 'alias':
            t = x['under']; x = self.types.get(t)
        return t
    def kind(self, t):
        if t == 'math/big.Int': return 'bigint'
        if t in OPAQUE_REF_STRUCTS: return 'opaque'
        return self.under(t)[1]['kind']
    def sort(self, t):
        s = self._sort.get(t)
        if s is None:
            s = self._sort[t] = self._sortof(t)
        return s
    def _sortof(self, t):
        if t == 'math/big.Int': return 'Int'
        if t in OPAQUE_REF_STRUCTS: return 'Ref'
        u, x = self.under(t)
        k = x['kind']
        if k == 'basic':
            if u in INTTYPES: return 'Int'
            if u in ('bool', 'untyped bool'): return 'Bool'
            if u in ('string', 'untyped string'): return 'Str'
            return 'Ref'
        if k == 'slice':
            return 'Bytes' if self.under(x['elem'])[0] in ('uint8', 'byte') else 'Slice'
        if k in ('pointer', 'map', 'chan'): return 'Ref'
        if k == 'func': return 'Clo'
        if k == 'interface': return 'Ref' if x.get('methods') else 'Any'
        if k == 'struct': return 'Struct'
        if k == 'array': return 'Arr'
        raise Unsupported('sort of ' + t)
    def fields(self, t):
        return self.under(t)[1].get('fields') or []
    def elem(self, t):
        return self.under(t)[1]['elem']
    def zero(self, t):
        k = self.kind(t)
        if k == 'struct':
            return struct(self.canon(t), *[self.zero(f['t']) for f in self.fields(t)])
        s = self.sort(t)
        if s == 'Arr': return mk('arrzero', (t,), 'Arr')
        return {'Int': ZERO, 'Bool': FALSE, 'Str': S(''), 'Ref': NIL, 'Any': NILANY, 'Bytes': BEMPTY, 'Slice': NILSLICE,
                'Clo': mk('nilclo', (), 'Clo')}[s]

    def loops(self, fname):
        """natural loops: header -> set of blocks"""
        if fname in self._loops: return self._loops[fname]
        f = self.funcs[fname]; bl = f['blocks']; n = len(bl)
        dom = [set(range(n)) for _ in range(n)]
        if n: dom[0] = {0}
        ch = True
        reach = set(); st = [0]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st.extend(bl[b]['succs'])
        while ch:
            ch = False
            for b in range(1, n):
                ps = [p for p in bl[b]['preds'] if p in reach]
                if not ps: continue
                d = set.intersection(*[dom[p] for p in ps]) | {b}
                if d != dom[b]: dom[b] = d; ch = True
        loops = {}
        for b in reach:
            for s in bl[b]['succs']:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in bl[x]['preds'] if p in reach)
        self._loops[fname] = loops
        return loops

class State:
    __slots__ = ('heaps', 'facts', 'fset', 'br', 'nfacts')
    def __init__(self):
        self.heaps = {}; self.facts = []; self.fset = set(); self.br = []
    def copy(self):
        s = State()
        s.heaps = dict(self.heaps); s.facts = list(self.facts); s.fset = set(self.fset); s.br = list(self.br)
        return s
    def assume(self, f):
        """returns False when the path became contradictory"""
        if f is TRUE: return True
        if f is FALSE:
            self.facts.append(FALSE); self.fset.add(FALSE); return False
        if f in self.fset: return True
        if f.op == 'and':
            ok = True
            for x in f.args: ok = self.assume(x) and ok
            return ok
        if f.op == 'not' and f.args[0].op == 'or':
            ok = True
            for x in f.args[0].args: ok = self.assume(not_(x)) and ok
            return ok
        if not_(f) in self.fset:
            self.facts.append(FALSE); self.fset.add(FALSE); return False
        self.fset.add(f); self.facts.append(f)
        return True
    @property
    def dead(self): return FALSE in self.fset

class Frame:
    __slots__ = ('fn', 'name', 'regs', 'site', 'ks', 'free')
    def __init__(self, fn, name, site, ks):
        self.fn = fn; self.name = name; self.regs = {}; self.site = site; self.ks = ks
    def fork(self):
        f = Frame(self.fn, self.name, self.site, self.ks); f.regs = dict(self.regs)
        return f

class Outcome:
    __slots__ = ('kind', 'st', 'vals', 'fr', 'bid', 'prev', 'idx')
    def __init__(self, kind, st, vals=None, fr=None, bid=None, prev=None):
        self.kind = kind; self.st = st; self.vals = vals; self.fr = fr; self.bid = bid; self.prev = prev

def is_arith(c, n=0):
    if c.op in ('ge0', 'eq0'): return not any(x.op in ('lam',) for x in c.args)
    if c.op in ('and', 'or', 'not'): return all(is_arith(a) for a in c.args)
    return False

class Exec:
    def __init__(self, prog, intrinsics, contracts=None):
        self.p = prog
        self.intr = intrinsics
        self.contracts = contracts or {}
        self.used_contracts = set(); self.used_intr = set(); self.inlined = set()
        self.depth = 0
        self.loopinv = None        # user-given loop contract, see loops.with_invariant
        self.pre_obl = []          # (facts, formula, text) precondition obligations collected
        self.log = []
        self.deadline = None
        self.assumed_inbounds = True
        self.no_contract_for = set()
        self.goalname = ''
        self.gconst = {}

    # ---------------------------------------------------------------- heap access
    def hname(self, t):
        if t == 'math/big.Int': return 'BI'
        return 'M:' + self.p.canon(t)
    def heap(self, st, name, sort, zero):
        h = st.heaps.get(name)
        if h is None:
            T.HEAPSORT[name] = sort
            T.HEAPZERO[name] = zero
            h = st.heaps[name] = hbase(name, 'init', 0)
        return h
    def decide(self, st):
        def d(c):
            if isinstance(c, tuple): return self.fam_lookup(st, c[1], c[2])
            if c in st.fset: return True
            if not_(c) in st.fset: return False
            if c.op == 'and':
                rs = [d(x) for x in c.args]
                if all(r is True for r in rs): return True
                if any(r is False for r in rs): return False
                return None
            if is_arith(c):
                return self.quick(st, c)
            if c.op == 'eq' or c.op == 'sel': return self.from_universal(st, c)
            return None
        return d
    def from_universal(self, st, c):
        """decide whether a list element is nil, or whether a map has an entry, from what is known of all elements"""
        if c.op == 'sel': y = c
        else:
            y = c.args[1] if c.args[0] is NIL else c.args[0]
            if y.op != 'sel' or NIL not in c.args: return None
        for f in st.facts:
            if f.op != 'forall': continue
            v, b = f.args[0].args
            for x in T.subterms(b):
                if x.op != 'sel' or x.args[0] is not y.args[0] or v not in x.args[1].vars: continue
                s = T._solve_index(x.args[1], v, y.args[1])
                if not s: t = T.match_index(x.args[1], y.args[1], v)
                elif s[0] is None or not all(z is TRUE for z in s[1]): continue
                else: t = s[0]
                if t is None or subst(x, {v: t}) is not y: continue
                i = subst(b, {v: t})
                left = [z for z in (i.args if i.op == 'or' else [i]) if not (is_arith(z) and self.quick(st, z) is False)]
                if len(left) != 1: continue
                for z in (left[0].args if left[0].op == 'and' else left):
                    if z is c: return True
                    if z is not_(c): return False
        return None
    def fam_lookup(self, st, h, key):
        """a cell of a family of stores whose index is unknown.  If what the path knows about the cell is false for every
        value the family stores, no member was stored at this key (which is then recorded); False: read the heap below"""
        g, n, kl, vl, cl = h.args
        nm = T.hname(h)
        v = freshvar('fi', 'Int'); pat = app(kl, v)
        t = T.match_index(pat, key, v)
        if t is not None and subst(pat, {v: t}) is key and app(cl, t) is TRUE:
            c = T.inrange(t, n)
            if (c is TRUE or self.decide(st)(c) is True) and self.injective(st, pat, v, n): return app(vl, t)
        if self.apart(st, pat, v, n, cl, key): return False
        t = mk('sel', (h, key), T.HEAPSORT[nm])
        fs = [f for f in st.facts if f.op != 'forall' and T.occurs(t, f)]
        if not fs: return None
        x = freshvar('fx', 'Int')
        sub = {t: app(vl, x)}
        if any(T.replace(f, sub) is FALSE for f in fs):
            st.assume(forall(x, or_(not_(and_(ge0(x), lt(x, n), app(cl, x))), not_(eq(app(kl, x), key)))))
            below = {t: sel(g, key, T.HEAPSORT[nm], self.decide(st))}
            for f in fs: st.assume(T.replace(f, below))
            return False
        return None
    def apart(self, st, pat, v, n, cl, key):
        """a fact says that the key is none of those of the family"""
        ne = not_(eq(pat, key))
        if ne.op not in ('not', 'or'): return False
        return any(forall(v, or_(not_(g), ne)) in st.fset for g in (and_(ge0(v), lt(v, n)), and_(ge0(v), lt(v, n), app(cl, v))))
    def injective(self, st, x, v, n):
        """different indices below n give different values, because of a fact about something the value determines"""
        D = self.decide(st)
        while True:
            for f in st.facts:
                if f.op == 'distinct' and app(f.args[1], v) is x and (f.args[0] is n or D(ge(f.args[0], n)) is True): return True
            if x.op == 'pair' and v not in x.args[0].vars: x = x.args[1]
            elif x.op == 'pstr': x = x.args[0]
            elif x.op == 'grp' and len(x.args) == 1 and v not in x.args[0][1].vars and D(eq(x.args[0][1], ZERO)) is False: x = x.args[0][0]
            else: return False
    def simp(self, st, v):
        """resolve the top-level conditions of a value that the path decides"""
        D = self.decide(st)
        while isinstance(v, Term) and v.op == 'ite':
            d = D(v.args[0])
            if d is None: break
            v = v.args[1] if d else v.args[2]
        return v
    def simpdeep(self, st, v):
        """resolve every condition in a value that the path decides"""
        D = self.decide(st); memo = {}
        def go(t):
            r = memo.get(t)
            if r is None:
                if t.op == 'ite':
                    d = D(t.args[0])
                    r = ite(go(t.args[0]), go(t.args[1]), go(t.args[2])) if d is None else go(t.args[1] if d else t.args[2])
                else: r = T.rebuild(t, go) if t.args and t.op != 'lam' else t
                memo[t] = r
            return r
        return go(v)
    def quick(self, st, c):
        fs = tuple(f for f in st.facts if is_arith(f))
        if CTX.permn:                                           # permutations stay in range
            for x in T.subterms(c):
                if x.op == 'sym' and x.args[0] in CTX.permn:
                    N = CTX.permn[x.args[0]]
                    if P.quick(fs, T.inrange(x, N)) is True: fs += (ge0(x), lt(x, N))
        return P.quick(fs, c)
    def load(self, st, t, a):
        p = self.p
        k = p.kind(t)
        if k == 'struct':
            return struct(p.canon(t), *[self.load(st, f['t'], fld(a, self.fname(t, i))) for i, f in enumerate(p.fields(t))])
        s = p.sort(t)
        if k == 'opaque': return a
        if s == 'Arr':
            n = self.smallarray(t)
            if n is None: return mk('arr', (t, a), 'Arr')
            return mk('arrv', (t,) + tuple(self.load(st, p.elem(t), elem(a, I(i))) for i in range(n)), 'Arr')
        if a.op == 'fld' and a.args[1] == 'nist.Int.M': return gobj('nist.q')
        if a.op == 'gobj':
            g = self.special_global(a.args[0], t)
            if g is not None: return g
        n = self.hname(t)
        h = self.heap(st, n, s, p.zero(t))
        if n == 'BI' and a is gobj('nist.q'): return Q
        v = sel(h, a, s, self.decide(st))
        return v
    def special_global(self, name, t):
        if name == 'github.com/dedis/crypto/random.Stream': return gobj('random.Stream')
        if name == 'github.com/dedis/crypto/abstract.RandomKey': return mk('rndkey', (), 'Bytes')
        if name == 'encoding/binary.BigEndian': return gobj('BigEndian')
        if name.startswith('os.Std'): return gobj(name)
        if name in self.gconst: return gobj(name + '*')
        return None
    def fname(self, t, i):
        c = self.p.canon(t)
        f = self.p.fields(t)[i]['name']
        if c == 'github.com/dedis/crypto/nist.Int': return 'nist.Int.' + f
        return f
    def store(self, st, t, a, v):
        p = self.p
        k = p.kind(t)
        if k == 'struct':
            if v.op != 'struct': raise Unsupported('store of opaque struct ' + t)
            for i, f in enumerate(p.fields(t)):
                self.store(st, f['t'], fld(a, self.fname(t, i)), v.args[1 + i])
            return
        if k == 'opaque':
            # copying an opaque library object: copy its state
            self.copy_opaque(st, a, v)
            return
        s = p.sort(t)
        if s == 'Arr':
            n = self.smallarray(t)
            if n is not None and v.op in ('arrzero', 'arrv'):
                for i in range(n): self.store(st, p.elem(t), elem(a, I(i)), v.args[1 + i] if v.op == 'arrv' else p.zero(p.elem(t)))
                return
            if v.op == 'arrzero': return
            raise Unsupported('array store')
        n = self.hname(t)
        h = self.heap(st, n, s, p.zero(t))
        if a.op == 'ite':
            # both branches get a conditional store
            c, x, y = a.args
            self.store(st, t, x, ite(c, v, self.load(st, t, x)))
            self.store(st, t, y, ite(c, self.load(st, t, y), v))
            return
        st.heaps[n] = hst(h, a, v)
    def copy_opaque(self, st, a, v):
        if v is NIL: return
        for n in ('HS',):
            if n in st.heaps:
                st.heaps[n] = hst(st.heaps[n], a, self.sp_load(st, n, v))
    # special heaps (ghost state of library objects)
    SPECIAL = {'PV': ('G', GZERO), 'HS': ('Bytes', BEMPTY), 'CT': ('Bytes', BEMPTY), 'AS': ('Str', None), 'BI': ('Int', ZERO), 'IT': ('Int', ZERO), 'ITM': ('Ref', None), 'BB': ('Bytes', BEMPTY), 'ERR': ('Str', None), 'CMD': ('Str', None)}
    def sp_load(self, st, n, a):
        s, z = self.SPECIAL[n]
        h = self.heap(st, n, s, z)
        if n == 'BI' and a is gobj('nist.q'): return Q
        return sel(h, a, s, self.decide(st))
    def sp_store(self, st, n, a, v):
        s, z = self.SPECIAL[n]
        if n == 'BI' and a in T.GCONST: raise Unsupported('a package constant is overwritten: ' + T.show(a))
        h = self.heap(st, n, s, z)
        if a.op == 'ite':
            c, x, y = a.args
            vx, vy = self.sp_load(st, n, x), self.sp_load(st, n, y)
            self.sp_store(st, n, x, ite(c, v, vx)); self.sp_store(st, n, y, ite(c, self.sp_load(st, n, y), v))
            return
        st.heaps[n] = hst(h, a, v)
    def pv(self, st, a): return self.sp_load(st, 'PV', a)
    def bi(self, st, a): return self.sp_load(st, 'BI', a)
    def sv(self, st, a): return self.sp_load(st, 'BI', fld(a, 'nist.Int.V'))
    def set_sv(self, st, a, v): self.sp_store(st, 'BI', fld(a, 'nist.Int.V'), v)
    # maps
    def mheaps(self, st, mt):
        u, x = self.p.under(mt)
        nd, nv = 'MD:' + u, 'MV:' + u
        vt = x['elem']
        return (nd, self.heap(st, nd, 'Bool', FALSE), nv, self.heap(st, nv, self.mvsort(vt), self.p.zero(vt)), x)
    def mapiter(self, st, mt, m):
        """(number of entries, domain, values, facts) of an iteration over a map, which visits every entry exactly once"""
        nd, hd, nv, hv, ty = self.mheaps(st, mt)
        n = ite(eq(m, NIL), ZERO, T.mlen(hd, m))
        hd = T.mstrip(hd, m); hv = T.mstrip(hv, m)
        ks = self.p.sort(ty['key'])
        w = freshvar('k', ks); ix = mk('mapidx', (hd, m, w), 'Int')
        f1 = forall(w, or_(not_(sel(hd, pair(m, w), 'Bool', self.decide(st))), and_(ge0(ix), lt(ix, n), eq(mk('mapkey', (hd, m, ix), w.sort), w))))
        w = freshvar('i', 'Int'); k = mk('mapkey', (hd, m, w), ks)
        f2 = forall(w, or_(not_(and_(ge0(w), lt(w, n))), eq(mk('mapidx', (hd, m, k), 'Int'), w)))
        return n, hd, hv, [f1, f2]
    def mvsort(self, vt):
        return self.p.sort(vt)
    def mapget(self, st, mt, m, k):
        nd, hd, nv, hv, x = self.mheaps(st, mt)
        d = self.decide(st)
        key = pair(m, k)
        ok = sel(hd, key, 'Bool', d)
        r = d(ok) if ok not in (TRUE, FALSE) else None
        if r is not None: ok = B(r)
        v = self.expand(x['elem'], sel(hv, key, self.mvsort(x['elem']), d))
        return ok, v, x['elem']
    def expand(self, t, v):
        """a struct value with its fields visible"""
        if v.sort != 'Struct' or v.op == 'struct': return v
        if v.op == 'ite': return ite(v.args[0], self.expand(t, v.args[1]), self.expand(t, v.args[2]))
        p = self.p
        return struct(p.canon(t), *[self.expand(f['t'], T.sfield(v, i, p.sort(f['t']))) for i, f in enumerate(p.fields(t))])
    def mapset(self, st, mt, m, k, v):
        nd, hd, nv, hv, x = self.mheaps(st, mt)
        key = pair(m, k)
        d = self.decide(st)
        ok = sel(hd, key, 'Bool', d)
        st.heaps[nv] = hst(hv, key, v)
        if ok is TRUE or d(ok) is True: return          # already present
        st.heaps[nd] = hst(hd, key, TRUE)
    def mapdel(self, st, mt, m, k):
        nd, hd, nv, hv, x = self.mheaps(st, mt)
        key = pair(m, k)
        ok = sel(hd, key, 'Bool', self.decide(st))
        st.heaps[nd] = hst(hd, key, FALSE)
        st.heaps[nv] = hst(hv, key, self.p.zero(x['elem']))

    def newpoint(self, st, site, ks, g):
        r = alloc(site, *ks); self.sp_store(st, 'PV', r, g); return r
    def newsecret(self, st, site, ks, v):
        r = alloc(site, *ks); self.set_sv(st, r, v); return r
    def newbig(self, st, site, ks, v):
        r = alloc(site, *ks); self.sp_store(st, 'BI', r, v); return r
    # ghost scalars
    GHOSTS = {'$sent': BAGE, '$nsent': ZERO}
    def ghost_init(self, n): return self.GHOSTS[n]
    def sent(self, st): return st.heaps.get('$sent', BAGE)
    def add_sent(self, st, e): st.heaps['$sent'] = bagadd(self.sent(st), bag1(e))
    def ghost(self, st, name, init):
        v = st.heaps.get(name)
        if v is None:
            v = st.heaps[name] = init
        return v

    # ---------------------------------------------------------------- operands
    def val(self, fr, st, o):
        if o is None: return None
        k = o['k']
        if k == 'reg':
            v = fr.regs.get(o['n'])
            if v is None: raise Unsupported('undefined register %s in %s' % (o['n'], fr.name))
            if isinstance(v, Term) and v.op == 'bytebuf':
                return self.sp_load(st, 'BB', v.args[0])
            return v
        if k == 'const':
            c = o.get('c'); t = o['t']; v = o.get('v', '')
            if c == 'nil': return self.p.zero(t)
            if c == 'bool': return B(v == 'true')
            if c == 'string': return S(v)
            if c == 'int': return I(int(v))
            if self.p.sort(t) == 'Int':
                return uf('float:' + v, 'Int')
            raise Unsupported('const ' + str(o))
        if k == 'global': return gobj(o['n'])
        if k == 'func': return mk('clo', (o['n'],), 'Clo')
        raise Unsupported('operand ' + k)
    def rawval(self, fr, o):
        if o and o['k'] == 'reg':
            v = fr.regs.get(o['n'])
            return v
        return None

    # ---------------------------------------------------------------- running code
    def call(self, name, st, args, site='', ks=(), free=(), instr=None):
        """list of (state, [results]) for normal returns; panicking paths are recorded as ('panic')"""
        outs = self.call_all(name, st, args, site, ks, free, instr)
        return [(o.st, o.vals) for o in outs if o.kind == 'ret']

    def call_all(self, name, st, args, site='', ks=(), free=(), instr=None):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
        c = self.contracts.get(name)
        if c is not None and name not in self.no_contract_for:
            self.used_contracts.add(name)
            return c.apply(self, st, args, site, ks)
        i = self.intr.get(name)
        if i is None and name.endswith('.init') and name not in self.p.funcs:
            return [Outcome('ret', st, [])]
        if i is not None:
            self.used_intr.add(name)
            r = i(self, st, args, site, ks, instr)
            out = []
            for x in r:
                if isinstance(x, Outcome): out.append(x)
                else: out.append(Outcome('ret', x[0], x[1]))
            return out
        f = self.p.funcs.get(name)
        if f is None or not f['blocks']:
            raise Unsupported('no model for external function ' + name)
        return self.inline(name, st, args, site, ks, free)

    def inline(self, name, st, args, site, ks, free=()):
        f = self.p.funcs[name]
        if self.depth > 25: raise Unsupported('recursion through ' + name)
        self.inlined.add(name)
        self.depth += 1
        try:
            fr = Frame(f, name, site + '/' + name.split('/')[-1], ks)
            if len(args) != len(f['params']): raise Unsupported('arity of %s' % name)
            for p, a in zip(f['params'], args): fr.regs[p['name']] = a
            for p, a in zip(f['free'], free): fr.regs[p['name']] = a
            outs = self.run(fr, st, 0, None, None)
        finally:
            self.depth -= 1
        return outs

    def run(self, fr, st, bid, prev, loop):
        """run from block bid; `loop`=(header, body) restricts to one iteration of that loop."""
        outs = []
        work = [(fr, st, bid, prev, 0, True)]
        fname = fr.name
        loops = self.p.loops(fname)
        nitems = 0
        while work:
            fr, st, bid, prev, idx, first = work.pop()
            nitems += 1
            if nitems > 4000: raise Unsupported('too many paths in ' + fname)
            if self.deadline and nitems % 50 == 0 and time.time() > self.deadline: raise Unsupported('time limit')
            if st.dead: continue
            if idx == 0 and not first:
                if loop is not None:
                    if bid == loop[0]:
                        outs.append(Outcome('back', st, None, fr, bid, prev)); continue
                    if bid not in loop[1]:
                        outs.append(Outcome('leave', st, None, fr, bid, prev)); continue
            if idx == 0 and bid in loops and not (loop is not None and bid == loop[0]):
                for o in self.do_loop(fr, st, bid, prev, loops[bid]):
                    if o.kind == 'leave':
                        work.append((o.fr, o.st, o.bid, o.prev, 0, False))
                    else: outs.append(o)
                continue
            r = self.block(fr, st, bid, prev, idx, outs, skip_phi=(loop is not None and bid == loop[0] and first and idx == 0))
            work.extend(reversed(r))
        return outs

    def do_phis(self, fr, st, blk, prev):
        vals = {}
        for ins in blk['instrs']:
            if ins['op'] != 'Phi': break
            i = blk['preds'].index(prev)
            vals[ins['reg']] = self.val(fr, st, ins['args'][i])
        fr.regs.update(vals)

    def block(self, fr, st, bid, prev, idx, outs, skip_phi=False):
        blk = fr.fn['blocks'][bid]
        ins = blk['instrs']
        if idx == 0 and not skip_phi: self.do_phis(fr, st, blk, prev)
        n = len(ins)
        while idx < n:
            x = ins[idx]
            op = x['op']
            if op == 'Phi': idx += 1; continue
            if op == 'Jump':
                return [(fr, st, blk['succs'][0], bid, 0, False)]
            if op == 'If':
                c = self.val(fr, st, x['args'][0])
                t, e = blk['succs']
                if c is TRUE or c in st.fset: return [(fr, st, t, bid, 0, False)]
                if c is FALSE or not_(c) in st.fset: return [(fr, st, e, bid, 0, False)]
                if is_arith(c):
                    q = self.quick(st, c)
                    if q is True:
                        st.assume(c); return [(fr, st, t, bid, 0, False)]
                    if q is False:
                        st.assume(not_(c)); return [(fr, st, e, bid, 0, False)]
                s2 = st.copy(); f2 = fr.fork()
                r = []
                if st.assume(c):
                    st.br.append(c); r.append((fr, st, t, bid, 0, False))
                if s2.assume(not_(c)):
                    s2.br.append(not_(c)); r.append((f2, s2, e, bid, 0, False))
                return r
            if op == 'Return':
                vals = [self.val(fr, st, a) for a in (x.get('args') or [])]
                outs.append(Outcome('ret', st, vals, fr))
                return []
            if op == 'Panic':
                outs.append(Outcome('panic', st, [self.val(fr, st, x['args'][0])], fr))
                return []
            if op == 'Call':
                rs = self.do_call(fr, st, x, bid, idx)
                nx = []
                for o in rs:
                    if o.kind != 'ret':
                        outs.append(o); continue
                    if o.st.dead: continue
                    nx.append(o)
                if len(nx) == 1:
                    o = nx[0]; st = o.st
                    self.setres(fr, x, o.vals)
                    idx += 1
                    continue
                r = []
                for o in nx:
                    f2 = fr.fork()
                    self.setres(f2, x, o.vals)
                    r.append((f2, o.st, bid, prev, idx + 1, True))
                return r
            forks = self.simple(fr, st, x, bid, idx)
            if forks is not None:
                if forks == 'dead': return []
            idx += 1
        raise Unsupported('block without terminator')

    def setres(self, fr, x, vals):
        if not x.get('reg'): return
        n = x.get('nres', 0)
        if n == 0: return
        if n == 1: fr.regs[x['reg']] = vals[0]
        else: fr.regs[x['reg']] = tuple(vals)

    def do_call(self, fr, st, x, bid, idx):
        a = x['args']
        site = '%s@%d.%d' % (fr.site, bid, idx)
        if x.get('flag'):
            recv = self.val(fr, st, a[0])
            args = [recv] + [self.val(fr, st, o) for o in a[1:]]
            return self.invoke(st, x, x['src'], x['s'], args, site, fr.ks, fr)
        o = a[0]
        if o['k'] == 'builtin':
            return [Outcome('ret', st, [self.builtin(fr, st, x, o['n'], a[1:], site)])]
        raw = [self.rawval(fr, y) for y in a[1:]]
        args = [self.val(fr, st, y) for y in a[1:]]
        if o['k'] == 'func':
            name = o['n']
            if name == '(encoding/binary.bigEndian).PutUint32':
                b = raw[1]
                if b is None or b.op != 'bytebuf': raise Unsupported('PutUint32 target')
                self.sp_store(st, 'BB', b.args[0], T.u32(args[2]))
                return [Outcome('ret', st, [])]
            return self.call_all(name, st, args, site, fr.ks, (), x)
        c = self.val(fr, st, o)
        return self.call_clo(c, st, args, site, fr.ks)
    def call_clo(self, c, st, args, site, ks):
        if c.op != 'clo': raise Unsupported('call of unknown function value')
        return self.call_all(c.args[0], st, args, site, ks, c.args[1:])

    def invoke(self, st, x, src, m, args, site, ks, fr):
        src = self.p.canon(src)
        if src == 'zRep/primitive/pedersen.Commitment': src = 'github.com/dedis/crypto/abstract.Point'
        if src == 'github.com/dedis/crypto/abstract.Suite' and m in ('Point', 'Secret'): src = 'github.com/dedis/crypto/abstract.Group'
        key = '%s::%s' % (src, m)
        i = self.intr.get(key)
        if i is None: raise Unsupported('no model for interface method ' + key)
        self.used_intr.add(key)
        if src == 'github.com/dedis/crypto/abstract.Point' and not st.assume(neq(args[0], NIL)): return []   # method of a nil interface: panics
        r = i(self, st, args, site, ks, x)
        return [o if isinstance(o, Outcome) else Outcome('ret', o[0], o[1]) for o in r]

    def builtin(self, fr, st, x, name, a, site):
        if name == 'len':
            v = self.val(fr, st, a[0])
            if v.sort == 'Slice': return slen(v)
            if v.sort == 'Bytes': return blen(v)
            if v.sort == 'Str': return strlen(v)
            if v.sort == 'Ref':
                nd, hd, nv, hv, _ = self.mheaps(st, a[0]['t'])
                return ite(eq(v, NIL), ZERO, T.mlen(hd, v))
            raise Unsupported('len')
        if name == 'append':
            s = self.val(fr, st, a[0])
            if s.sort == 'Bytes':
                b = self.val(fr, st, a[1])
                if b.sort == 'Str': b = s2b(b)
                return cat(s, b)
            return self.append(st, a[0]['t'], s, self.val(fr, st, a[1]), site, fr.ks)
        if name == 'delete':
            self.mapdel(st, a[0]['t'], self.val(fr, st, a[0]), self.val(fr, st, a[1]))
            return NIL
        if name == 'copy':
            d, s = self.val(fr, st, a[0]), self.val(fr, st, a[1])
            if d.sort != 'Slice' or s.sort != 'Slice': raise Unsupported('copy of bytes')
            c = le(slen(s), slen(d))
            k = self.decide(st)(c)
            n = slen(s) if k is True else slen(d) if k is False else ite(c, slen(s), slen(d))
            for nm, so, z, path in self.heaps_of(self.p.elem(a[0]['t'])):
                h = self.heap(st, nm, so, z)
                v, dec = self.inrange_decide(st, n)
                st.heaps[nm] = hfam(h, n, lam(v, self.pathref(self.elem_addr(d, v), path)), lam(v, sel(h, self.pathref(self.elem_addr(s, v), path), so, dec)), lam(v, TRUE))
            return n
        if name in ('min', 'max'):
            vs = [self.val(fr, st, y) for y in a]
            if any(v.sort != 'Int' for v in vs): raise Unsupported(name)
            r = vs[0]
            for v in vs[1:]: r = ite(le(r, v) if name == 'min' else le(v, r), r, v)
            return r
        raise Unsupported('builtin ' + name)

    def elem_addr(self, s, i): return elem(sref(s), add(soff(s), i))
    def heaps_of(self, t):
        """leaf heaps (name, sort, zero, path) for a value of type t"""
        p = self.p
        if p.kind(t) == 'struct':
            out = []
            for i, f in enumerate(p.fields(t)):
                for n, s, z, path in self.heaps_of(f['t']):
                    out.append((n, s, z, (self.fname(t, i),) + path))
            return out
        return [(self.hname(t), p.sort(t), p.zero(t), ())]
    @staticmethod
    def pathref(r, path):
        for f in path: r = fld(r, f)
        return r

    def append(self, st, t, s, more, site, ks):
        et = self.p.elem(t)
        n0 = slen(s)
        k = slen(more)
        r = sref(s)
        if not (r.op == 'alloc' and r.args[0].endswith('#app')):
            A = alloc(site + '#app', *ks)
            self.copy_slice(st, et, A, ZERO, s)
            s = slice_(A, ZERO, n0); r = A
        base = soff(s)
        if k.op == 'int' and k.args[0] <= 8:
            for i in range(k.args[0]):
                v = self.load(st, et, self.elem_addr(more, I(i)))
                self.store(st, et, elem(r, add(base, n0, I(i))), v)
        else:
            self.copy_slice(st, et, r, add(base, n0), more)
        return slice_(r, base, add(n0, k))
    def copy_slice(self, st, et, A, at, s):
        n0 = slen(s)
        if n0 is ZERO: return
        for nm, so, z, path in self.heaps_of(et):
            h = self.heap(st, nm, so, z)
            v, dec = self.inrange_decide(st, n0)
            src = self.pathref(self.elem_addr(s, v), path)
            st.heaps[nm] = hfam(h, n0, lam(v, self.pathref(elem(A, add(at, v)), path)), lam(v, sel(h, src, so, dec)), lam(v, TRUE))
    def inrange_decide(self, st, n):
        """a variable v and a decision procedure that also knows 0 <= v < n"""
        v = freshvar('c', 'Int')
        s2 = st.copy(); s2.assume(ge0(v)); s2.assume(lt(v, n))
        return v, self.decide(s2)

    def simple(self, fr, st, x, bid, idx):
        op = x['op']; p = self.p
        site = '%s@%d.%d' % (fr.site, bid, idx)
        A = x.get('args') or []
        R = fr.regs
        if op == 'Alloc':
            r = alloc(site, *fr.ks)
            R[x['reg']] = r
            et = p.elem(x['t'])
            self.init_zero(st, et, r, fr.ks)
            n = self.bytearray_len(et)
            if n is not None: self.sp_store(st, 'BB', r, (mk('zeros', (I(n),), 'Bytes') if n else BEMPTY))
            return
        if op == 'BinOp':
            R[x['reg']] = self.binop(st, x, self.val(fr, st, A[0]), self.val(fr, st, A[1]), A)
            return
        if op == 'UnOp':
            s = x['s']
            v = self.val(fr, st, A[0])
            if s == '*':
                t = x['t']
                R[x['reg']] = self.load(st, t, v)
            elif s == '!': R[x['reg']] = not_(v)
            elif s == '-': R[x['reg']] = neg(v)
            else: raise Unsupported('unop ' + s)
            return
        if op in ('ChangeType',):
            R[x['reg']] = self.val(fr, st, A[0]); return
        if op == 'ChangeInterface':
            v = self.val(fr, st, A[0])
            if p.sort(x['t']) == 'Any' and v.sort == 'Ref': v = ite(eq(v, NIL), NILANY, iface('iface', v))
            R[x['reg']] = v; return
        if op == 'Convert':
            R[x['reg']] = self.convert(self.val(fr, st, A[0]), A[0].get('t'), x['t']); return
        if op == 'MakeInterface':
            v = self.val(fr, st, A[0])
            if p.sort(x['t']) == 'Any': v = iface(p.canon(A[0]['t']), v)
            elif v.sort != 'Ref':
                # struct / value in a method interface: only library values reach here
                v = mk('ifref', (p.canon(A[0]['t']), v), 'Ref')
            R[x['reg']] = v; return
        if op == 'MakeClosure':
            R[x['reg']] = mk('clo', (A[0]['n'],) + tuple(self.val(fr, st, a) for a in A[1:]), 'Clo'); return
        if op == 'MakeMap':
            r = alloc(site, *fr.ks); R[x['reg']] = r; return
        if op == 'MakeSlice':
            n = self.val(fr, st, A[0])
            if p.sort(x['t']) == 'Bytes':
                r = alloc(site, *fr.ks)
                self.sp_store(st, 'BB', r, mk('zeros', (n,), 'Bytes') if n is not ZERO else BEMPTY)
                R[x['reg']] = mk('bytebuf', (r,), 'Bytes')
            else:
                R[x['reg']] = slice_(alloc(site, *fr.ks), ZERO, n)
            st.assume(ge0(n))
            return
        if op == 'FieldAddr':
            t = p.elem(A[0]['t'])
            R[x['reg']] = fld(self.val(fr, st, A[0]), self.fname(t, x.get('i', 0))); return
        if op == 'Field':
            v = self.val(fr, st, A[0])
            if v.op == 'ite':
                v2 = ite(v.args[0], v.args[1], v.args[2])
                v = v2
            R[x['reg']] = self.field(v, x.get('i', 0)); return
        if op == 'IndexAddr':
            b = self.val(fr, st, A[0]); i = self.val(fr, st, A[1])
            if b.sort == 'Bytes' or (b.sort == 'Ref' and self.bytearray_len(p.elem(A[0]['t'])) is not None):
                raise Unsupported('element address of a byte slice')
            if b.sort == 'Slice':
                r = self.elem_addr(b, i)
                self.inbounds(st, i, slen(b))
            else:
                r = elem(b, i)
            R[x['reg']] = r; return
        if op == 'Index':
            b = self.val(fr, st, A[0]); i = self.val(fr, st, A[1]); t = p.elem(A[0]['t'])
            n = self.smallarray(A[0]['t'])
            if b.op != 'arrv': raise Unsupported('Index')
            self.inbounds(st, i, I(n))
            if i.op == 'int':
                if not 0 <= i.args[0] < n: raise Unsupported('Index')
                R[x['reg']] = b.args[1 + i.args[0]]; return
            v = b.args[n]
            for k in range(n - 1): v = ite(eq(i, I(k)), b.args[1 + k], v)
            R[x['reg']] = v; return
        if op == 'Slice':
            b = self.val(fr, st, A[0])
            lo = self.val(fr, st, A[1]) or ZERO
            hi = self.val(fr, st, A[2])
            if b.sort == 'Slice':
                if hi is None: hi = slen(b)
                R[x['reg']] = slice_(sref(b), add(soff(b), lo), sub(hi, lo))
                self.inbounds(st, lo, add(hi, ONE))
            elif b.sort == 'Ref':
                u, ty = p.under(p.elem(A[0]['t']))
                if hi is None: hi = I(ty.get('len', 0))
                if self.bytearray_len(p.elem(A[0]['t'])) is not None:
                    if b.op != 'alloc' or lo is not ZERO or hi is not I(ty.get('len', 0)): raise Unsupported('part of a byte array')
                    R[x['reg']] = mk('bytebuf', (b,), 'Bytes'); return
                R[x['reg']] = slice_(b, lo, sub(hi, lo))
            elif b.sort == 'Str':
                if hi is None: hi = strlen(b)
                R[x['reg']] = T.substr(b, lo, hi)
            elif b.sort == 'Bytes':
                if hi is None: hi = blen(b)
                R[x['reg']] = uf('bsub', 'Bytes', b, lo, hi) if not (lo is ZERO and hi is blen(b)) else b
            else: raise Unsupported('slice of ' + b.sort)
            return
        if op == 'Lookup':
            m = self.val(fr, st, A[0]); k = self.val(fr, st, A[1])
            if m.sort == 'Str': raise Unsupported('string index')
            ok, v, vt = self.mapget(st, A[0]['t'], m, k)
            z = p.zero(vt)
            if x.get('flag'): R[x['reg']] = (ite(ok, v, z), ok)
            else: R[x['reg']] = ite(ok, v, z)
            return
        if op == 'MapUpdate':
            self.mapset(st, A[0]['t'], self.val(fr, st, A[0]), self.val(fr, st, A[1]), self.val(fr, st, A[2])); return
        if op == 'Range':
            m = self.val(fr, st, A[0])
            if m.sort != 'Ref': raise Unsupported('range over string')
            r = alloc(site, *fr.ks)
            self.sp_store(st, 'IT', r, ZERO)
            n, hd, hv, facts = self.mapiter(st, A[0]['t'], m)
            for f in facts: st.assume(f)
            R[x['reg']] = mk('iter', (r, m, hd, hv, n, A[0]['t']), 'Iter'); return
        if op == 'Next':
            it = self.val(fr, st, A[0])
            r, m, hd, hv, n, mt = it.args
            u, ty = p.under(mt)
            i = self.sp_load(st, 'IT', r)
            nd, hd1, nv, hv1, _ = self.mheaps(st, mt)
            if T.mstrip(hd1, m) is not hd or T.mstrip(hv1, m) is not hv: raise Unsupported('map changed while it is iterated over')
            k = mk('mapkey', (pair(m, hd), i), p.sort(ty['key'])) if False else mk('mapkey', (hd, m, i), p.sort(ty['key']))
            v = self.expand(ty['elem'], sel(hv, pair(m, k), self.mvsort(ty['elem']), self.decide(st)))
            self.sp_store(st, 'IT', r, add(i, ONE))
            ok = lt(i, n)
            st.assume(or_(not_(ok), sel(hd, pair(m, k), 'Bool', self.decide(st))))
            st.assume(ge0(n)) if not nonneg(n) else None
            R[x['reg']] = (ok, k, v); return
        if op == 'Extract':
            t = R.get(A[0]['n'])
            R[x['reg']] = t[x.get('i', 0)]; return
        if op == 'TypeAssert':
            v = self.val(fr, st, A[0])
            t = p.canon(x['s'])
            if p.sort(A[0]['t']) == 'Ref':
                if x.get('flag'): R[x['reg']] = (v, TRUE)
                else: R[x['reg']] = v
                return
            ts = p.sort(t)
            if p.kind(t) == 'interface': tid = 'iface'
            else: tid = t
            c = hastype(tid, v)
            if x.get('flag'):
                R[x['reg']] = (ite(c, unbox(tid, v, ts), p.zero(t)), c)
                return
            if not st.assume(c): return 'dead'
            while v.op == 'ite':
                if v.args[0] in st.fset or hastype(tid, v.args[2]) is FALSE: v = v.args[1]
                elif not_(v.args[0]) in st.fset or hastype(tid, v.args[1]) is FALSE: v = v.args[2]
                else: break
            R[x['reg']] = unbox(tid, v, ts); return
        if op == 'Store':
            t = p.elem(A[0]['t'])
            raw = self.rawval(fr, A[1])
            v = self.val(fr, st, A[1])
            self.store(st, t, self.val(fr, st, A[0]), v); return
        if op in ('RunDefers', 'Defer'): return
        if op == 'Go' and getattr(self, 'on_go', None) and x['args'][0]['k'] == 'func': self.on_go(st, x['args'][0]['n'], [self.val(fr, st, o) for o in x['args'][1:]]); return
        raise Unsupported('instruction %s in %s' % (op, fr.name))

    def smallarray(self, t):
        """number of elements of an array type that is handled by value"""
        u, ty = self.p.under(t)
        if ty.get('kind') != 'array' or self.bytearray_len(t) is not None: return None
        n = ty.get('len', 0)
        k = self.p.kind(self.p.elem(t))
        return n if 0 < n <= 16 and k not in ('array', 'opaque') else None
    def bytearray_len(self, t):
        u, ty = self.p.under(t)
        return ty.get('len', 0) if ty.get('kind') == 'array' and self.p.under(ty['elem'])[0] in ('byte', 'uint8') else None
    def init_zero(self, st, t, r, ks):
        """a fresh object is zero; objects of the initial heap are told apart by the heap reader, but a heap that was
        havocked needs an explicit store"""
        for nm, so, z, path in self.heaps_of_safe(t):
            h = self.heap(st, nm, so, z)
            b = h
            while b.op != 'hbase': b = b.args[0]
            if b.args[1] != 0:
                st.heaps[nm] = hst(h, self.pathref(r, path), z)
    def heaps_of_safe(self, t):
        try:
            k = self.p.kind(t)
            if k in ('opaque', 'array'): return []
            return [x for x in self.heaps_of(t) if x[1] != 'Arr']
        except Unsupported: return []

    def inbounds(self, st, i, n):
        # an out-of-range access panics: execution continues only in range (partial correctness)
        st.assume(and_(ge0(i), lt(i, n)))

    def field(self, v, i):
        if v.op == 'struct': return v.args[1 + i]
        if v.op == 'ite': return ite(v.args[0], self.field(v.args[1], i), self.field(v.args[2], i))
        raise Unsupported('field of opaque struct ' + v.op)

    def convert(self, v, ft, tt):
        p = self.p
        fs, ts = p.sort(ft), p.sort(tt)
        fu, tu = p.under(ft)[0], p.under(tt)[0]
        if fs == 'Str' and ts == 'Bytes': return s2b(v)
        if fs == 'Bytes' and ts == 'Str': return b2s(v)
        if fs == 'Int' and ts == 'Int':
            if 'float' in tu and 'float' not in fu: return uf('float', 'Int', v)
            if 'float' in fu and 'float' not in tu:
                if v.op == 'uf' and v.args[0] == 'sqrtf': return uf('isqrt', 'Int', v.args[1])
                return uf('trunc', 'Int', v)
            if tu in WRAP and fu != tu:
                if fu in WRAP and WRAP[fu] <= WRAP[tu]: return v
                return mod(v, I(2 ** WRAP[tu]))
            if tu in SIGNED:
                w = SIGNED[tu]
                if fu in SIGNED and SIGNED[fu] > w or fu in WRAP and WRAP[fu] >= w: return swrap(v, w)
            return v
        if fs == ts: return v
        raise Unsupported('convert %s -> %s' % (ft, tt))

    def binop(self, st, x, a, b, A):
        s = x['s']
        if s == '==' or s == '!=':
            if a.sort == 'Bytes' and (b is BEMPTY or a is BEMPTY):
                z = a if b is BEMPTY else b
                r = eq(blen(z), ZERO)
            elif a.sort == 'Slice' and b.sort == 'Slice':
                if b is NILSLICE: r = eq(slen(a), ZERO)
                elif a is NILSLICE: r = eq(slen(b), ZERO)
                else: raise Unsupported('slice comparison')
            elif a.sort == 'Any' or b.sort == 'Any':
                if a.sort != b.sort: raise Unsupported('iface compare')
                r = eq(a, b)
            elif a.sort == 'Clo':
                raise Unsupported('func compare')
            else: r = eq(a, b)
            return r if s == '==' else not_(r)
        t = self.p.under(x['t'])[0] if s not in ('<', '<=', '>', '>=') else None
        if a.sort == 'Str' and s == '+': return scat(a, b)
        if a.sort != 'Int':
            raise Unsupported('binop %s on %s' % (s, a.sort))
        if s == '<': return lt(a, b)
        if s == '<=': return le(a, b)
        if s == '>': return gt(a, b)
        if s == '>=': return ge(a, b)
        if s == '+': r = add(a, b)
        elif s == '-': r = sub(a, b)
        elif s == '*': r = mul(a, b)
        elif s == '/':
            if b.op == 'int' and b.args[0] > 0:
                r = ite(ge0(a), div(a, b), neg(div(neg(a), b)))
            else: r = uf('quo', 'Int', a, b)
        elif s == '%':
            if b.op == 'int' and b.args[0] > 0:
                r = ite(ge0(a), mod(a, b), neg(mod(neg(a), b)))
            elif t in WRAP: r = mod(a, b)
            else: r = uf('rem', 'Int', a, b)
        else: r = uf('op' + s, 'Int', a, b)
        if t in WRAP: r = mod(r, I(2 ** WRAP[t]))
        elif SIGNED.get(t, 64) < 64: r = swrap(r, SIGNED[t])
        return r

    def require(self, st, cond, text):
        if cond is TRUE: return
        self.pre_obl.append((list(st.facts), cond, text))
        st.assume(cond)
    def initial_state(self):
        st = State()
        return st
    def compute_globals(self):
        """package-level *big.Int variables that are only assigned by package initialisation"""
        self.gconst = {}
        p = self.p
        assigned = {}
        for n, f in p.funcs.items():
            isinit = n.endswith('.init') or '.init#' in n
            for b in f['blocks']:
                for x in b['instrs']:
                    if x['op'] == 'Store' and x['args'][0]['k'] == 'global':
                        assigned.setdefault(x['args'][0]['n'], set()).add(isinit)
        self.assigned = assigned
        for n, f in p.funcs.items():
            if not n.endswith('.init') or not f['blocks']: continue
            try:
                self.gconst_run = True
                outs = [o for o in self.inline(n, State(), [], 'init', ()) if o.kind == 'ret']
            except (Unsupported,) + T_ERR as e:
                continue
            if not outs: continue
            s = max(outs, key=lambda o: len(o.st.heaps)).st
            for g, gt in p.globals.items():
                if not g.startswith(n[:-5] + '.'): continue
                et = p.elem(gt)
                if assigned.get(g) != {True}: continue
                try:
                    if p.under(et)[1]['kind'] == 'pointer' and p.canon(p.elem(et)) == 'math/big.Int':
                        r = self.load(s, et, gobj(g)); v = self.bi(s, r)
                        if r.op == 'alloc' and v.op == 'int': self.gconst[g] = v; T.GCONST[gobj(g + '*')] = v
                except Unsupported: pass
        self.inlined.clear(); self.used_intr.clear()
    # loops live in loops.py
    def do_loop(self, fr, st, bid, prev, body):
        from . import loops
        return loops.summarise(self, fr, st, bid, prev, body)

def blen(b):
    if b.op == 'cat': return add(*[blen(x) for x in b.args]) if b.args else ZERO
    if b.op == 'blit': return I(len(b.args[0]))
    if b.op == 'u32': return I(4)
    if b.op in ('sb', 'pb'): return I(64)          # fixed sizes of the suite's secrets and points
    if b.op == 'ite': return ite(b.args[0], blen(b.args[1]), blen(b.args[2]))
    return mk('blen', (b,), 'Int')
T.blen = blen
T.REBUILD['blen'] = lambda t, go: blen(go(t.args[0]))
strlen = T.strlen
