"""Hash-consed terms with algebraic normal forms.

Sorts: Int Bool Bytes Str Ref G Any Slice Seq Rec Map Clo Lam Heap Pair Tup
Every constructor returns a normal form; see the individual functions for the (sound) rewrite rules used.
"""
import itertools
import sys
sys.setrecursionlimit(200000)

class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'vars', 'ld', 'pre', 'hasalloc', 'bit', 'mask', '__weakref__')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_cnt = [0]

class Ctx:
    """Facts about symbols that constructors may use: registered only from contract preconditions or
    from the definition of the symbol (e.g. a draw from a random source)."""
    def __init__(self):
        self.nonneg = set()
        self.units = set()     # (N term, atom)
        self.order = {}        # N term -> order of the unit group (exponents reduced modulo it)
        self.symnonneg = set()   # names of symbol families with values >= 0
        self.symmod = {}         # name of a symbol family -> modulus m: 0 <= value < m
        self.recs = {}           # fact that only defines a loop-carried value -> name of that value
        self.permn = {}          # name of a permutation family -> size
        self.bounds = {}         # name -> function(term) -> (lo, hi)
        self.unitsyms = set()    # (N term, name)
CTX = Ctx()
def reset_ctx():
    global CTX
    CTX.__init__()
    _subst_memo.clear()

_EMPTY = frozenset()
def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is not None:
        return t
    t = Term()
    t.op = op; t.args = args; t.sort = sort
    _cnt[0] += 1
    t.id = _cnt[0]
    vs = _EMPTY; ld = 0; pre = True; ha = False
    t.bit = mask = 1 << (t.id * 2654435761 >> 5) % 2048         # which subterms may occur: a quick negative answer
    if op == 'var':
        vs = frozenset((t,))
        pre = args[1] == 0
    elif op == 'sym':
        for a in args:
            if isinstance(a, Term):
                mask |= a.mask
                if a.vars: vs = vs | a.vars
                if a.ld > ld: ld = a.ld
        pre = False
    elif op == 'lam':
        v, b = args
        vs = b.vars - {v}
        ld = b.ld + 1
        pre = b.pre; ha = b.hasalloc; mask |= v.mask | b.mask
    else:
        if op == 'poly':
            it = (a for m, _ in args for a, _ in m)
        elif op == 'grp':
            it = [x for a in args for x in a]
        elif op == 'zn':
            it = [args[0]] + [x for a in args[1] for x in a]
        else:
            it = (a for a in args if isinstance(a, Term))
        for a in it:
            if isinstance(a, Term):
                mask |= a.mask
                if a.vars: vs = vs | a.vars if vs else a.vars
                if a.ld > ld: ld = a.ld
                if not a.pre: pre = False
                if a.hasalloc: ha = True
        if op == 'alloc':
            pre = False; ha = True
        elif op == 'hbase':
            pre = args[1] == 0
        elif op == 'sel' and args[0].op == 'hbase' and args[0].pre:
            pre = True; ha = False          # contents of the initial state, whatever the key
    t.vars = vs; t.ld = ld; t.pre = pre; t.hasalloc = ha; t.mask = mask
    _tab[k] = t
    return t

# ------------------------------------------------------------------ variables and constants
def sym(name, sort, *ks): return mk('sym', (name,) + ks, sort)
def uf(name, sort, *ks): return mk('uf', (name,) + ks, sort)
def var(name, sort, epoch=0):
    return mk('var', (name, epoch), sort)
_fresh = [0]
def freshvar(prefix, sort, epoch=0):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (prefix, _fresh[0]), epoch), sort)

TRUE = mk('bool', (True,), 'Bool')
FALSE = mk('bool', (False,), 'Bool')
def B(b): return TRUE if b else FALSE
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None:
        t = mk('int', (n,), 'Int'); _ints[n] = t
    return t
ZERO = I(0); ONE = I(1)
NIL = mk('nil', (), 'Ref')
NILANY = mk('nilany', (), 'Any')
def S(s): return mk('str', (s,), 'Str')
def isint(t): return t.op == 'int'

# group order of the suite's prime-order group, and its base point
Q = var('suite_order_q', 'Int')
CTX_ALWAYS_NONNEG = {Q}
GB = var('suite_base_g', 'G')
GZERO = mk('gzero', (), 'G')      # value of a fresh, never-set point (not a group element)
GID = mk('grp', (), 'G')

# ------------------------------------------------------------------ polynomials
def _todict(t):
    if t.op == 'int':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): 1}

def _frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return I(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk('poly', items, 'Int')

def add(*ts):
    d = {}
    for t in ts:
        if t.op == 'int':
            if t.args[0]: d[()] = d.get((), 0) + t.args[0]
        else:
            for m, c in _todict(t).items():
                d[m] = d.get(m, 0) + c
    return _frompoly(d)

def _mulmono(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))

def mul(*ts):
    r = {(): 1}
    for t in ts:
        n = {}
        td = _todict(t)
        for m1, c1 in r.items():
            for m2, c2 in td.items():
                m = _mulmono(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        r = n
    return _frompoly(r)
def neg(t): return mul(I(-1), t)
def sub(a, b): return add(a, neg(b))
def monos(t): return _todict(t)
def monoterm(m, c=1): return _frompoly({m: c})

def nonneg(t):
    """Sound syntactic test for t >= 0."""
    op = t.op
    if op == 'int': return t.args[0] >= 0
    if op == 'sym': return t.args[0] in CTX.symnonneg or t.args[0] in CTX.symmod or t in CTX.nonneg
    if t in CTX.nonneg or t in CTX_ALWAYS_NONNEG: return True
    if op == 'sel' and is_secretval(t): return True
    if op == 'poly':
        for m, c in t.args:
            if c < 0: return False
            for a, e in m:
                if e % 2 and not nonneg(a): return False
        return True
    if op in ('b2i', 'slen', 'blen', 'seqlen', 'abs', 'strlen', 'zn', 'maplen', 'first'): return True
    if op == 'mod': return True          # moduli are positive (checked where a modulus is introduced)
    if op == 'ite': return nonneg(t.args[1]) and nonneg(t.args[2])
    if op in ('div', 'quo'): return nonneg(t.args[0]) and nonneg(t.args[1])
    if op == 'bigsum':
        return nonneg(t.args[2].args[1])
    if op in ('u32of', 'pickhash', 'pubrand', 'pint', 'bat'): return True
    return False

def _strip(t, m):
    """Replace atoms mod(x,m) by x everywhere in polynomial t (valid modulo m); drop monomials with factor m."""
    if t.op == 'int': return t
    if t.op == 'mod' and t.args[1] is m: return t.args[0]
    if t.op == 'ite':
        x, y = _strip(t.args[1], m), _strip(t.args[2], m)
        return t if x is t.args[1] and y is t.args[2] else ite(t.args[0], x, y)
    if t.op != 'poly': return ZERO if t is m else t
    new = {}
    for mo, _ in t.args:
        for a, _ in mo:
            if a is m: new[a] = ZERO
            elif a.op == 'mod' and a.args[1] is m: new[a] = a.args[0]
            elif a.op == 'ite':
                x = _strip(a, m)
                if x is not a: new[a] = x
    if not new: return t
    acc = ZERO
    for mo, c in t.args:
        p = I(c)
        for a, e in mo:
            x = new.get(a, a)
            for _ in range(e): p = mul(p, x)
        acc = add(acc, p)
    return acc

def is_secretval(t):
    return t.op == 'sel' and t.args[1].op == 'fld' and t.args[1].args[1] == 'nist.Int.V'
def mod(a, m):
    """Euclidean remainder, 0 <= r < m for m > 0."""
    if a.op == 'int' and m.op == 'int' and m.args[0] > 0:
        return I(a.args[0] % m.args[0])
    if a.op == 'zn' and a.args[0] is m: return a
    while True:
        b = _strip(a, m)
        if b is a: break
        a = b
    if a is ZERO: return ZERO
    if m.op == 'int' and m.args[0] > 0:
        mm = m.args[0]
        if mm == 1: return ZERO
        if a.op == 'poly':
            a = _frompoly({mo: c % mm for mo, c in a.args})
        if a.op == 'int': return I(a.args[0] % mm)
    if a.op == 'ite': return ite(a.args[0], mod(a.args[1], m), mod(a.args[2], m))
    if a.op == 'int' and a.args[0] in (0, 1): return a      # moduli are > 1
    if a.op == 'mod' and a.args[1] is m: return a
    if a.op == 'sym' and CTX.symmod.get(a.args[0]) is m: return a
    if m is Q and (a.op == 'pickhash' or is_secretval(a)): return a
    # a product containing powers modulo m: merge into exponent normal form
    d = _todict(a)
    if len(d) == 1:
        (mo, c), = d.items()
        if c == 1 and any(x.op == 'zn' and x.args[0] is m for x, _ in mo):
            return _znmerge(m, [(x, I(e)) for x, e in mo])
    t = mk('mod', (a, m), 'Int')
    return t

def _modof(e, c):
    """the modulus m if every branch of e is c itself or a remainder modulo m (at least one is)"""
    if e.op == 'ite':
        ms = [_modof(x, c) for x in e.args[1:] if x is not c]
        return ms[0] if ms and all(m is ms[0] and m is not None for m in ms) else None
    return e.args[1] if e.op == 'mod' else None
def _unit(m, a):
    return (m, a) in CTX.units or (a.op == 'sym' and (m, a.args[0]) in CTX.unitsyms)

def _znmerge(m, factors):
    """factors: list of (atom, exponent poly) ; atoms may be zn terms of modulus m (with const exponent >= 0)."""
    d = {}
    left = []
    def put(a, e):
        if a.op == 'int' and a.args[0] == 1: return
        if a in d:
            e0 = d[a]
            if _unit(m, a) or (nonneg(e) and nonneg(e0)):
                d[a] = add(e0, e)
            else:
                left.append(mk('zn', (m, ((a, e),)), 'Int'))
        else:
            d[a] = e
    for a, e in factors:
        if a.op == 'zn' and a.args[0] is m:
            for b, f in a.args[1]:
                put(b, mul(f, e))
        else:
            put(a, e)
    o = CTX.order.get(m)
    items = {}
    for a, e in d.items():
        if o is not None and _unit(m, a):
            while True:
                e2 = _strip(e, o)
                if e2 is e: break
                e = e2
            if o.op == 'int':
                if e.op == 'int': e = I(e.args[0] % o.args[0])
                elif e.op == 'poly': e = _frompoly({mo: c % o.args[0] for mo, c in e.args})
        if e is ZERO: continue
        items[a] = e
    if all(e.op == 'int' and e.args[0] > 0 for e in items.values()):
        base = mul(*[a for a, e in items.items() for _ in range(e.args[0])]) if items else ONE
        if left: return mk('mod', (mul(base, *left), m), 'Int')
        return mod(base, m) if base is not ONE else ONE
    it = tuple(sorted(items.items(), key=lambda ae: ae[0].id))
    z = mk('zn', (m, it), 'Int')
    if left: return mk('mod', (mul(z, *left), m), 'Int')
    return z

def modexp(b, e, m):
    """b^e mod m (for e < 0: the inverse power, b must be a unit)."""
    if b.op == 'int' and e.op == 'int' and m.op == 'int' and e.args[0] >= 0:
        return I(pow(b.args[0], e.args[0], m.args[0]))
    if e is ZERO: return ONE
    if e is ONE: return mod(b, m)
    if b.op == 'ite': return ite(b.args[0], modexp(b.args[1], e, m), modexp(b.args[2], e, m))
    if e.op == 'ite' : return ite(e.args[0], modexp(b, e.args[1], m), modexp(b, e.args[2], m))
    if b.op == 'mod' and b.args[1] is m: b = b.args[0]
    if b.op == 'zn' and b.args[0] is m:
        ok = all(_unit(m, a) or (nonneg(f) and nonneg(e)) for a, f in b.args[1])
        if ok:
            return _znmerge(m, [(a, mul(f, e)) for a, f in b.args[1]])
        return _znmerge(m, [(mk('opaque', (b,), 'Int'), e)])
    d = _todict(b)
    if len(d) == 1:
        (mo, c), = d.items()
        if c == 1 and mo and (len(mo) > 1 or mo[0][1] > 1):
            if all(_unit(m, a) or nonneg(e) for a, _ in mo):
                return _znmerge(m, [(a, mul(I(x), e)) for a, x in mo])
    return _znmerge(m, [(b, e)])

def div(a, b):
    if a.op == 'int' and b.op == 'int' and b.args[0] > 0: return I(a.args[0] // b.args[0])
    if b is ONE: return a
    if b.op == 'int' and b.args[0] > 1 and a.op == 'poly':       # floor((b*x + y) / b) = x + floor(y / b)
        k = b.args[0]
        x = {mo: c // k for mo, c in a.args if c // k}
        if x:
            x = _frompoly(x); return add(x, div(sub(a, mul(b, x)), b))
    return mk('div', (a, b), 'Int')
def absv(a):
    if a.op == 'int': return I(abs(a.args[0]))
    if nonneg(a): return a
    return mk('abs', (a,), 'Int')

# ------------------------------------------------------------------ suite group (prime order Q)
def _gdict(g):
    if g.op == 'grp': return dict(g.args)
    return {g: ONE}
def _gfrom(d):
    items = {}
    for a, e in d.items():
        while True:
            e2 = _strip(e, Q)
            if e2 is e: break
            e = e2
        if e is not ZERO: items[a] = e
    if len(items) == 1:
        (a, e), = items.items()
        if e is ONE: return a
    return mk('grp', tuple(sorted(items.items(), key=lambda ae: ae[0].id)), 'G')
def gmul(*gs):
    d = {}
    for g in gs:
        if g.op == 'gzero': return GZERO
        for a, e in _gdict(g).items():
            d[a] = add(d[a], e) if a in d else e
    return _gfrom(d)
def gexp(g, e):
    if g.op == 'gzero': return GZERO
    if g.op == 'ite': return ite(g.args[0], gexp(g.args[1], e), gexp(g.args[2], e))
    return _gfrom({a: mul(f, e) for a, f in _gdict(g).items()})
def ginv(g): return gexp(g, I(-1))

# ------------------------------------------------------------------ bytes
BEMPTY = mk('cat', (), 'Bytes')
def blit(b):
    if isinstance(b, str): b = b.encode('utf-8')
    if not b: return BEMPTY
    return mk('blit', (b,), 'Bytes')
def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'cat': out.extend(p.args)
        else: out.append(p)
    r = []
    for p in out:
        if p.op == 'blit' and r and r[-1].op == 'blit':
            r[-1] = blit(r[-1].args[0] + p.args[0])
        else: r.append(p)
    if len(r) == 1: return r[0]
    return mk('cat', tuple(r), 'Bytes')
def i2b(x):
    """big.Int.Bytes: absolute value, big endian, minimal length."""
    if x is ZERO: return BEMPTY
    if x.op == 'int':
        n = abs(x.args[0]); return blit(n.to_bytes((n.bit_length() + 7) // 8, 'big'))
    if x.op == 'b2i' and False: pass
    return mk('i2b', (absv(x),), 'Bytes')
def b2i(b):
    if b is BEMPTY: return ZERO
    if b.op == 'blit': return I(int.from_bytes(b.args[0], 'big'))
    if b.op == 'i2b': return b.args[0]
    if b.op == 'pb': return mk('pint', (b.args[0],), 'Int')
    return mk('b2i', (b,), 'Int')
def u32(x):
    if x.op == 'int': return blit((x.args[0] % 2**32).to_bytes(4, 'big'))
    return mk('u32', (x,), 'Bytes')
def u32of(b):
    if b.op == 'u32': return mod(b.args[0], I(2**32))
    return mk('u32of', (b,), 'Int')
def pb(g): return mk('pb', (g,), 'Bytes')        # canonical encoding of a group element
def unpb(b):
    if b.op == 'pb': return b.args[0]
    if b.op == 'i2b' and b.args[0].op == 'pint': return b.args[0].args[0]
    return mk('unpb', (b,), 'G')
def pvalid(b):
    """b decodes to a valid group element"""
    if b.op == 'pb': return B(b.args[0] is not GZERO)
    if b.op == 'i2b' and b.args[0].op == 'pint': return TRUE
    return mk('pvalid', (b,), 'Bool')
def sb(x):                                        # fixed length encoding of a secret 0<=x<q
    return mk('sb', (_canonsec(x),), 'Bytes')
def _canonsec(x): return mod(x, Q)
def unsb(b):
    if b.op == 'sb': return b.args[0]
    return mod(mk('unsb', (b,), 'Int'), Q)
def pstr(g): return mk('pstr', (g,), 'Str')       # textual form of a group element (injective)
def s2b(s):
    if s.op == 'str': return blit(s.args[0])
    if s.op == 'b2s': return s.args[0]
    return mk('s2b', (s,), 'Bytes')
def b2s(b):
    if b.op == 's2b': return b.args[0]
    return mk('b2s', (b,), 'Str')
def scat(*ss):
    out = []
    for s in ss:
        if s.op == 'scat': out.extend(s.args)
        elif s.op == 'str' and s.args[0] == '': continue
        else: out.append(s)
    r = []
    for s in out:
        if s.op == 'str' and r and r[-1].op == 'str': r[-1] = S(r[-1].args[0] + s.args[0])
        else: r.append(s)
    if not r: return S('')
    if len(r) == 1: return r[0]
    return mk('scat', tuple(r), 'Str')
def strlen(s):
    if s.op == 'str': return I(len(s.args[0].encode()))
    if s.op == 'scat': return add(*[strlen(x) for x in s.args])
    return mk('strlen', (s,), 'Int')
def substr(s, lo, hi):
    """the bytes lo..hi of a text"""
    if lo is ZERO:
        if hi is strlen(s): return s
        if s.op == 'scat' and s.args[-1].op == 'str':
            x = s.args[-1].args[0]; y = x[:-1]
            if x[-1:].isascii() and ge0(sub(sub(strlen(s), ONE), hi)) is TRUE: return substr(scat(*(s.args[:-1] + (S(y),))), lo, hi)
    return uf('substr', 'Str', s, lo, hi)
def enc(kind, v): return mk('enc', (kind, v), 'Bytes')
def dec(kind, b, sort):
    if b.op == 'enc' and b.args[0] == kind: return b.args[1]
    return mk('dec', (kind, b), sort)
def hashb(alg, b): return mk('hash', (alg, b), 'Bytes')

# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ge0': return ge0(sub(I(-1), a.args[0]))
    if a.op == 'ite' : return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', (a,), 'Bool')
def _flat(op, ts, unit, zero):
    out = set(); st = list(ts)
    while st:
        t = st.pop()
        if t is unit: continue
        if t is zero: return None
        if t.op == op: st.extend(t.args)
        else: out.add(t)
    return out
def and_(*ts):
    s = _flat('and', ts, TRUE, FALSE)
    if s is None: return FALSE
    for t in s:
        if not_(t) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk('and', tuple(sorted(s, key=lambda t: t.id)), 'Bool')
def or_(*ts):
    s = _flat('or', ts, FALSE, TRUE)
    if s is None: return TRUE
    for t in s:
        if not_(t) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return next(iter(s))
    return mk('or', tuple(sorted(s, key=lambda t: t.id)), 'Bool')
def implies(a, b): return or_(not_(a), b)
def ge0(p):
    if p.op == 'int': return B(p.args[0] >= 0)
    if nonneg(p): return TRUE
    if nonneg(sub(I(-1), p)): return FALSE
    return mk('ge0', (p,), 'Bool')
def ge(a, b): return ge0(sub(a, b))
def le(a, b): return ge(b, a)
def gt(a, b): return ge(a, add(b, ONE))
def lt(a, b): return gt(b, a)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'Bool':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.sort == 'Slice' and a.op == 'slice' and b.op == 'slice':
        return mk('slice', tuple(ite(c, x, y) for x, y in zip(a.args, b.args)), 'Slice')
    if a.op == b.op == 'struct' and a.args[0] == b.args[0]:
        return mk('struct', (a.args[0],) + tuple(ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])), a.sort)
    return mk('ite', (c, a, b), a.sort)

def _poly_canon_sign(p):
    """canonical representative of {p,-p} with content removed"""
    d = _todict(p)
    from math import gcd
    g = 0
    for c in d.values(): g = gcd(g, abs(c))
    items = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    s = 1
    for m, c in items:
        if m != ():
            s = 1 if c > 0 else -1
            break
    return _frompoly({m: s * c // g for m, c in d.items()})

INJ = {'pb', 'pstr', 's2b', 'enc', 'iface', 'sb', 'fld', 'slice', 'pair', 'struct', 'rec', 'i2b', 'put', 'b2s'}
CONSTOPS = {'str', 'blit', 'int', 'bool'}

def eq(a, b):
    if a is b: return TRUE
    s = a.sort
    if a.sort != b.sort:
        raise TypeError('eq sorts %s %s: %s / %s' % (a.sort, b.sort, show(a)[:200], show(b)[:200]))
    if a.op in CONSTOPS and b.op in CONSTOPS: return FALSE
    if s == 'Int':
        d = sub(a, b)
        if d.op == 'int': return B(d.args[0] == 0)
        if d.op != 'poly' or len(d.args) <= 2:
            if a.op == 'ite' and (b.op == 'int'): return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
            if b.op == 'ite' and (a.op == 'int'): return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
        if nonneg(sub(d, ONE)) or nonneg(sub(neg(d), ONE)): return FALSE
        return mk('eq0', (_poly_canon_sign(d),), 'Bool')
    if s == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return mk('iff', (a, b), 'Bool')
    if s == 'G':
        if a.op == 'ite' and a.args[1].sort == 'G' and False: pass
        if a is GZERO or b is GZERO:
            x = b if a is GZERO else a
            if x.op not in ('ite', 'gbad', 'uf'): return FALSE      # symbolic points denote group elements
        q = gmul(a, ginv(b))
        if q is GID: return TRUE
        if q.op != 'gzero':
            if q.op == 'grp':
                # canonical orientation
                a0, e0 = q.args[0]
                qi = ginv(q)
                ia = dict(qi.args)[a0] if qi.op == 'grp' else ONE
                if e0 is not _posorient(e0, ia): q = qi
            else:
                pass
            return mk('geq1', (q,), 'Bool')
    if s == 'Bytes':
        if a.op == 'cat' or b.op == 'cat':
            x = list(a.args) if a.op == 'cat' else [a]
            y = list(b.args) if b.op == 'cat' else [b]
            ch = False
            while x and y and x[0] is y[0]: x.pop(0); y.pop(0); ch = True
            while x and y and x[-1] is y[-1]: x.pop(); y.pop(); ch = True
            if ch: return eq(cat(*x), cat(*y))
            # fixed-length heads
            if x and y and x[0].op == y[0].op and x[0].op in FIXED and len(x) + len(y) > 2:
                return and_(eq(x[0], y[0]), eq(cat(*x[1:]), cat(*y[1:])))
            if x and y and x[-1].op == y[-1].op and x[-1].op in FIXED and len(x) + len(y) > 2:
                return and_(eq(x[-1], y[-1]), eq(cat(*x[:-1]), cat(*y[:-1])))
            if (not x and any(z.op in FIXED or z.op in NONEMPTY for z in y)) or (not y and any(z.op in FIXED or z.op in NONEMPTY for z in x)): return FALSE
        if a.op == 'u32' and b.op == 'u32': return eq(mod(a.args[0], I(2 ** 32)), mod(b.args[0], I(2 ** 32)))
    if s == 'Struct' and (a.op == 'struct') != (b.op == 'struct') and 'ite' not in (a.op, b.op):
        if b.op == 'struct': a, b = b, a
        return and_(*[eq(x, sfield(b, i, x.sort)) for i, x in enumerate(a.args[1:])])
    if s == 'Ref':
        if ref_distinct(a, b): return FALSE
    if s == 'Any':
        if (a.op == 'nilany' and b.op == 'iface') or (b.op == 'nilany' and a.op == 'iface'): return FALSE
    if a.op == 'ite' and s in ('Ref', 'Any', 'Slice'): return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and s in ('Ref', 'Any', 'Slice'): return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == b.op and a.op in INJ and len(a.args) == len(b.args):
        cs = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term): cs.append(eq(x, y) if x.sort == y.sort else FALSE)
            elif x != y: return FALSE
        return and_(*cs)
    if a.op == b.op == 'mrec' and a.args[0::2] == b.args[0::2]:
        return and_(*[eq(x, y) if x.sort == y.sort else FALSE for x, y in zip(a.args[1::2], b.args[1::2])])
    if a.op == b.op == 'bag':
        x = list(a.args); y = list(b.args)
        for t in a.args:
            if t in y: x.remove(t); y.remove(t)
        if len(x) != len(y): return FALSE
        if len(x) <= 3: return or_(*[and_(*[eq(u, v) for u, v in zip(x, p)]) for p in itertools.permutations(y)])
    if a.op == b.op == 'elem':
        return and_(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
    if a.op == b.op == 'alloc' and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'Bool')
FIXED = {'pb', 'sb', 'u32', 'hash'}
NONEMPTY = {'enc', 'blit'}
def _posorient(e, ie):
    # choose the exponent whose leading coefficient is positive
    d = _todict(e)
    items = sorted(d.items(), key=lambda mc: tuple((a.id, x) for a, x in mc[0]))
    return e if items and items[0][1] > 0 else ie
def neq(a, b): return not_(eq(a, b))

# ------------------------------------------------------------------ references
def alloc(site, *ks): return mk('alloc', (site,) + tuple(ks), 'Ref')
def fld(r, f): return mk('fld', (r, f), 'Ref')
def elem(r, i): return mk('elem', (r, i), 'Ref')
def gobj(name): return mk('gobj', (name,), 'Ref')
def pair(a, b): return mk('pair', (a, b), 'Pair')
def root(r):
    while r.op in ('fld', 'elem'): r = r.args[0]
    return r
def int_distinct(a, b):
    d = sub(a, b)
    return (d.op == 'int' and d.args[0] != 0) or nonneg(sub(d, ONE)) or nonneg(sub(neg(d), ONE))
def ref_distinct(a, b):
    if a is b: return False
    ao, bo = a.op, b.op
    if ao == 'ite': return ref_distinct(a.args[1], b) and ref_distinct(a.args[2], b)
    if bo == 'ite': return ref_distinct(a, b.args[1]) and ref_distinct(a, b.args[2])
    if ao == 'alloc' and bo == 'alloc':
        if a.args[0] != b.args[0] or len(a.args) != len(b.args): return True
        return any(int_distinct(x, y) for x, y in zip(a.args[1:], b.args[1:]))
    if ao == 'fld' and bo == 'fld':
        return a.args[1] != b.args[1] or ref_distinct(a.args[0], b.args[0])
    if ao == 'elem' and bo == 'elem':
        return ref_distinct(a.args[0], b.args[0]) or int_distinct(a.args[1], b.args[1])
    ra, rb = root(a), root(b)
    if ra.op == 'alloc' and rb.op != 'alloc':
        if rb.op in ('nil', 'gobj'): return True
        if b.pre and not b.hasalloc: return True
    if rb.op == 'alloc' and ra.op != 'alloc':
        if ra.op in ('nil', 'gobj'): return True
        if a.pre and not a.hasalloc: return True
    if ao in ('fld', 'elem', 'alloc') and bo in ('fld', 'elem', 'alloc') and ao != bo: return True
    if 'nil' in (ao, bo): return ao in ('alloc', 'fld', 'elem', 'gobj') or bo in ('alloc', 'fld', 'elem', 'gobj')
    if ao == 'gobj' and bo == 'gobj': return True
    if 'gobj' in (ao, bo) and (ao in ('fld', 'elem') or bo in ('fld', 'elem')): return True
    return False

def key_distinct(a, b):
    if a is b: return False
    if a.op == 'pair' and b.op == 'pair':
        return key_distinct(a.args[0], b.args[0]) or key_distinct(a.args[1], b.args[1])
    if a.sort == 'Ref': return ref_distinct(a, b)
    if a.sort == 'Int': return int_distinct(a, b)
    return eq(a, b) is FALSE

# ------------------------------------------------------------------ slices, structs
def slice_(r, off, n): return mk('slice', (r, off, n), 'Slice')
NILSLICE = slice_(NIL, ZERO, ZERO)
def sref(s):
    if s.op == 'slice': return s.args[0]
    if s.op == 'ite': return ite(s.args[0], sref(s.args[1]), sref(s.args[2]))
    return mk('sref', (s,), 'Ref')
def soff(s):
    if s.op == 'slice': return s.args[1]
    return ZERO         # symbolic slices denote a view whose backing reference already starts at the view
def slen(s):
    if s.op == 'slice': return s.args[2]
    if s.op == 'ite': return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    return mk('slen', (s,), 'Int')
def struct(tid, *fs): return mk('struct', (tid,) + fs, 'Struct')
def sfield(v, i, sort):
    if v.op == 'struct': return v.args[1 + i]
    if v.op == 'ite': return ite(v.args[0], sfield(v.args[1], i, sort), sfield(v.args[2], i, sort))
    return mk('sfield', (v, i), sort)
def iface(tid, v):
    return mk('iface', (tid, v), 'Any')
def unbox(tid, a, sort):
    if a.op == 'iface' and a.args[0] == tid: return a.args[1]
    if a.op == 'ite': return ite(a.args[0], unbox(tid, a.args[1], sort), unbox(tid, a.args[2], sort))
    return mk('unbox', (tid, a), sort)
def hastype(tid, a):
    if a.op == 'iface': return B(a.args[0] == tid)
    if a.op == 'nilany': return FALSE
    if a.op == 'ite': return ite(a.args[0], hastype(tid, a.args[1]), hastype(tid, a.args[2]))
    return mk('hastype', (tid, a), 'Bool')

# ------------------------------------------------------------------ binders
def lam(v, body):
    cv = mk('var', ('$%d' % body.ld, 0), v.sort)
    if cv is not v:
        body = subst(body, {v: cv})
        # substitution may have changed the binder depth
        cv2 = mk('var', ('$%d' % body.ld, 0), v.sort)
        if cv2 is not cv: body = subst(body, {cv: cv2}); cv = cv2
    return mk('lam', (cv, body), 'Lam')
def app(l, x):
    v, b = l.args
    return subst(b, {v: x})
def mklam(f, sort='Int', hint='b'):
    v = freshvar(hint, sort)
    return lam(v, f(v))
def forall(v, body):
    if body is TRUE or body is FALSE: return body
    if v not in body.vars: return body
    if body.op == 'and': return and_(*[forall(v, x) for x in body.args])
    return mk('forall', (lam(v, body),), 'Bool')
def exists(v, body):
    return not_(forall(v, not_(body)))
def seq(n, l):                       # sequence comprehension
    # eta: seq(seqlen(s), i -> seqget(s,i)) = s
    v, b = l.args
    if b.op == 'seqget' and b.args[1] is v and v not in b.args[0].vars and n is seqlen(b.args[0]): return b.args[0]
    return mk('seq', (n, l), 'Seq')
def seqlen(s):
    if s.op == 'seq': return s.args[0]
    if s.op == 'ite': return ite(s.args[0], seqlen(s.args[1]), seqlen(s.args[2]))
    return mk('seqlen', (s,), 'Int')
def seqget(s, i, sort):
    if s.op == 'seq': return app(s.args[1], i)
    if s.op == 'ite': return ite(s.args[0], seqget(s.args[1], i, sort), seqget(s.args[2], i, sort))
    return mk('seqget', (s, i), sort)
def rec(tid, *fs): return mk('rec', (tid,) + fs, 'Rec')
def recget(r, i, sort):
    if r.op == 'rec': return r.args[1 + i]
    if r.op == 'ite': return ite(r.args[0], recget(r.args[1], i, sort), recget(r.args[2], i, sort))
    return mk('recget', (r, i), sort)

def _split_mono(m, v):
    dep = tuple((a, e) for a, e in m if v in a.vars)
    ind = tuple((a, e) for a, e in m if v not in a.vars)
    return ind, dep
def bigsum(lo, hi, l):
    if lo is hi: return ZERO
    v, b = l.args
    w = freshvar('s', 'Int')
    b = subst(b, {v: w})
    acc = ZERO
    for m, c in _todict(b).items():
        ind, dep = _split_mono(m, w)
        if not dep:
            # summand constant in the index; (hi-lo) is used only when the range is known to be non-negative
            n = sub(hi, lo)
            if nonneg(n): acc = add(acc, mul(monoterm(ind, c), n)); continue
            acc = add(acc, mul(monoterm(ind, c), mk('bigsum', (lo, hi, lam(w, ONE)), 'Int')))
        else:
            acc = add(acc, mul(monoterm(ind, c), mk('bigsum', (lo, hi, lam(w, monoterm(dep))), 'Int')))
    return acc
def bigprod(lo, hi, l):
    if lo is hi: return GID
    v, b = l.args
    w = freshvar('s', 'Int')
    b = subst(b, {v: w})
    acc = GID
    for a, e in _gdict(b).items():
        if w not in a.vars:
            acc = gmul(acc, gexp(a, bigsum(lo, hi, lam(w, e))))
        else:
            for m, c in _todict(e).items():
                ind, dep = _split_mono(m, w)
                x = mk('bigprod', (lo, hi, lam(w, gexp(a, monoterm(dep)))), 'G')
                acc = gmul(acc, gexp(x, monoterm(ind, c)))
    return acc
def bigcat(lo, hi, l):
    if lo is hi: return BEMPTY
    return mk('bigcat', (lo, hi, l), 'Bytes')
def first(n, l):
    """the first i in 0..n-1 with l(i), or n"""
    if n is ZERO: return ZERO
    return mk('first', (n, l), 'Int')
def first_facts(f):
    n, l = f.args
    w = freshvar('b', 'Int')
    return [ge0(f), le(f, n), or_(eq(f, n), app(l, f)), forall(w, or_(not_(and_(ge0(w), lt(w, f))), not_(app(l, w))))]
def bigbag(lo, hi, l):
    if lo is hi: return BAGE
    return mk('bigbag', (lo, hi, l), 'Bag')
BAGE = mk('bag', (), 'Bag')
def bag1(e): return mk('bag', (e,), 'Bag')
def bagadd(*bs):
    out = []
    for b in bs:
        if b.op == 'bag' : out.extend(b.args)
        elif b.op == 'bag+': out.extend(b.args)
        else: out.append(b)
    els = [x for x in out if x.sort != 'Bag']; bgs = [x for x in out if x.sort == 'Bag']
    els.sort(key=lambda t: t.id); bgs.sort(key=lambda t: t.id)
    if not bgs: return mk('bag', tuple(els), 'Bag')
    if not els and len(bgs) == 1: return bgs[0]
    return mk('bag+', tuple(els) + tuple(bgs), 'Bag')

# ------------------------------------------------------------------ heaps
HEAPZERO = {}      # heap name -> zero value term
HEAPSORT = {}
def hbase(name, tag, epoch=0): return mk('hbase', (name, epoch, tag), 'Heap')
def hname(h):
    while h.op != 'hbase': h = h.args[0]
    return h.args[0]
def hst(h, key, val):
    if h.op == 'hst' and h.args[1] is key: h = h.args[0]
    return mk('hst', (h, key, val), 'Heap')
def hhav(h, tag, pats):
    """h with unknown contents at every key matching one of the one-parameter patterns"""
    return mk('hhav', (h, tag) + tuple(pats), 'Heap')
def hfn(h, m, l):
    """h in which map m has at every key k the value l(k)"""
    return mk('hfn', (h, m, l), 'Heap')
def hfam(h, n, kl, vl, cl):
    """for j = 0..n-1 in order: if cl(j): store key kl(j) := vl(j)"""
    if n is ZERO: return h
    return mk('hfam', (h, n, kl, vl, cl), 'Heap')

def _solve_index(keypat, v, key):
    """find t with keypat[v:=t] == key; returns (t, conditions) or None. Only for patterns injective in v."""
    if keypat is key: return (None, [])   # independent
    if keypat.op == 'pair' and key.op == 'pair':
        r0 = v in keypat.args[0].vars; r1 = v in keypat.args[1].vars
        if r1 and not r0:
            s = _solve_index(keypat.args[1], v, key.args[1])
            return s and (s[0], s[1] + [eq(keypat.args[0], key.args[0])])
        if r0 and not r1:
            s = _solve_index(keypat.args[0], v, key.args[0])
            return s and (s[0], s[1] + [eq(keypat.args[1], key.args[1])])
        if r0 and r1:
            s = _solve_index(keypat.args[0], v, key.args[0]) or _solve_index(keypat.args[1], v, key.args[1])
            if s and s[0] is not None:
                return (s[0], s[1] + [eq(subst(keypat, {v: s[0]}), key)])
        return None
    if keypat.sort == 'Int' and key.sort == 'Int':
        d = _todict(keypat)
        m = ((v, 1),)
        if d.get(m) in (1, -1) and all(v not in a.vars for mo in d if mo != m for a, _ in mo):
            rest = sub(keypat, monoterm(m, d[m]))
            t = sub(key, rest)
            if d[m] == -1: t = neg(t)
            return (t, [])
        return None
    if keypat.op == 'alloc' and key.op == 'alloc' and keypat.args[0] == key.args[0] and len(keypat.args) == len(key.args):
        t = None; cs = []
        for x, y in zip(keypat.args[1:], key.args[1:]):
            if v in x.vars and t is None:
                s = _solve_index(x, v, y)
                if not s: return None
                t = s[0]; cs += s[1]
            else: cs.append((x, y))
        if t is None: return None
        return (t, [c if isinstance(c, Term) else eq(subst(c[0], {v: t}), c[1]) for c in cs])
    if keypat.op == key.op and keypat.op in ('fld', 'elem'):
        if keypat.op == 'fld' and keypat.args[1] != key.args[1]: return None
        if keypat.op == 'fld':
            return _solve_index(keypat.args[0], v, key.args[0])
        r0 = v in keypat.args[0].vars; r1 = v in keypat.args[1].vars
        if r1 and not r0:
            s = _solve_index(keypat.args[1], v, key.args[1])
            return s and (s[0], s[1] + [eq(keypat.args[0], key.args[0])])
        if r0 and not r1:
            s = _solve_index(keypat.args[0], v, key.args[0])
            return s and (s[0], s[1] + [eq(keypat.args[1], key.args[1])])
    return None

def zero_of_heap(name):
    return HEAPZERO.get(name)

GCONST = {}    # package-level constants (address of the number -> value), see Exec.compute_globals
def mstrip(h, m):
    """the part of a map heap that concerns map m"""
    while True:
        if h.op == 'hst':
            if not ref_distinct(h.args[1].args[0], m): return h
        elif h.op == 'hfam':
            if not ref_distinct(app(h.args[2], freshvar('q', 'Int')).args[0], m): return h
        elif h.op == 'hfn':
            if not ref_distinct(h.args[1], m): return h
        elif h.op == 'hhav':
            for pl in h.args[2:]:
                if isinstance(pl, Term) and pl.op == 'lam' and not ref_distinct(app(pl, itvar()).args[0], m): return h
        else: return h
        h = h.args[0]
def mlen(h, m):
    """number of entries: a function of the domain"""
    if m.op == 'ite': return ite(m.args[0], mlen(h, m.args[1]), mlen(h, m.args[2]))
    h = mstrip(h, m)
    if h.op == 'hbase' and h.args[1] == 0 and root(m).op == 'alloc': return ZERO
    r = mk('mlen', (h, m), 'Int'); CTX.nonneg.add(r)
    return r

def itvar():
    """the number of some iteration"""
    v = freshvar('hv', 'Int'); CTX.nonneg.add(v); return v
def ipeq(a, b): return TRUE if a is b else mk('ipeq', tuple(sorted((a, b), key=lambda t: t.id)), 'Bool')
def inrange(t, n):
    """0 <= t < n; a permutation of 0..n-1 stays in range"""
    while t.op == 'sym' and t.args[0] in CTX.permn and sub(CTX.permn[t.args[0]], n) is ZERO: t = t.args[-1]
    return and_(ge0(t), lt(t, n))
def distinct(n, l): return mk('distinct', (n, l), 'Bool')         # the values l(0), ..., l(n-1) differ
def match_index(pat, key, v):
    """t with pat[v:=t] == key, by structure"""
    if pat is v: return key
    if v not in pat.vars: return None
    if pat.op != key.op:
        return None
    if pat.op == 'poly': 
        s = _solve_index(pat, v, key); return s and s[0]
    if pat.op == 'grp':
        if len(pat.args) != 1 or len(key.args) != 1: return None
        return match_index(pat.args[0][0], key.args[0][0], v)
    if len(pat.args) != len(key.args): return None
    for x, y in zip(pat.args, key.args):
        if isinstance(x, Term) and v in x.vars:
            t = match_index(x, y, v)
            if t is not None: return t
    return None
def sel(h, key, sort=None, decide=None):
    """read heap h at key; `decide(cond)` may return True/False/None using path facts."""
    name = hname(h)
    if sort is None: sort = HEAPSORT[name]
    if key.op == 'ite':
        return ite(key.args[0], sel(h, key.args[1], sort, decide), sel(h, key.args[2], sort, decide))
    if key.op == 'pair' and key.args[0].op == 'ite':
        c, x, y = key.args[0].args
        return ite(c, sel(h, pair(x, key.args[1]), sort, decide), sel(h, pair(y, key.args[1]), sort, decide))
    if key.op == 'gobj' and name == 'BI' and key in GCONST: return GCONST[key]
    while True:
        if h.op == 'hbase':
            if h.args[1] == 0:
                r = key.args[0] if key.op == 'pair' else key
                if r.sort == 'Ref' and root(r).op == 'alloc':
                    z = zero_of_heap(name)
                    if z is not None: return z
            return mk('sel', (h, key), sort)
        if h.op == 'hst':
            k = h.args[1]
            if k is key: return h.args[2]
            if key_distinct(k, key): h = h.args[0]; continue
            c = eq(k, key)
            if c is TRUE: return h.args[2]
            if decide is not None:
                d = decide(c)
                if d is True: return h.args[2]
                if d is False: h = h.args[0]; continue
            rest = sel(h.args[0], key, sort, decide)
            return ite(c, h.args[2], rest)
        if h.op == 'hfn':
            m = h.args[1]
            if key.op != 'pair': h = h.args[0]; continue
            if key.args[0] is m: return app(h.args[2], key.args[1])
            if ref_distinct(key.args[0], m): h = h.args[0]; continue
            d = decide(eq(key.args[0], m)) if decide is not None else None
            if d is False: h = h.args[0]; continue
            return mk('sel', (h, key), sort)
        if h.op == 'hhav':
            ok = True
            for pl in h.args[2:]:
                if isinstance(pl, Term) and pl.op == 'lam':
                    if not key_distinct(app(pl, itvar()), key): ok = False; break
            if ok: h = h.args[0]; continue
            return mk('sel', (h, key), sort)
        if h.op == 'hfam':
            g, n, kl, vl, cl = h.args
            v = freshvar('fi', 'Int')
            kp = app(kl, v)
            # quick root test
            if key_distinct(kp, key): h = g; continue
            s = _solve_index(kp, v, key)
            if s is not None and s[0] is not None:
                t, cs = s
                c = and_(inrange(t, n), app(cl, t), *cs)
                if c is FALSE: h = g; continue
                if c is TRUE: return app(vl, t)
                if decide is not None:
                    d = decide(c)
                    if d is True: return app(vl, t)
                    if d is False: h = g; continue
                return ite(c, app(vl, t), sel(g, key, sort, decide))
            if decide is not None:
                # non-injective pattern (e.g. map keyed by data): nothing stored at this key?
                r = decide(('fam', h, key))
                if r is not None:
                    if r is False: h = g; continue
                    return r
            return mk('sel', (h, key), sort)
        raise AssertionError(h.op)

# ------------------------------------------------------------------ substitution (re-normalising)
_subst_memo = {}
def subst(t, m):
    if not m: return t
    mk_ = frozenset(m.items())
    memo = _subst_memo.setdefault(mk_, {})
    keys = frozenset(m)
    if len(_subst_memo) > 3000: _subst_memo.clear(); memo = {}
    def go(t):
        if not (t.vars & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'var': r = m.get(t, t)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def rebuild(t, go):
    op = t.op; a = t.args
    if op == 'lam':
        v, b = a
        w = freshvar('r', v.sort)
        b2 = subst(b, {v: w})
        return lam(w, go(b2))
    f = REBUILD.get(op)
    if f is not None: return f(t, go)
    return mk(op, tuple(go(x) if isinstance(x, Term) else x for x in a), t.sort)

def _rb_poly(t, go):
    acc = {}
    for m, c in t.args:
        p = I(c)
        for x, e in m:
            y = go(x)
            for _ in range(e): p = mul(p, y)
        for mm, cc in _todict(p).items(): acc[mm] = acc.get(mm, 0) + cc
    return _frompoly(acc)
def _rb_grp(t, go):
    return gmul(*[gexp(go(x), go(e)) for x, e in t.args]) if t.args else t
def _rb_zn(t, go):
    m = go(t.args[0])
    fs = [modexp(go(x), go(e), m) for x, e in t.args[1]]
    if len(fs) == 1: return fs[0]
    return mod(mul(*fs), m)
def _un(f): return lambda t, go: f(*[go(x) if isinstance(x, Term) else x for x in t.args])
REBUILD = {
 'poly': _rb_poly, 'grp': _rb_grp, 'zn': _rb_zn,
 'mod': _un(mod), 'div': _un(div), 'abs': _un(absv), 'cat': _un(cat), 'i2b': _un(i2b), 'b2i': _un(b2i),
 'u32': _un(u32), 'u32of': _un(u32of), 'pb': _un(pb), 'unpb': _un(unpb), 'sb': _un(sb),
 'pvalid': _un(pvalid), 'pstr': _un(pstr), 's2b': _un(s2b), 'b2s': _un(b2s), 'scat': _un(scat), 'strlen': _un(strlen), 'enc': _un(enc),
 'hash': _un(hashb), 'not': _un(not_), 'and': _un(and_), 'or': _un(or_), 'ge0': _un(ge0), 'ite': _un(ite),
 'eq0': lambda t, go: eq(go(t.args[0]), ZERO),
 'geq1': lambda t, go: eq(go(t.args[0]), GID),
 'eq': _un(eq), 'iff': _un(eq), 'sref': _un(sref), 'slen': _un(slen),
 'iface': _un(iface), 'hastype': _un(hastype),
 'unbox': lambda t, go: unbox(t.args[0], go(t.args[1]), t.sort),
 'dec': lambda t, go: dec(t.args[0], go(t.args[1]), t.sort),
 'forall': lambda t, go: _rb_forall(t, go),
 'seq': _un(seq), 'seqlen': _un(seqlen),
 'seqget': lambda t, go: seqget(go(t.args[0]), go(t.args[1]), t.sort),
 'sfield': lambda t, go: sfield(go(t.args[0]), t.args[1], t.sort),
 'recget': lambda t, go: recget(go(t.args[0]), t.args[1], t.sort),
 'first': _un(first), 'bigsum': _un(bigsum), 'bigprod': _un(bigprod), 'bigcat': _un(bigcat), 'bigbag': _un(bigbag),
 'bag': lambda t, go: bagadd(*[bag1(go(x)) for x in t.args]) if t.args else t,
 'bag+': lambda t, go: bagadd(*[(go(x) if x.sort == 'Bag' else bag1(go(x))) for x in t.args]),
 'distinct': _un(distinct), 'ipeq': _un(ipeq), 'hst': _un(hst), 'hfam': _un(hfam), 'mlen': _un(mlen),
 'sel': lambda t, go: sel(go(t.args[0]), go(t.args[1]), t.sort),
 'ref_distinct': None,
}
def _rb_forall(t, go):
    v, b = t.args[0].args
    w = freshvar('q', v.sort)
    return forall(w, go(subst(b, {v: w})))

def replace(t, m, memo=None):
    """replace arbitrary subterms (keys of m) bottom-up with re-normalisation"""
    if memo is None: memo = {}
    km = 0
    for k in m: km |= k.bit
    def go(t):
        if not t.mask & km: return t
        r = m.get(t)
        if r is not None: return r
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('var', 'int', 'bool', 'str', 'blit', 'nil', 'nilany', 'hbase', 'gobj', 'gzero'): r = t
        else:
            r = rebuild(t, go)
            r2 = m.get(r)
            if r2 is not None: r = r2
        memo[t] = r
        return r
    return go(t)

def iteresolve(t, dec, memo):
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('var', 'int', 'bool', 'str', 'blit', 'nil', 'nilany', 'hbase', 'gobj', 'gzero', 'sym', 'alloc'): r = t
        elif t.op == 'ite' and t.args[0] in dec: r = go(t.args[1] if dec[t.args[0]] is TRUE else t.args[2])
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)
def polyreduce(t, x, k, rest, memo):
    """rewrite x^k to rest inside every polynomial of t"""
    def red(p):
        for _ in range(6):
            if p.op != 'poly': return p
            acc = {}; ch = False
            for m, c in p.args:
                e = dict(m).get(x, 0)
                if e >= k:
                    ch = True
                    q = mul(monoterm(tuple((a, b) if a is not x else (a, b - k) for a, b in m if not (a is x and b == k)), c), rest)
                else: q = monoterm(m, c)
                for mm, cc in _todict(q).items(): acc[mm] = acc.get(mm, 0) + cc
            if not ch: return p
            p = _frompoly(acc)
        return p
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('var', 'int', 'bool', 'str', 'blit', 'nil', 'nilany', 'hbase', 'gobj', 'gzero', 'sym', 'alloc'): r = t
        else: r = red(rebuild(t, go))
        memo[t] = r
        return r
    return go(t)

def occurs(l, t):
    """l is a subterm of t"""
    b = l.bit; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x is l: return True
        if x in seen or not x.mask & b: continue
        seen.add(x)
        st.extend(children(x))
    return False
def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for a in children(x): st.append(a)
    return seen
def children(x):
    if x.op == 'poly':
        return [a for m, _ in x.args for a, _ in m]
    if x.op == 'grp': return [y for ae in x.args for y in ae]
    if x.op == 'zn': return [x.args[0]] + [y for ae in x.args[1] for y in ae]
    return [a for a in x.args if isinstance(a, Term)]

# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, Term): return repr(t)
    op = t.op; a = t.args
    if d > 14: return '...'
    s = lambda x: show(x, d + 1)
    if op in ('var',): return a[0]
    if op in ('int', 'bool'): return str(a[0])
    if op == 'str': return repr(a[0])
    if op == 'poly':
        out = []
        for m, c in a:
            f = '*'.join(s(x) + ('^%d' % e if e > 1 else '') for x, e in m)
            out.append((('%d*' % c if c not in (1,) else '') + f) if f else str(c))
        return '(' + ' + '.join(out) + ')'
    if op == 'grp': return '{' + ' '.join(s(x) + '^' + s(e) for x, e in a) + '}'
    if op == 'zn': return 'zn[%s]{' % s(a[0]) + ' '.join(s(x) + '^' + s(e) for x, e in a[1]) + '}'
    if op == 'ge0': return '(%s >= 0)' % s(a[0])
    if op == 'eq0': return '(%s == 0)' % s(a[0])
    if op == 'eq' or op == 'iff': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'lam': return '\\%s. %s' % (s(a[0]), s(a[1]))
    if op == 'hbase': return 'H.%s%s' % (a[0], '' if a[1] == 0 else '@%s' % (a[2],))
    if op == 'sel': return '%s[%s]' % (s(a[0]), s(a[1]))
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, Term) else str(x) for x in a))
