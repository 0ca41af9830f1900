"""Trusted contracts of library functions (the assumptions of the verification; listed in the evidence)."""
from . import terms as T
from .terms import *
from .exec import Unsupported, Outcome, blen, strlen

INTR = {}
DOC = {}
def intr(*names, doc=''):
    def d(f):
        for n in names: INTR[n] = f; DOC[n] = doc
        return f
    return d

CTX_MODQ = set()
def nonnil(st, *rs):
    """a nil operand panics: execution continues only with operands present"""
    for r in rs: st.assume(neq(r, NIL))
def draw(E, site, ks, what='pick'):
    """a uniformly random exponent"""
    n = what + ':' + site
    CTX.symmod[n] = Q
    return sym(n, 'Int', *ks)

AP = 'github.com/dedis/crypto/abstract.'
RNDKEY = mk('rndkey', (), 'Bytes')
def secure(E, st, s):
    """the stream is the secure random source or a cipher with a random key"""
    return s is gobj('random.Stream') or (s.op in ('alloc', 'fld') and E.sp_load(st, 'HS', s) is mk('seed', (RNDKEY,), 'Bytes'))
def rndname(E, st, s, what, site): return what + site if secure(E, st, s) else 'weak' + what + site
# ---------------------------------------------------------------- suite, points, secrets
@intr('github.com/dedis/crypto/nist.NewAES128SHA256QR512', doc='the NIST QR512 suite: a group of prime order q with fixed base')
def _(E, st, a, site, ks, x): return [(st, [gobj('suite.QR512')])]
@intr(AP + 'Group::Point', doc='a fresh point, not yet a group element')
def _(E, st, a, site, ks, x): return [(st, [E.newpoint(st, site, ks, GZERO)])]
@intr(AP + 'Group::Secret', doc='a fresh zero exponent')
def _(E, st, a, site, ks, x): return [(st, [E.newsecret(st, site, ks, ZERO)])]
@intr(AP + 'Point::Mul', doc='exponentiation (nil base: the suite base point)')
def _(E, st, a, site, ks, x):
    r, b, s = a
    isnil = eq(b, NIL)
    d = E.decide(st)(isnil)
    g = GB if d is True or isnil is TRUE else E.pv(st, b) if d is False or isnil is FALSE else ite(isnil, GB, E.pv(st, b))
    E.sp_store(st, 'PV', r, gexp(g, E.sv(st, s)) if g.op != 'ite' else ite(g.args[0], gexp(g.args[1], E.sv(st, s)), gexp(g.args[2], E.sv(st, s))))
    return [(st, [r])]
@intr(AP + 'Point::Add', doc='group operation')
def _(E, st, a, site, ks, x):
    nonnil(st, a[1], a[2])
    E.sp_store(st, 'PV', a[0], gm(E.pv(st, a[1]), E.pv(st, a[2]))); return [(st, [a[0]])]
@intr(AP + 'Point::Sub', doc='group operation with the inverse')
def _(E, st, a, site, ks, x):
    nonnil(st, a[1], a[2])
    E.sp_store(st, 'PV', a[0], gm(E.pv(st, a[1]), gexp(E.pv(st, a[2]), I(-1)))); return [(st, [a[0]])]
@intr(AP + 'Point::Neg', doc='the inverse element')
def _(E, st, a, site, ks, x):
    nonnil(st, a[1])
    E.sp_store(st, 'PV', a[0], gexp(E.pv(st, a[1]), I(-1))); return [(st, [a[0]])]
@intr(AP + 'Point::Null', doc='the neutral element')
def _(E, st, a, site, ks, x): E.sp_store(st, 'PV', a[0], GID); return [(st, [a[0]])]
@intr(AP + 'Point::Base', doc='the base point')
def _(E, st, a, site, ks, x): E.sp_store(st, 'PV', a[0], GB); return [(st, [a[0]])]
@intr(AP + 'Point::Equal', doc='equality of values')
def _(E, st, a, site, ks, x):
    nonnil(st, a[0], a[1])
    return [(st, [eq(E.pv(st, a[0]), E.pv(st, a[1]))])]
@intr(AP + 'Point::String', doc='injective text of the value')
def _(E, st, a, site, ks, x): return [(st, [pstr(E.pv(st, a[0]))])]
@intr(AP + 'Point::MarshalBinary', doc='canonical fixed-length encoding')
def _(E, st, a, site, ks, x): return [(st, [pb(E.pv(st, a[0])), NIL])]
def newerr(st, site, ks): return alloc(site + '#err', *ks)
@intr(AP + 'Point::UnmarshalBinary', doc='decodes exactly the encodings of group elements, otherwise an error')
def _(E, st, a, site, ks, x):
    ok = T.pvalid(a[1])
    E.sp_store(st, 'PV', a[0], ite(ok, T.unpb(a[1]), mk('gbad', (a[1],), 'G')))
    return [(st, [ite(ok, NIL, newerr(st, site, ks))])]
def gm(a, b):
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == 'ite': return ite(x.args[0], gm(x.args[1], y), gm(x.args[2], y))
    return gmul(a, b)

@intr(AP + 'Secret::Add', doc='addition modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(add(E.sv(st, a[1]), E.sv(st, a[2])), Q)); return [(st, [a[0]])]
@intr(AP + 'Secret::Sub', doc='subtraction modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(sub(E.sv(st, a[1]), E.sv(st, a[2])), Q)); return [(st, [a[0]])]
@intr(AP + 'Secret::Mul', doc='multiplication modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(mul(E.sv(st, a[1]), E.sv(st, a[2])), Q)); return [(st, [a[0]])]
@intr(AP + 'Secret::Neg', doc='negation modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(neg(E.sv(st, a[1])), Q)); return [(st, [a[0]])]
def qinv(x):
    if x is ONE: return ONE
    return mk('qinv', (x,), 'Int')
@intr(AP + 'Secret::Inv', doc='inverse modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(qinv(E.sv(st, a[1])), Q)); return [(st, [a[0]])]
@intr(AP + 'Secret::Div', doc='division modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(mul(E.sv(st, a[1]), qinv(E.sv(st, a[2]))), Q)); return [(st, [a[0]])]
@intr(AP + 'Secret::Set', doc='copy')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], E.sv(st, a[1])); return [(st, [a[0]])]
@intr(AP + 'Secret::Zero', doc='0')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], ZERO); return [(st, [a[0]])]
@intr(AP + 'Secret::One', doc='1')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], ONE); return [(st, [a[0]])]
@intr(AP + 'Secret::SetInt64', doc='value modulo q')
def _(E, st, a, site, ks, x): E.set_sv(st, a[0], T.mod(a[1], Q)); return [(st, [a[0]])]
@intr(AP + 'Secret::Equal', doc='equality of values')
def _(E, st, a, site, ks, x): return [(st, [eq(E.sv(st, a[0]), E.sv(st, a[1]))])]
@intr(AP + 'Secret::MarshalBinary', doc='canonical fixed-length encoding')
def _(E, st, a, site, ks, x): return [(st, [T.sb(E.sv(st, a[0])), NIL])]
@intr(AP + 'Secret::UnmarshalBinary', doc='inverse of MarshalBinary, error on other lengths')
def _(E, st, a, site, ks, x):
    ok = svalid(a[1])
    E.set_sv(st, a[0], T.unsb(a[1]))
    return [(st, [ite(ok, NIL, newerr(st, site, ks))])]
def svalid(b): return TRUE if b.op == 'sb' else mk('svalid', (b,), 'Bool')
T.REBUILD['svalid'] = lambda t, go: svalid(go(t.args[0]))
T.REBUILD['qinv'] = lambda t, go: qinv(go(t.args[0]))
@intr(AP + 'Secret::Pick', doc='a draw from the given stream: fresh and uniform for random.Stream, a function of the seed and messages for a suite cipher')
def _(E, st, a, site, ks, x):
    s = a[1]
    if secure(E, st, s):
        v = draw(E, site, ks)
    else:
        h = E.sp_load(st, 'HS', s)
        v = mk('pickhash', (h,), 'Int')
        E.sp_store(st, 'HS', s, cat(h, blit('#pick')))
    E.set_sv(st, a[0], v)
    return [(st, [a[0]])]

# ---------------------------------------------------------------- hashes and ciphers
@intr(AP + 'Suite::Hash', 'crypto/sha256.New', doc='a collision-free hash (uninterpreted injective function of the bytes written)')
def _(E, st, a, site, ks, x):
    r = alloc(site, *ks)
    E.sp_store(st, 'HS', r, BEMPTY)
    return [(st, [r])]
@intr('hash.Hash::Write', doc='appends to the hashed bytes')
def _(E, st, a, site, ks, x):
    E.sp_store(st, 'HS', a[0], cat(E.sp_load(st, 'HS', a[0]), a[1])); return [(st, [blen(a[1]), NIL])]
@intr('hash.Hash::Sum', doc='the digest of the bytes written')
def _(E, st, a, site, ks, x): return [(st, [cat(a[1], T.hashb('sha256', E.sp_load(st, 'HS', a[0])))])]
@intr(AP + 'Suite::Cipher', doc='a cipher seeded with the given bytes, or with a random key for abstract.RandomKey')
def _(E, st, a, site, ks, x):
    r = alloc(site, *ks)
    E.sp_store(st, 'HS', r, mk('seed', (a[1],), 'Bytes'))
    return [(st, [r])]
@intr('(' + AP + 'Cipher).Message', doc='absorbs the message into the cipher state')
def _(E, st, a, site, ks, x):
    E.sp_store(st, 'HS', a[0], cat(E.sp_load(st, 'HS', a[0]), mk('absorb', (a[1], a[2], a[3]), 'Bytes')))
    return [(st, [a[0]] if x.get('nres', 0) == 1 else [])]

# ---------------------------------------------------------------- math/big
BIG = '(*math/big.Int).'
def big(name, f, doc):
    @intr(BIG + name, doc=doc)
    def _(E, st, a, site, ks, x):
        E.sp_store(st, 'BI', a[0], f(*[E.bi(st, r) for r in a[1:]])); return [(st, [a[0]])]
big('Add', add, 'integer addition'); big('Sub', sub, 'integer subtraction'); big('Mul', mul, 'integer multiplication')
big('Neg', neg, 'negation'); big('Set', lambda x: x, 'copy'); big('Mod', T.mod, 'Euclidean remainder'); big('Div', T.div, 'Euclidean quotient')
big('Abs', lambda x: ite(ge0(x), x, neg(x)), 'absolute value')
big('Quo', lambda p, m: ite(ge0(p), T.div(p, m), neg(T.div(neg(p), m))), 'truncated quotient (divisors are positive in the code)')
def shift(st, x):
    if x.op != 'int' or not 0 <= x.args[0] <= 4096: raise Unsupported('shift by a variable amount')
    return I(2 ** x.args[0])
@intr(BIG + 'Lsh', doc='multiplication by a power of two')
def _(E, st, a, site, ks, x): E.sp_store(st, 'BI', a[0], mul(E.bi(st, a[1]), shift(st, a[2]))); return [(st, [a[0]])]
@intr(BIG + 'Rsh', doc='floor division by a power of two')
def _(E, st, a, site, ks, x): E.sp_store(st, 'BI', a[0], T.div(E.bi(st, a[1]), shift(st, a[2]))); return [(st, [a[0]])]
@intr(BIG + 'ModInverse', doc='the inverse modulo n; nil when there is none')
def _(E, st, a, site, ks, x):
    b, m = E.bi(st, a[1]), E.bi(st, a[2])
    ok = unitp(b, m)
    E.sp_store(st, 'BI', a[0], ite(ok, T.modexp(b, I(-1), m), E.bi(st, a[0])))
    return [(st, [ite(ok, a[0], NIL)])]
@intr(BIG + 'SetUint64', doc='value')
def _(E, st, a, site, ks, x): E.sp_store(st, 'BI', a[0], a[1]); return [(st, [a[0]])]
@intr(BIG + 'CmpAbs', doc='-1, 0, 1')
def _(E, st, a, site, ks, x):
    p, q = [ite(ge0(v), v, neg(v)) for v in (E.bi(st, a[0]), E.bi(st, a[1]))]
    return [(st, [ite(eq(p, q), ZERO, ite(lt(p, q), I(-1), ONE))])]
@intr(BIG + 'BitLen', doc='number of bits')
def _(E, st, a, site, ks, x): return [(st, [uf('bitlen', 'Int', E.bi(st, a[0]))])]
@intr(BIG + 'IsInt64', doc='representable')
def _(E, st, a, site, ks, x):
    v = E.bi(st, a[0]); return [(st, [and_(ge(v, I(-2**63)), lt(v, I(2**63)))])]
@intr(BIG + 'ProbablyPrime', doc='an unspecified property of the number')
def _(E, st, a, site, ks, x): return [(st, [uf('probablyprime', 'Bool', E.bi(st, a[0]))])]
@intr('bytes.Equal', doc='equality of contents')
def _(E, st, a, site, ks, x): return [(st, [eq(a[0], a[1])])]
@intr('fmt.Sprintf', 'fmt.Sprint', 'fmt.Sprintln', doc='some text')
def _(E, st, a, site, ks, x): return [(st, [sym('text:' + site, 'Str', *ks)])]
@intr(BIG + 'Rem', doc='truncated remainder (equal to Mod for non-negative dividends)')
def _(E, st, a, site, ks, x):
    p, m = E.bi(st, a[1]), E.bi(st, a[2])
    r = ite(ge0(p), T.mod(p, m), neg(T.mod(neg(p), m)))
    E.sp_store(st, 'BI', a[0], r); return [(st, [a[0]])]
def unitp(b, m):
    """b is invertible modulo m"""
    if b.op == 'mod' and b.args[1] is m: b = b.args[0]
    if T._unit(m, b): return TRUE
    if b.op == 'zn' and b.args[0] is m and all(T._unit(m, x) for x, e in b.args[1]): return TRUE
    d = monos(b)
    if len(d) == 1:
        (mo, c), = d.items()
        if c == 1 and mo and all(unitp_atom(m, x) for x, e in mo): return TRUE
    return mk('unitp', (b, m), 'Bool')
def unitp_atom(m, x):
    return T._unit(m, x) or (x.op == 'zn' and x.args[0] is m and all(T._unit(m, y) for y, e in x.args[1]))
T.REBUILD['unitp'] = lambda t, go: unitp(go(t.args[0]), go(t.args[1]))
def expz(old, b, e, m):
    ok = or_(ge0(e), unitp(b, m))
    return ite(ok, T.modexp(b, e, m), old)
@intr(BIG + 'Exp', doc='modular exponentiation; for a negative exponent and a base that is not invertible the receiver keeps its value')
def _(E, st, a, site, ks, x):
    b, e, m = E.bi(st, a[1]), E.bi(st, a[2]), E.bi(st, a[3])
    E.sp_store(st, 'BI', a[0], expz(E.bi(st, a[0]), b, e, m)); return [(st, [a[0]])]
@intr(BIG + 'SetInt64', doc='value')
def _(E, st, a, site, ks, x): E.sp_store(st, 'BI', a[0], a[1]); return [(st, [a[0]])]
@intr(BIG + 'SetBytes', doc='big-endian value')
def _(E, st, a, site, ks, x): E.sp_store(st, 'BI', a[0], T.b2i(a[1])); return [(st, [a[0]])]
@intr(BIG + 'SetString', doc='parses the number')
def _(E, st, a, site, ks, x):
    r, s, b = a
    if s.op == 'uf' and s.args[0] == 'decimal' and b is I(10):
        E.sp_store(st, 'BI', r, s.args[1]); return [(st, [r, TRUE])]
    if s.op == 'str' and b.op == 'int':
        try: E.sp_store(st, 'BI', r, I(int(s.args[0], b.args[0] or 0))); return [(st, [r, TRUE])]
        except ValueError: pass
    ok = uf('numok', 'Bool', s, b)
    E.sp_store(st, 'BI', r, uf('num', 'Int', s, b))
    return [(st, [ite(ok, r, NIL), ok])]
@intr(BIG + 'Cmp', doc='-1, 0, 1')
def _(E, st, a, site, ks, x):
    p, q = E.bi(st, a[0]), E.bi(st, a[1])
    return [(st, [ite(eq(p, q), ZERO, ite(lt(p, q), I(-1), ONE))])]
@intr(BIG + 'Sign', doc='-1, 0, 1')
def _(E, st, a, site, ks, x):
    p = E.bi(st, a[0])
    return [(st, [ite(eq(p, ZERO), ZERO, ite(lt(p, ZERO), I(-1), ONE))])]
@intr(BIG + 'Bytes', doc='big-endian absolute value')
def _(E, st, a, site, ks, x): return [(st, [T.i2b(E.bi(st, a[0]))])]
@intr(BIG + 'Int64', doc='the value (exact in the int64 range, else an unspecified function of it)')
def _(E, st, a, site, ks, x):
    v = E.bi(st, a[0])
    if v.op == 'int' and abs(v.args[0]) < 2**63: return [(st, [v])]
    inr = and_(ge(v, I(-2**63)), lt(v, I(2**63)))
    d = E.decide(st)(inr)
    return [(st, [v if d is True else ite(inr, v, uf('int64', 'Int', v))])]
@intr(BIG + 'String', doc='decimal text')
def _(E, st, a, site, ks, x): return [(st, [uf('istr', 'Str', E.bi(st, a[0]))])]
@intr(BIG + 'Bit', doc='bit')
def _(E, st, a, site, ks, x): return [(st, [uf('bit', 'Int', E.bi(st, a[0]), a[1])])]
@intr('math/big.NewInt', doc='a new integer')
def _(E, st, a, site, ks, x): return [(st, [E.newbig(st, site, ks, a[0])])]

# ---------------------------------------------------------------- randomness
@intr('github.com/dedis/crypto/random.Int', doc='a uniform integer in [0, mod)')
def _(E, st, a, site, ks, x):
    m = E.bi(st, a[0])
    n = rndname(E, st, a[1], 'randint:', site)
    CTX.symnonneg.add(n)
    E.require(st, gt(m, ZERO), 'random.Int: positive modulus')
    v = sym(n, 'Int', m, *ks)                       # the bound is part of what is drawn
    st.assume(lt(v, m))
    return [(st, [E.newbig(st, site, ks, v)])]
@intr('github.com/dedis/crypto/random.Bool', doc='a uniform bit')
def _(E, st, a, site, ks, x): return [(st, [sym(rndname(E, st, a[0], 'randbool:', site), 'Bool', *ks)])]
@intr('github.com/dedis/crypto/random.Uint64', doc='a uniform 64-bit integer')
def _(E, st, a, site, ks, x):
    n = rndname(E, st, a[0], 'rand64:', site)
    CTX.symnonneg.add(n)
    v = sym(n, 'Int', *ks)
    st.assume(lt(v, I(2**64)))
    return [(st, [v])]
@intr('github.com/dedis/crypto/random.Byte', doc='a uniform byte')
def _(E, st, a, site, ks, x):
    n = rndname(E, st, a[0], 'randbyte:', site)
    CTX.symnonneg.add(n)
    v = sym(n, 'Int', *ks)
    st.assume(lt(v, I(256)))
    return [(st, [v])]
@intr('math.Sqrt', doc='square root; int64 of it is the floor for the sizes required by the contract')
def _(E, st, a, site, ks, x):
    v = a[0]
    if v.op == 'uf' and v.args[0] == 'float':
        n = v.args[1]
        r = uf('isqrt', 'Int', n)
        s = mul(r, r)
        st.assume(implies(and_(ge0(n), lt(n, I(2**52))), and_(ge0(r), le(s, n), gt(add(s, r, r, ONE), n))))
        return [(st, [mk('uf', ('sqrtf', n), 'Int')])]
    return [(st, [uf('sqrt', 'Int', v)])]

# ---------------------------------------------------------------- no effect / termination
def noop(nres):
    def f(E, st, a, site, ks, x):
        n = x.get('nres', 0) if x else 0
        vals = []
        for i in range(n):
            vals.append(uf('unit', 'Int') if i == 0 and n > 1 else NIL)
        return [(st, vals)]
    return f
for n in ('fmt.Println', 'fmt.Print', 'fmt.Printf', 'fmt.Fprintln', 'fmt.Fprint', 'fmt.Fprintf'):
    INTR[n] = noop(2); DOC[n] = 'output only'
for n in ('time.Sleep', 'encoding/gob.Register', 'log.Println', 'log.Printf', 'log.Print'):
    INTR[n] = noop(0); DOC[n] = 'no effect on protocol state'
INTR['time.Sleep'] = lambda E, st, a, site, ks, x: [(st, [])]
def stop(E, st, a, site, ks, x): return [Outcome('panic', st, [NIL])]
for n in ('log.Fatal', 'log.Fatalf', 'log.Fatalln', 'log.Panic', 'os.Exit'):
    INTR[n] = stop; DOC[n] = 'the process stops'
@intr('errors.New', 'fmt.Errorf', doc='a non-nil error')
def _(E, st, a, site, ks, x):
    return [(st, [newerr(st, site, ks)])]
@intr('error::Error', doc='text')
def _(E, st, a, site, ks, x): return [(st, [uf('errtext', 'Str', a[0])])]
@intr('strconv.Itoa', doc='decimal text')
def _(E, st, a, site, ks, x): return [(st, [uf('itoa', 'Str', a[0])])]
@intr('strconv.Atoi', doc='parses a number or fails')
def _(E, st, a, site, ks, x):
    ok = uf('atoiok', 'Bool', a[0])
    return [(st, [uf('atoi', 'Int', a[0]), ite(ok, NIL, newerr(st, site, ks))])]
@intr('(encoding/binary.bigEndian).Uint32', doc='big-endian value of the first four bytes')
def _(E, st, a, site, ks, x): return [(st, [T.u32of(a[1])])]

@intr('zRep/util.ReadConfig', doc='the contents of the configuration files: any table of texts')
def _(E, st, a, site, ks, x): return [(st, [sym('config:' + site, 'Ref', *ks)])]
# ---------------------------------------------------------------- running a program
@intr('os/exec.Command', doc='a command: the name and the arguments')
def _(E, st, a, site, ks, x):
    n = slen(a[1])
    if n.op != 'int': raise Unsupported('arguments of a command')
    r = alloc(site, *ks)
    ws = [a[0]] + [E.load(st, 'string', E.elem_addr(a[1], I(i))) for i in range(n.args[0])]
    E.sp_store(st, 'CMD', r, T.scat(*[y for w in ws for y in (w, S('\x00'))]))
    return [(st, [r])]
SAFEPRIME = '\x00'.join(('openssl', 'prime', '-safe', '-generate', '-bits', '512')) + '\x00'
def safeprime(n): return uf('safeprime512', 'Bool', n)
def primefacts(v): return [safeprime(v), gt(v, I(2 ** 511))]
@intr('(*os/exec.Cmd).Output', doc='what the program prints, or an error; "openssl prime -safe -generate -bits 512" prints a newly generated 512-bit safe prime in decimal and a newline')
def _(E, st, a, site, ks, x):
    c = E.sp_load(st, 'CMD', a[0])
    ok = sym('cmdok:' + site, 'Bool', *ks)
    if c is S(SAFEPRIME):
        n = 'genprime:' + site; CTX.symnonneg.add(n)
        v = add(mul(I(2), sym(n, 'Int', *ks)), ONE)
        for f in primefacts(v): st.assume(f)
        out = s2b(scat(uf('decimal', 'Str', v), S('\n')))
    else: out = sym('cmdout:' + site, 'Bytes', *ks)
    return [(st, [out, ite(ok, NIL, newerr(st, site, ks))])]

# ---------------------------------------------------------------- network addresses
@intr('(*net.TCPAddr).String', doc='text of the address')
def _(E, st, a, site, ks, x):
    return [(st, [ite(eq(a[0], NIL), S('<nil>'), E.sp_load(st, 'AS', a[0]))])]
def canon(s):
    if s.op == 'sel' and T.hname(s.args[0]) == 'AS': return s
    if s.op == 'uf' and s.args[0] == 'canon': return s
    return uf('canon', 'Str', s)
@intr('net.ResolveTCPAddr', doc='the address denoted by the text, or an error')
def _(E, st, a, site, ks, x):
    s = a[1]
    r = alloc(site, *ks)
    c = canon(s)
    ok = TRUE if c is s else uf('resolvable', 'Bool', s)
    E.sp_store(st, 'AS', r, c)
    return [(st, [ite(ok, r, NIL), ite(ok, NIL, newerr(st, site, ks))])]
@intr('net.DialTCP', doc='a connection to the given address, or an error')
def _(E, st, a, site, ks, x):
    r = alloc(site, *ks)
    E.sp_store(st, 'AS', r, tcpstr(E, st, a[2]))
    return [(st, [r, mk('sym', ('dialerr:' + site,) + tuple(ks), 'Ref')])]
def tcpstr(E, st, r): return ite(eq(r, NIL), S('<nil>'), E.sp_load(st, 'AS', r))
@intr('(*net.conn).Write', doc='the peer receives the bytes (or an error is returned)')
def _(E, st, a, site, ks, x):
    r = T.root(a[0])
    E.add_sent(st, pair(E.sp_load(st, 'AS', r), a[1]))
    return [(st, [blen(a[1]), mk('sym', ('writeerr:' + site,) + tuple(ks), 'Ref')])]
@intr('(*net.conn).Close', doc='ends the message')
def _(E, st, a, site, ks, x): return [(st, [NIL])]
ipeq = T.ipeq
@intr('(net.IP).Equal', doc='the same address (its 4-byte and 16-byte forms count as the same)')
def _(E, st, a, site, ks, x): return [(st, [ipeq(a[0], a[1])])]

# ---------------------------------------------------------------- encoders: gob and protobuf as injective, invertible encodings
def deeptype(E, t):
    """structural type with pointers removed: what the encoders see"""
    p = E.p
    t = p.canon(t)
    if t == 'math/big.Int': return 'bigint'
    u, x = p.under(t)
    k = x['kind']
    if k == 'pointer': return deeptype(E, x['elem'])
    if k == 'slice':
        if p.sort(t) == 'Bytes': return 'bytes'
        return '[]' + deeptype(E, x['elem'])
    if k == 'interface':
        if t == AP + 'Point' or t == 'zRep/primitive/pedersen.Commitment': return 'point'
        if t == AP + 'Secret': return 'secret'
        return 'iface'
    if k == 'struct': return '{' + ','.join(f['name'] + ':' + deeptype(E, f['t']) for _, f in exported(x)) + '}'
    if k == 'map': return 'map[%s]%s' % (deeptype(E, x['key']), deeptype(E, x['elem']))
    return u
def exported(x):
    """the fields the encoders see: those with an upper-case name"""
    return [(i, f) for i, f in enumerate(x.get('fields') or []) if f['name'][:1].isupper()]
def deepsort(dt):
    if dt in ('bigint', 'secret', 'int', 'int64', 'uint32', 'uint64', 'byte', 'uint8', 'int32'): return 'Int'
    if dt == 'bool': return 'Bool'
    if dt == 'bytes': return 'Bytes'
    if dt == 'string': return 'Str'
    if dt == 'point': return 'G'
    if dt.startswith('[]'): return 'Seq'
    if dt.startswith('{'): return 'Rec'
    if dt == 'iface': return 'Any'
    if dt.startswith('map'): return 'Map'
    raise Unsupported('encoding of ' + dt)
def deep(E, st, t, v):
    p = E.p
    t = p.canon(t)
    if t == 'math/big.Int': return v
    u, x = p.under(t)
    k = x['kind']
    if k == 'pointer':
        et = p.canon(x['elem'])
        return deep(E, st, et, E.load(st, et, v))
    if k == 'slice':
        if p.sort(t) == 'Bytes': return v
        et = x['elem']
        w = freshvar('e', 'Int')
        a = E.elem_addr(v, w)
        s2 = st.copy(); s2.assume(ge0(w)); s2.assume(lt(w, slen(v)))       # only elements in range are looked at
        return T.seq(slen(v), lam(w, E.simp(s2, deep(E, s2, et, E.load(s2, et, a)))))
    if k == 'interface':
        dt = deeptype(E, t)
        if dt == 'point': return E.pv(st, v)
        if dt == 'secret': return E.sv(st, v)
        return v
    if k == 'struct':
        return T.rec(deeptype(E, t), *[deep(E, st, f['t'], E.field(v, i)) for i, f in exported(x)])
    if k == 'map': return mapval(E, st, t, v)
    return v
def ifval(E, st, v):
    """an interface{} value as the encoders see it"""
    if v.op == 'ite': return ite(v.args[0], ifval(E, st, v.args[1]), ifval(E, st, v.args[2]))
    if v.op == 'iface' and v.args[0] != 'iface': return iface(v.args[0], deep(E, st, v.args[0], v.args[1]))
    return v
def mapval(E, st, t, m):
    """contents of a map: the list of its entries when all of them are known"""
    nd, hd, nv, hv, x = E.mheaps(st, t)
    keys = []; h = hd
    while m.op == 'alloc' and h.op != 'hbase':
        if h.op == 'hst':
            k = h.args[1]
            if k.op == 'pair' and k.args[0] is m:
                if k.args[1].op != 'str': break
                if k.args[1] not in keys: keys.append(k.args[1])
            elif not ref_distinct(k.args[0], m): break
        else:
            pats = [app(h.args[2], T.itvar())] if h.op == 'hfam' else [app(pl, T.itvar()) for pl in h.args[2:] if isinstance(pl, Term) and pl.op == 'lam']
            if not all(k.op == 'pair' and ref_distinct(k.args[0], m) for k in pats): break
        h = h.args[0]
    else:
        if m.op == 'alloc' and h.args[1] == 0:
            D = E.decide(st); out = []
            for k in sorted(keys, key=lambda k: k.args[0]):
                p = sel(hd, pair(m, k), 'Bool', D)
                if p is FALSE: continue
                v = ifval(E, st, E.simp(st, sel(hv, pair(m, k), E.mvsort(x['elem']), D)))
                out += [k, v if p is TRUE else ite(p, v, mk('absent', (), 'Any'))]
            return mk('mrec', tuple(out), 'Map')
    return mk('mapval', (hd, hv, m), 'Map')
def undeep(E, st, t, d, site, ks):
    """fresh Go value of type t holding the decoded value d"""
    p = E.p
    t = p.canon(t)
    if t == 'math/big.Int': return d
    u, x = p.under(t)
    k = x['kind']
    if k == 'pointer':
        et = p.canon(x['elem'])
        r = alloc(site + '*', *ks)
        store_deep(E, st, et, r, d, site, ks)
        return r
    if k == 'slice':
        if p.sort(t) == 'Bytes': return d
        r = alloc(site + '[]', *ks)
        n = T.seqlen(d)
        store_family(E, st, x['elem'], r, n, d, site, ks)
        return slice_(r, ZERO, n)
    if k == 'interface':
        dt = deeptype(E, t)
        if dt == 'point': return E.newpoint(st, site + '.p', ks, d)
        if dt == 'secret': return E.newsecret(st, site + '.s', ks, d)
        return d
    if k == 'struct':
        pos = {i: j for j, (i, f) in enumerate(exported(x))}
        return struct(t, *[undeep(E, st, f['t'], T.recget(d, pos[i], deepsort(deeptype(E, f['t']))), site + '.' + f['name'], ks) if i in pos
                           else E.p.zero(f['t']) for i, f in enumerate(x.get('fields') or [])])
    if k == 'map': return undeep_map(E, st, t, d, site, ks)
    return d
def undeep_map(E, st, t, d, site, ks):
    x = E.p.under(t)[1]
    if d.op == 'mrec' and all(v.op == 'iface' for v in d.args[1::2]):
        r = alloc(site + '{}', *ks)
        for k, v in zip(d.args[::2], d.args[1::2]): E.mapset(st, t, r, k, v)
        return r
    r = mk('sym', ('decmap:' + site, d) + tuple(ks), 'Ref')     # some map object with these contents
    st.assume(neq(r, NIL)); st.assume(eq(mapval(E, st, t, r), d))
    return r
def store_deep(E, st, t, a, d, site, ks):
    p = E.p
    if p.kind(t) == 'struct':
        for j, (i, f) in enumerate(exported({'fields': p.fields(t)})):
            store_deep(E, st, f['t'], fld(a, E.fname(t, i)), T.recget(d, j, deepsort(deeptype(E, f['t']))), site + '.' + f['name'], ks)
        return
    E.store(st, t, a, undeep(E, st, t, d, site, ks))
def store_family(E, st, et, r, n, d, site, ks):
    """elements of a decoded slice: families of stores for every heap an element touches"""
    w = freshvar('f', 'Int')
    s2 = st.copy()
    before = dict(s2.heaps)
    el = T.seqget(d, w, deepsort(deeptype(E, et)))
    store_deep(E, s2, et, elem(r, w), el, site + '#e', ks + (w,))
    for nm, h in s2.heaps.items():
        b = before.get(nm)
        if b is None: b = hbase(nm, 'init', 0)
        if h is b: continue
        ws = []
        x = h
        while x is not b:
            if x.op != 'hst': raise Unsupported('nested decoded slice')
            ws.append((x.args[1], x.args[2])); x = x.args[0]
        cur = st.heaps.get(nm, b)
        for k, v in reversed(ws):
            cur = hfam(cur, n, lam(w, k), lam(w, v), lam(w, TRUE))
        st.heaps[nm] = cur

def encode_any(E, st, codec, a):
    """encode an interface{} value"""
    if a.op != 'iface': raise Unsupported('encoding of an unknown dynamic value')
    t, v = a.args
    k = codec + ':' + deeptype(E, t)
    E.used_intr.add('encoding ' + k)
    return T.enc(k, deep(E, st, t, v))
def decok(kind, b):
    if b.op == 'enc' and b.args[0] == kind: return TRUE
    return mk('decok', (kind, b), 'Bool')
T.REBUILD['decok'] = lambda t, go: decok(t.args[0], go(t.args[1]))
def decode_into(E, st, codec, b, a, site, ks):
    """decode bytes b into the pointer held in interface{} a; returns the success condition"""
    if a.op != 'iface': raise Unsupported('decoding into an unknown dynamic value')
    t, r = a.args
    u, x = E.p.under(t)
    if x['kind'] != 'pointer': raise Unsupported('decode target')
    et = E.p.canon(x['elem'])
    dt = deeptype(E, et)
    k = codec + ':' + dt
    d = T.dec(k, b, deepsort(dt))
    ok = decok(k, b)
    store_deep(E, st, et, r, d, site, ks)
    if d.sort == 'Seq': st.assume(ge0(T.seqlen(d)))
    return ok

@intr('encoding/gob.NewEncoder', 'encoding/gob.NewDecoder', doc='bound to its buffer')
def _(E, st, a, site, ks, x):
    b = a[0]
    return [(st, [mk('gobx', (b,), 'Ref')])]
def gobbuf(r):
    if r.op == 'gobx': return r.args[0]
    if r.op == 'ifref': return gobbuf(r.args[1])
    raise Unsupported('gob stream')
@intr('(*encoding/gob.Encoder).Encode', doc='appends an injective, self-delimiting encoding of the value')
def _(E, st, a, site, ks, x):
    b = gobbuf(a[0])
    E.sp_store(st, 'HS', b, cat(E.sp_load(st, 'HS', b), encode_any(E, st, 'gob', a[1])))
    return [(st, [NIL])]
@intr('(*encoding/gob.Decoder).Decode', doc='inverse of Encode; an error on anything that is not an encoding')
def _(E, st, a, site, ks, x):
    b = E.sp_load(st, 'HS', gobbuf(a[0]))
    ok = decode_into(E, st, 'gob', b, a[1], site, ks)
    return [(st, [ite(ok, NIL, newerr(st, site, ks))])]
@intr('bytes.NewReader', 'bytes.NewBuffer', doc='a stream over the bytes')
def _(E, st, a, site, ks, x):
    r = alloc(site, *ks); E.sp_store(st, 'HS', r, a[0]); return [(st, [r])]
@intr('(*bytes.Buffer).Write', doc='appends')
def _(E, st, a, site, ks, x):
    E.sp_store(st, 'HS', a[0], cat(E.sp_load(st, 'HS', a[0]), a[1])); return [(st, [blen(a[1]), NIL])]
@intr('(*bytes.Buffer).Bytes', doc='contents')
def _(E, st, a, site, ks, x): return [(st, [E.sp_load(st, 'HS', a[0])])]
@intr('(*bytes.Buffer).Reset', doc='empties the buffer')
def _(E, st, a, site, ks, x): E.sp_store(st, 'HS', a[0], BEMPTY); return [(st, [])]
@intr('go.dedis.ch/protobuf.Encode', doc='an injective encoding of the value')
def _(E, st, a, site, ks, x): return [(st, [encode_any(E, st, 'pbuf', a[0]), NIL])]
@intr('go.dedis.ch/protobuf.DecodeWithConstructors', doc='inverse of Encode; an error on anything else')
def _(E, st, a, site, ks, x):
    ok = decode_into(E, st, 'pbuf', a[0], a[1], site, ks)
    return [(st, [ite(ok, NIL, newerr(st, site, ks))])]
@intr('reflect.TypeOf', 'reflect.Type::Elem', doc='type descriptor')
def _(E, st, a, site, ks, x): return [(st, [gobj('reflect')])]
@intr(AP + 'Write', doc='concatenation of the fixed-length encodings of the fields')
def _(E, st, a, site, ks, x):
    w, v, suite = a
    t, r = v.args
    b = absread_layout(E, st, t)
    out = BEMPTY
    et = E.p.elem(t)
    out = cat(*abs_parts(E, st, et, r))
    E.sp_store(st, 'HS', w, cat(E.sp_load(st, 'HS', w), out))
    return [(st, [NIL])]
def absread_layout(E, st, t): return None
def abs_parts(E, st, t, a):
    out = []
    p = E.p
    if p.kind(t) == 'struct':
        for i, f in enumerate(p.fields(t)): out += abs_parts(E, st, f['t'], fld(a, E.fname(t, i)))
        return out
    dt = deeptype(E, t)
    v = E.load(st, t, a)
    if dt == 'point': return [pb(E.pv(st, v))]
    if dt == 'secret': return [T.sb(E.sv(st, v))]
    raise Unsupported('abstract.Write of ' + t)
@intr(AP + 'Read', doc='reads the fixed-length fields back; an error when the bytes are too short or a point is invalid')
def _(E, st, a, site, ks, x):
    rd, v, suite = a
    t, r = v.args
    et = E.p.elem(t)
    b = E.sp_load(st, 'HS', rd)
    fields = []
    def walk(t, a):
        if E.p.kind(t) == 'struct':
            for i, f in enumerate(E.p.fields(t)): walk(f['t'], fld(a, E.fname(t, i)))
            return
        fields.append((t, a))
    walk(et, r)
    kinds = [deeptype(E, t) for t, _ in fields]
    okc, vals = parse_fixed(kinds, b)
    for i, (t, ad) in enumerate(fields):
        if kinds[i] == 'point': E.store(st, t, ad, E.newpoint(st, site + '.%d' % i, ks, vals[i]))
        else: E.store(st, t, ad, E.newsecret(st, site + '.%d' % i, ks, vals[i]))
    return [(st, [ite(okc, NIL, newerr(st, site, ks))])]

def parse_fixed(kinds, b):
    """the success condition and field values of reading fixed-length fields from the front of b"""
    op = {'point': 'pb', 'secret': 'sb'}
    parts = list(b.args) if b.op == 'cat' else [b]
    exact = len(parts) >= len(kinds) and all(pp.op == op[k] for pp, k in zip(parts, kinds))
    if exact: return TRUE, [p.args[0] for p, k in zip(parts, kinds)]
    lay = 'sig:' + ','.join(kinds)
    okc = mk('decok', (lay, b), 'Bool')
    d = mk('dec', (lay, b), 'Rec')
    return okc, [T.recget(d, i, 'G') if k == 'point' else T.mod(T.recget(d, i, 'Int'), Q) for i, k in enumerate(kinds)]

# ---------------------------------------------------------------- Fiat-Shamir transcripts (dedis/crypto/proof)
PF = 'github.com/dedis/crypto/proof.'
class Transcript:
    """what a verifier has read so far; every message and challenge is a function of it"""
    def __init__(self, h): self.h = h; self.ok = []
    def step(self, kind, shape, lens):
        key = (self.h, S(shape)) + tuple(lens)
        self.ok.append(T.uf(kind + '?', 'Bool', *key))
        self.h = T.uf(kind, 'Bytes', *key)
        h = key[0]
        def point(leaf, i=ZERO): return T.uf(kind + ':point', 'G', *(key + (I(leaf), i)))
        def secret(leaf, i=ZERO): return T.mod(T.uf(kind + ':secret', 'Int', *(key + (I(leaf), i))), Q)
        return point, secret
    def read(self, shape, lens=()): return self.step('msg', shape, lens)
    def chal(self, shape, lens=()): return self.step('chal', shape, lens)
def tr_start(name, proof): return T.uf('transcript', 'Bytes', name, proof)
def tr_fill(E, st, tr, kind, vs, site, ks):
    leaves = []; lens = []; shape = []
    def walk(t, get):
        """get: ('addr', a) or ('val', v)"""
        t = E.p.canon(t); u, x = E.p.under(t); k = x['kind']
        if k == 'pointer' and deeptype(E, t) not in ('point', 'secret'): return walk(x['elem'], ('addr', get[1] if get[0] == 'val' else E.load(st, t, get[1])))
        if k == 'struct':
            shape.append('{')
            for i, f in enumerate(E.p.fields(t)):
                walk(f['t'], ('addr', fld(get[1], E.fname(t, i))) if get[0] == 'addr' else ('val', E.field(get[1], i)))
            shape.append('}'); return
        if k == 'slice':
            v = get[1] if get[0] == 'val' else E.load(st, t, get[1])
            dt = deeptype(E, x['elem'])
            if dt not in ('point', 'secret'): raise Unsupported('transcript of ' + t)
            shape.append('[' + dt[0] + ']'); lens.append(slen(v)); leaves.append((dt, x['elem'], v)); return
        dt = deeptype(E, t)
        if dt not in ('point', 'secret') or get[0] != 'addr': raise Unsupported('transcript of ' + t)
        shape.append(dt[0]); leaves.append((dt, t, get[1]))
    for t, v in vs: walk(t, ('val', v))
    point, secret = tr.step(kind, ''.join(shape), lens)
    new = {'point': (lambda s, ss, kk, v: E.newpoint(s, ss, kk, v)), 'secret': (lambda s, ss, kk, v: E.newsecret(s, ss, kk, v))}
    for n, (dt, t, a) in enumerate(leaves):
        f = point if dt == 'point' else secret
        if a.sort != 'Slice':
            E.store(st, t, a, new[dt](st, '%s.%d' % (site, n), ks, f(n))); continue
        w = freshvar('f', 'Int'); s2 = st.copy(); before = dict(s2.heaps)
        E.store(s2, t, E.elem_addr(a, w), new[dt](s2, '%s.%d' % (site, n), ks + (w,), f(n, w)))
        for nm, h in s2.heaps.items():
            b = before.get(nm)
            if b is None: b = hbase(nm, 'init', 0)
            ws = []; x = h
            while x is not b: ws.append((x.args[1], x.args[2])); x = x.args[0]
            cur = st.heaps.get(nm, b)
            for k, v in reversed(ws): cur = hfam(cur, slen(a), lam(w, k), lam(w, v), lam(w, TRUE))
            if ws: st.heaps[nm] = cur
def tr_intr(kind):
    def run(E, st, a, site, ks, x):
        if kind == 'msg': vs = [a[1]]
        else:
            n = slen(a[1])
            if n.op != 'int': raise Unsupported('unknown number of challenges')
            vs = [E.load(st, 'interface{}', E.elem_addr(a[1], I(i))) for i in range(n.args[0])]
        if any(v.op != 'iface' for v in vs): raise Unsupported('transcript of an unknown dynamic value')
        tr = Transcript(E.sp_load(st, 'CT', a[0]))
        tr_fill(E, st, tr, kind, [v.args for v in vs], site, ks)
        E.sp_store(st, 'CT', a[0], tr.h)
        return [(st, [ite(tr.ok[0], NIL, newerr(st, site, ks))])]
    return run
intr(PF + 'VerifierContext::Get', doc='reads the next message of the proof: a function of what was read before; an error when it cannot be decoded')(tr_intr('msg'))
intr(PF + 'VerifierContext::PubRand', doc='a challenge: a function of everything read so far (random oracle)')(tr_intr('chal'))
@intr(PF + 'HashVerify', doc='runs the verifier on the transcript of the proof')
def _(E, st, a, site, ks, x):
    ctx = alloc(site + '#ctx', *ks)
    E.sp_store(st, 'CT', ctx, tr_start(a[1], a[3]))
    return E.call_clo(a[2], st, [ctx], site, ks)

@intr(PF + 'HashProve', doc='the proof the prover makes; the prover itself changes nothing but its own state')
def _(E, st, a, site, ks, x):
    if not secure(E, st, a[2]): raise Unsupported('a shuffle proof without secure randomness')
    b = T.uf('hashproof', 'Bytes', a[1], a[3], sym('proofcoins:' + site, 'Int', *ks))
    err = sym('proveerr:' + site, 'Bool', *ks)
    return [(st, [b, ite(err, newerr(st, site, ks), NIL)])]
