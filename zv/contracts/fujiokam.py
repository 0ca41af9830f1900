"""zRep/primitive/fujiokam"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.intrinsics import unitp, expz, safeprime
PKG = 'zRep/primitive/fujiokam.'
FB = PKG + 'FujiOkamBase'
PT = PKG + 'Point'
M = '(*zRep/primitive/fujiokam.FujiOkamBase).'
PM = '(*zRep/primitive/fujiokam.Point).'
GENS = ('H1', 'G1', 'G2', 'G3', 'G4', 'G5', 'G6')

# ---- views; c is a contract or a goal wrapper with f/bi
def V(c, p): return c.bi(fld(p, 'V'))
def Mod(c, p): return c.bi(c.f(p, PT, 'M'))
def N(c, base): return c.bi(c.f(base, FB, 'N'))
def gen(c, base, n): return V(c, c.f(base, FB, n))

def wf_n(c, base):
    c.requires(neq(c.f(base, FB, 'N'), NIL), 'modulus set')
    c.requires(gt(N(c, base), ONE), 'modulus greater than 1')
def wf_gens(c, base, names):
    for n in names:
        c.requires(neq(c.f(base, FB, n), NIL), n + ' set')
        c.requires(unitp(gen(c, base, n), N(c, base)), n + ' invertible modulo N')
def wf_rad(c, base):
    c.requires(gt(c.bi(c.f(base, FB, 'RandomDiameter')), ZERO), 'randomness range is not empty')
def com(c, base, x, r):
    n = N(c, base)
    return T.mod(mul(T.modexp(gen(c, base, 'G1'), x, n), T.modexp(gen(c, base, 'H1'), r, n)), n)
def newpt(c, base, v): return c.newstruct(PT, V=v, M=c.f(base, FB, 'N'))

@contract(M + 'Point')
def Point(c, base): c.ret(newpt(c, base, ZERO))
@contract(PKG + 'PointFromN')
def PointFromN(c, n): c.ret(c.newstruct(PT, V=ZERO, M=n))
@contract(PKG + 'PointFromRaw')
def PointFromRaw(c, v, n): c.ret(c.newstruct(PT, V=c.bi(v), M=n))
@contract(PM + 'SetBigInt')
def SetBigInt(c, p, a): c.setbi(fld(p, 'V'), c.bi(a)); c.ret(p)
@contract(PM + 'ToBigInt')
def ToBigInt(c, p): c.ret(fld(p, 'V'))
@contract(PM + 'ToBinary')
def ToBinary(c, p): c.ret(i2b(V(c, p)))
@contract(PM + 'FromBinary')
def FromBinary(c, p, d): c.setbi(fld(p, 'V'), b2i(d)); c.ret(p)
@contract(PM + 'Equal')
def Equal(c, p, q): c.ret(eq(V(c, p), V(c, q)))
def _arith(f):
    def k(c, p, a, b):
        m = Mod(c, p)
        c.requires(neq(c.f(p, PT, 'M'), fld(p, 'V')), 'the modulus is stored apart from the value')
        c.requires(neq(c.f(p, PT, 'M'), NIL), 'modulus set'); c.requires(gt(m, ONE), 'modulus greater than 1')
        c.setbi(fld(p, 'V'), T.mod(f(V(c, a), V(c, b)), m)); c.ret(p)
    return k
contract(PM + 'Add')(_arith(add))
contract(PM + 'Sub')(_arith(sub))
contract(PM + 'Mul')(_arith(mul))
@contract(PM + 'Exp')
def Exp(c, p, a, s):
    m = Mod(c, p)
    c.requires(neq(c.f(p, PT, 'M'), NIL), 'modulus set'); c.requires(gt(m, ONE), 'modulus greater than 1')
    c.setbi(fld(p, 'V'), expz(V(c, p), V(c, a), c.bi(s), m)); c.ret(p)

@contract(M + 'genRandomSecret')
def genRandomSecret(c, base):
    wf_rad(c, base)
    n = c.randint(c.bi(c.f(base, FB, 'RandomDiameter')))
    c.ret(c.newbig(sub(n, c.bi(c.f(base, FB, 'RandomRadius')))))

@contract(M + 'CommitWithR')
def CommitWithR(c, base, x, r):
    wf_n(c, base); wf_gens(c, base, ('G1', 'H1'))
    c.ret(newpt(c, base, com(c, base, c.bi(x), c.bi(r))))

@contract(M + 'Commit')
def Commit(c, base, x):
    wf_n(c, base); wf_gens(c, base, ('G1', 'H1')); wf_rad(c, base)
    n = c.randint(c.bi(c.f(base, FB, 'RandomDiameter')))
    r = sub(n, c.bi(c.f(base, FB, 'RandomRadius')))
    c.ret(newpt(c, base, com(c, base, c.bi(x), r)), c.newbig(r))

@contract(M + 'genGn')
def genGn(c, base):
    wf_n(c, base); wf_gens(c, base, ('H1',)); wf_rad(c, base)
    n = c.randint(c.bi(c.f(base, FB, 'RandomDiameter')))
    a = sub(n, c.bi(c.f(base, FB, 'RandomRadius')))
    c.ret(newpt(c, base, T.modexp(gen(c, base, 'H1'), a, N(c, base))), c.newbig(a))

@contract(PKG + 'CreateMinimumBase')
def CreateMinimumBase(c, suite, n):
    r = mul(I(2 ** 80), c.bi(n))
    c.ret(c.newstruct(FB, Suite=suite, N=n, RandomRadius=c.newbig(r), RandomDiameter=c.newbig(add(r, r))))

# ---------------------------------------------------------------- non-negativity
def three_squares(c, n, s):
    """trusted (Legendre): 4x+1 is a sum of three squares; the witness is taken with the smallest part last"""
    A, B, D = [freshvar('L' + k, 'Int') for k in 'abd']
    c.lemma('trust', and_(ge0(A), ge0(B), ge0(D), le(D, A), le(D, B), eq(add(mul(A, A), mul(B, B), mul(D, D)), n)))
    c.lemma('nl', le(A, s)); c.lemma('nl', le(B, s)); c.lemma('nl', le(D, sub(s, ONE)))
    c.lemma('nl', le(add(mul(A, A), mul(B, B)), n))
    c.lemma('inst', [A, B, D])
@contract(PKG + 'decomposeThreeSquareHelper')
def decomposeThreeSquareHelper(c, x):
    c.requires(ge0(x), 'non-negative'); c.requires(lt(x, I(2 ** 49)), 'in the supported range')
    a, b, d = [c.out(n, 'Int', nonneg=True) for n in 'abd']
    n = add(mul(I(4), x), ONE)
    c.assume(eq(add(mul(a, a), mul(b, b), mul(d, d)), n))
    three_squares(c, n, uf('isqrt', 'Int', n))
    c.ret(a, b, d)

ALLG = GENS
def nn_challenge(c, commitx, commitrx, C, Cr):
    return b2i(T.hashb('sha256', cat(i2b(V(c, commitx)), i2b(V(c, commitrx)), i2b(V(c, C)), i2b(V(c, Cr)))))
def prodexp(c, base, pairs):
    n = N(c, base)
    return T.mod(mul(*[T.modexp(gen(c, base, g), e, n) for g, e in pairs]), n)
def nn_holds(c, base, commitx, commitrx, C, Cr, R, x, a, b, d, r):
    """both verification equations, for the challenge over all commitments"""
    n = N(c, base)
    e = nn_challenge(c, commitx, commitrx, C, Cr)
    delta = sub(mul(e, add(mul(I(4), x), e)), add(mul(a, a), mul(b, b), mul(d, d)))
    l1 = T.mod(mul(T.modexp(V(c, C), e, n), V(c, Cr)), n)
    r1 = prodexp(c, base, [('G2', x), ('G3', a), ('G4', b), ('G5', d), ('G6', delta), ('H1', r)])
    l2 = T.mod(mul(T.modexp(V(c, commitx), e, n), V(c, commitrx)), n)
    r2 = prodexp(c, base, [('G1', x), ('H1', R)])
    return eq(l1, r1), eq(l2, r2)
def wf(c, base):
    wf_n(c, base); wf_gens(c, base, ALLG); wf_rad(c, base)
@contract(M + 'VerifyNonnegHelper')
def VerifyNonnegHelper(c, base, commitx, commitrx, C, Cr, R, x_, a_, b_, d_, r_):
    wf_n(c, base); wf_gens(c, base, ALLG)
    c.ret(and_(*nn_holds(c, base, commitx, commitrx, C, Cr, *[c.bi(v) for v in (R, x_, a_, b_, d_, r_)])))
ARG = PKG + 'ARGnonneg'
class ArgView:
    """commitments given as integers"""
    def __init__(self, c, base): self.c = c; self.base = base
    def bi(self, r): return r if r.sort == 'Int' else self.c.bi(r)
    def f(self, *a): return self.c.f(*a)
def nn_arg(c, base, commitx, arg):
    return nn_vals(c, base, V(c, commitx), {k: c.bi(c.f(arg, ARG, k)) for k in ARGF})
ARGF = ('Commitrx', 'C', 'Cr', 'R', 'X_', 'A_', 'B_', 'D_', 'R_')
def nn_vals(c, base, X, fs):
    n = N(c, base)
    e = b2i(T.hashb('sha256', cat(i2b(X), i2b(fs['Commitrx']), i2b(fs['C']), i2b(fs['Cr']))))
    x, a, b, d = fs['X_'], fs['A_'], fs['B_'], fs['D_']
    delta = sub(mul(e, add(mul(I(4), x), e)), add(mul(a, a), mul(b, b), mul(d, d)))
    l1 = T.mod(mul(T.modexp(fs['C'], e, n), fs['Cr']), n)
    r1 = prodexp(c, base, [('G2', x), ('G3', a), ('G4', b), ('G5', d), ('G6', delta), ('H1', fs['R_'])])
    l2 = T.mod(mul(T.modexp(X, e, n), fs['Commitrx']), n)
    r2 = prodexp(c, base, [('G1', x), ('H1', fs['R'])])
    return and_(eq(l1, r1), eq(l2, r2))
@contract(M + 'VerifyNonneg')
def VerifyNonneg(c, base, commitx, arg):
    wf_n(c, base); wf_gens(c, base, ALLG)
    c.ret(nn_arg(c, base, commitx, arg))

# ---------------------------------------------------------------- honesty of the generators
W80 = I(80)
BIGT = '*math/big.Int'; PTT = '*' + PT
def same_len(c, *ss):
    for s in ss: c.requires(eq(slen(s), W80), '80 entries')
@contract(M + 'sampleZpq')
def sampleZpq(c, base):
    """an exponent below N, different from 1 and coprime to p and q"""
    c.requires(gt(N(c, base), ZERO), 'modulus positive')
    for k in 'PQ': c.requires(gt(c.bi(c.f(base, FB, k)), ZERO), 'secret primes known')
    n = c.randint(N(c, base)); c.assume(neq(n, ONE))
    for k in 'PQ': c.assume(neq(T.mod(n, c.bi(c.f(base, FB, k))), ZERO))
    c.ret(c.newbig(n))
@contract(M + 'GenerateGnHonestyProof')
def GenerateGnHonestyProof(c, base, secrets, publics):
    wf_n(c, base); wf_gens(c, base, ('H1',)); same_len(c, secrets, publics)
    for k in 'PQ': c.requires(gt(c.bi(c.f(base, FB, k)), ZERO), 'secret primes known')
    exps = {}
    def sec(w):
        exps['n'] = c.randint(N(c, base)); return c.newbig(exps['n'])
    c.fill(secrets, BIGT, W80, sec)
    c.fill(publics, PTT, W80, lambda w: newpt(c, base, T.modexp(gen(c, base, 'H1'), subst(exps['n'], {exps['n'].args[-1]: w}), N(c, base))))
    c.ret()
@contract(M + 'ChallengeGnHonesty')
def ChallengeGnHonesty(c, base, bits):
    """80 independent coin flips"""
    same_len(c, bits)
    c.fill(bits, 'bool', W80, lambda w: c.randbool())
    c.ret()
@contract(M + 'AnswerGnHonesty')
def AnswerGnHonesty(c, base, bits, secrets, alpha, answers):
    same_len(c, bits, secrets, answers)
    c.fill(answers, BIGT, W80, lambda w: c.newbig(add(c.bi(c.at(secrets, w, BIGT)), ite(c.at(bits, w, 'bool'), c.bi(alpha), ZERO))))
    c.ret()
def gn_ok(c, base, ans, bit, pub, G, lo=0):
    """all 80 equations for the generator value G; ans/bit/pub give the i-th answer, challenge bit and public value"""
    n = N(c, base); h = gen(c, base, 'H1')
    def one(w):
        i = add(I(lo), w)
        A = T.modexp(h, ans(i), n)
        return ite(bit(i), eq(A, T.mod(mul(pub(i), G), n)), eq(A, pub(i)))
    return c.all(W80, one)
@contract(M + 'CheckGnHonesty')
def CheckGnHonesty(c, base, answers, bits, publics, Gn):
    wf_n(c, base); wf_gens(c, base, ('H1',)); same_len(c, answers, bits, publics)
    c.ret(gn_ok(c, base, lambda i: c.bi(c.at(answers, i, BIGT)), lambda i: c.at(bits, i, 'bool'), lambda i: V(c, c.at(publics, i, PTT)), V(c, Gn)))
@contract(M + 'CheckAllGnHonesty')
def CheckAllGnHonesty(c, base, answers, bits, publics):
    wf_n(c, base); wf_gens(c, base, ('H1',))
    for s in (answers, bits, publics): c.requires(ge(slen(s), I(480)), '480 entries')
    for k in range(6):
        if not c.case(gn_all(c, base, lambda i: c.bi(c.at(answers, i, BIGT)), lambda i: c.at(bits, i, 'bool'), lambda i: c.bi(c.at(publics, i, BIGT)), k)):
            c.ret(I(k + 1)); return
    c.ret(ZERO)
def gn_all(c, base, ans, bit, pub, k): return gn_ok(c, base, ans, bit, pub, gen(c, base, 'G%d' % (k + 1)), 80 * k)
def seg(r, k): return slice_(r, I(80 * k), W80)
@contract(M + 'ChallengeAllGnHonesty')
def ChallengeAllGnHonesty(c, base):
    """480 independent coin flips and nothing else"""
    r = c.fresh('bits')
    for k in range(6): c.fill(seg(r, k), 'bool', W80, lambda w: c.randbool())
    c.ret(slice_(r, ZERO, I(480)))
@contract(M + 'AnswerAllGnHonesty')
def AnswerAllGnHonesty(c, base, bits, secrets, publics):
    """secret, plus the exponent of the generator exactly when the bit is set"""
    for s in (bits, secrets): c.requires(eq(slen(s), I(480)), '480 entries')
    r = c.fresh('answers')
    for k in range(6):
        a = c.bi(c.f(base, FB, 'alpha%d' % (k + 1)))
        def one(w):
            i = add(w, I(80 * k))
            return c.newbig(add(c.bi(c.at(secrets, i, BIGT)), ite(c.at(bits, i, 'bool'), a, ZERO)))
        c.fill(seg(r, k), BIGT, W80, one)
    c.ret(slice_(r, ZERO, I(480)))
@contract(M + 'GenerateAllGnHonestyProof')
def GenerateAllGnHonestyProof(c, base):
    """480 secrets drawn from the secure source, and h1 to each of them"""
    wf_n(c, base); wf_gens(c, base, ('H1',))
    for k in 'PQ': c.requires(gt(c.bi(c.f(base, FB, k)), ZERO), 'secret primes known')
    c.ret(*honesty_proof(c, gen(c, base, 'H1'), N(c, base)))
def honesty_proof(c, h, n):
    e = {}
    s = c.fresh('secrets'); p = c.fresh('publics')
    for k in range(6):
        def sec(w):
            e['n'] = c.randint(n); return c.newbig(e['n'])
        c.fill(seg(s, k), BIGT, W80, sec)
        c.fill(seg(p, k), BIGT, W80, lambda w: c.newbig(T.modexp(h, subst(e['n'], {e['n'].args[-1]: w}), n)))
    return slice_(s, ZERO, I(480)), slice_(p, ZERO, I(480))
# ---------------------------------------------------------------- the parameters
@contract(PKG + 'genSafePrime512')
def genSafePrime512(c):
    """a safe prime generated for this call"""
    c.may_stop()
    s = c.genprime()
    c.ret(c.newbig(add(s, s, ONE)))
@contract(M + 'genH')
def genH(c, base):
    """the square of an element of the whole range, coprime to both safe primes and not 1"""
    wf_n(c, base)
    n = c.randint(N(c, base)); c.assume(neq(n, ONE))
    ps = [c.bi(c.f(base, FB, k)) for k in 'PQ']
    for p in ps:
        p2 = add(p, p, ONE); c.requires(safeprime(p2), 'built from a safe prime')
        c.requires(ge0(p), 'secret primes known')
        c.assume(neq(T.mod(n, p2), ZERO))
    c.requires(eq(N(c, base), mul(*[add(p, p, ONE) for p in ps])), 'the modulus is their product')
    c.trust(unitp(n, N(c, base)))               # coprime to both prime factors
    sq = T.mod(mul(n, n), N(c, base))
    c.ret(newpt(c, base, sq))
@contract(PKG + 'CreateBaseFromSuite')
def CreateBaseFromSuite(c, suite):
    """modulus: product of two generated safe primes; h1 a square; each generator h1 to a secret of its own"""
    c.may_stop()
    c.ret(new_base(c, suite)[0])
def new_base(c, suite):
    """(base, h1, N)"""
    p, q = c.genprime(), c.genprime()
    u, v = add(p, p, ONE), add(q, q, ONE)
    n = mul(u, v); r = mul(I(2 ** 80), n)
    m = c.newbig(n)
    h = c.randint(n); c.assume(neq(h, ONE))
    for k in (u, v): c.assume(neq(T.mod(h, k), ZERO))
    c.trust(unitp(h, n))                        # coprime to both prime factors
    hv = T.mod(mul(h, h), n)
    pt = lambda x: c.newstruct(PT, V=x, M=m)
    fs = dict(Suite=suite, N=m, P=c.newbig(p), Q=c.newbig(q), RandomRadius=c.newbig(r), RandomDiameter=c.newbig(add(r, r)), H1=pt(hv))
    for i in range(1, 7):
        a = sub(c.randint(add(r, r)), r)
        fs['alpha%d' % i] = c.newbig(a)
        fs['G%d' % i] = pt(T.modexp(hv, a, n))
    return c.newstruct(FB, **fs), hv, n
