"""zRep/primitive/lrs"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.intrinsics import unitp, expz
PKG = 'zRep/primitive/lrs.'
LB = PKG + 'LRSBase'
SG = PKG + 'Signature'
M = '(*zRep/primitive/lrs.LRSBase).'
BT = '*math/big.Int'
def P(c, b): return c.bi(c.f(b, LB, 'P'))
def Qm(c, b): return c.bi(c.f(b, LB, 'Q'))
def Gb(c, b): return c.bi(c.f(b, LB, 'G'))
def wf(c, b):
    for n in ('P', 'Q', 'G'): c.requires(neq(c.f(b, LB, n), NIL), n + ' set')
    c.requires(gt(P(c, b), ONE), 'modulus greater than 1'); c.requires(gt(Qm(c, b), ONE), 'order greater than 1')
def el(c, s, i): return c.bi(c.at(s, i, BT))
def cats(n, fn):
    w = freshvar('w', 'Int'); return T.bigcat(ZERO, n, lam(w, fn(w)))
def ring(c, y): return cats(slen(y), lambda i: i2b(el(c, y, i)))
def h1(c, b, m): return T.mod(b2i(T.hashb('sha256', m)), Qm(c, b))
def h2(c, b, m): return T.modexp(b2i(T.hashb('sha256', m)), I(2), P(c, b))
def context(c, b, m, L): return h2(c, b, cat(T.hashb('sha256', m), L))
def ex(c, b, x, e): return expz(ZERO, x, e, P(c, b))
def z(c, b, g, s, y, k): return T.mod(mul(ex(c, b, g, s), ex(c, b, y, k)), P(c, b))

@contract(PKG + 'computeL')
def computeL(c, y): c.ret(ring(c, y))
@contract(M + 'H1')
def H1(c, b, m):
    wf(c, b); c.ret(c.newbig(h1(c, b, m)))
@contract(M + 'H2')
def H2(c, b, m):
    wf(c, b); c.ret(c.newbig(h2(c, b, m)))
@contract(M + 'computeh')
def computeh(c, b, m, L):
    wf(c, b); c.ret(c.newbig(context(c, b, m, L)))
@contract(M + 'zi1')
def zi1(c, b, s, y, k):
    wf(c, b); c.ret(c.newbig(z(c, b, Gb(c, b), c.bi(s), c.bi(y), c.bi(k))))
@contract(M + 'zi2')
def zi2(c, b, h, s, y0, k):
    wf(c, b); c.ret(c.newbig(z(c, b, c.bi(h), c.bi(s), c.bi(y0), c.bi(k))))
@contract(M + 'pickZq')
def pickZq(c, b):
    wf(c, b)
    n = c.randint(Qm(c, b))
    c.ret(c.newbig(n))
@contract(PKG + 'Linkable')
def Linkable(c, s1, s2):
    c.ret(eq(c.bi(c.f(s1, SG, 'Y0')), c.bi(c.f(s2, SG, 'Y0'))))
def transcript(c, b, m, n, e, y0, s, k):
    """the bytes hashed into the sum of the challenges: ring, tag, message and both commitments of every position"""
    L = cats(n, lambda i: i2b(e(i))); h = context(c, b, m, L)
    return cat(L, i2b(y0), m, cats(n, lambda i: i2b(z(c, b, Gb(c, b), s(i), e(i), k(i)))), cats(n, lambda i: i2b(z(c, b, h, s(i), y0, k(i)))))
def accepted(c, b, m, n, sig, ny, e):
    """ring of ny members e(i): one response and one challenge per member, the challenges add up to the hash"""
    y0 = c.bi(c.f(sig, SG, 'Y0')); S, C = c.f(sig, SG, 'S'), c.f(sig, SG, 'C')
    if not c.case(and_(eq(ny, n), eq(slen(S), n), eq(slen(C), n))): return c.ret(FALSE)
    k = lambda i: el(c, C, i)
    w = freshvar('w', 'Int')
    c.ret(eq(T.mod(T.bigsum(ZERO, n, lam(w, k(w))), Qm(c, b)), h1(c, b, transcript(c, b, m, n, e, y0, lambda i: el(c, S, i), k))))
@contract(M + 'VerifyHelper')
def VerifyHelper(c, b, m, n, pi, sig, y):
    wf(c, b); accepted(c, b, m, n, sig, slen(y), lambda i: el(c, y, i))
PT = 'github.com/dedis/crypto/abstract.Point'
def pel(c, y, i): return b2i(T.pb(c.pv(c.at(y, i, PT))))
@contract(M + 'Verify')
def Verify(c, b, m, n, pi, sig, y):
    wf(c, b); accepted(c, b, m, n, sig, slen(y), lambda i: pel(c, y, i))
def signed(c, b, m, n, pi, x, ny, e):
    """a draw of its own for every response and challenge but the signer's, whose challenge is what the hash leaves and whose
    response is one more draw of its own, less challenge times key"""
    c.requires(eq(ny, n), 'one key per member')
    for a in (ge0(pi), lt(pi, n)): c.requires(a, 'the signer is a member')
    q, g = Qm(c, b), Gb(c, b)
    S0, C0 = c.randintf(q, n, 's'), c.randintf(q, n, 'c'); r = c.randint(q, 'r')
    L = cats(ny, lambda i: i2b(e(i))); h = context(c, b, m, L)
    y0 = ex(c, b, h, x)
    own = lambda i, a, o: ite(eq(i, pi), a, o)
    e1 = h1(c, b, cat(L, i2b(y0), m, cats(n, lambda i: own(i, i2b(ex(c, b, g, r)), i2b(z(c, b, g, S0(i), e(i), C0(i))))),
                  cats(n, lambda i: own(i, i2b(ex(c, b, h, r)), i2b(z(c, b, h, S0(i), y0, C0(i)))))))
    w = freshvar('w', 'Int')
    ch = T.mod(sub(e1, T.bigsum(ZERO, n, lam(w, ite(eq(w, pi), ZERO, C0(w))))), q)
    sp = T.mod(sub(r, mul(ch, x)), q)
    S, C = (c.newslice(BT, n, lambda i, D=D: c.newbig(D(i)), lambda i: neq(i, pi)) for D in (S0, C0))
    c.setat(S, pi, BT, c.newbig(sp)); c.setat(C, pi, BT, c.newbig(ch))
    c.ret(c.newstruct(SG, Y0=c.newbig(y0), S=S, C=C))
@contract(M + 'SignHelper')
def SignHelper(c, b, m, n, pi, x, y):
    wf(c, b); c.requires(neq(x, NIL), 'key present')
    signed(c, b, m, n, pi, c.bi(x), slen(y), lambda i: el(c, y, i))
@contract(M + 'Sign')
def Sign(c, b, m, n, pi, x, y):
    wf(c, b); c.requires(neq(x, NIL), 'key present')
    signed(c, b, m, n, pi, c.sv(x), slen(y), lambda i: pel(c, y, i))
