"""zRep/util/shuffle"""
from registry import contract
from engine import terms as T
from engine.terms import *
from contracts import elgamal as eg
PKG = 'zRep/util/shuffle.'
PT = 'github.com/dedis/crypto/abstract.Point'
STREAM = eg.STREAM
@contract(PKG + 'Shuffle')
def Shuffle(c, group, g, h, X, Y, rand):
    """outputs a permutation of the inputs, each multiplied by its own blinding pair, and the blinding pairs"""
    c.requires(c.secure(rand), 'the secure random source')
    k = slen(X)
    c.requires(gt(k, ONE), 'at least two pairs'); c.requires(eq(slen(Y), k), 'as many first as second components')
    G, H = eg.base_of(c, g), eg.base_of(c, h)
    s = c.permf(k); b = c.randf('b', k)
    P = lambda sl, i: c.pv(c.at(sl, s(i), PT))
    c.ret(c.newslice(PT, k, lambda i: c.newpoint(T.gmul(T.gexp(G, b(s(i))), P(X, i)))), c.newslice(PT, k, lambda i: c.newpoint(T.gmul(T.gexp(H, b(s(i))), P(Y, i)))), c.out('prover', 'Ref'),
          c.newslice(PT, k, lambda i: c.newpoint(T.gexp(G, b(s(i))))), c.newslice(PT, k, lambda i: c.newpoint(T.gexp(H, b(s(i))))))

# ---------------------------------------------------------------- verification
def all_(lo, hi, fn):
    w = freshvar('i', 'Int'); return forall(w, or_(not_(and_(ge(w, lo), lt(w, hi))), fn(w)))
def simple_ok(tr, G, Gam, k, X0=None, Y0=None):
    """the embedded simple shuffle is about the vectors X0, Y0 and its equations hold"""
    p, _ = tr.read('{[p][p]}', (k, k)); X = lambda i: p(0, i); Y = lambda i: p(1, i)
    _, s = tr.chal('{s}'); t = s(0)
    p2, _ = tr.read('{[p]}', (mul(I(2), k),)); Th = lambda i: p2(0, i)
    _, s = tr.chal('{s}'); c = s(0)
    _, s2 = tr.read('{[s]}', (sub(mul(I(2), k), ONE),)); al = lambda i: s2(0, i)
    th = lambda A, B, T_, a, b: eq(T.gmul(T.gexp(A, a), T.gexp(B, neg(b))), T_)
    Xh = lambda i: T.gmul(X(i), T.gexp(G, neg(t))); Yh = lambda i: T.gmul(Y(i), T.gexp(Gam, neg(t)))
    n = sub(mul(I(2), k), ONE)
    cs = [th(Xh(ZERO), Yh(ZERO), Th(ZERO), c, al(ZERO)),
          all_(ONE, k, lambda i: th(Xh(i), Yh(i), Th(i), al(sub(i, ONE)), al(i))),
          all_(k, n, lambda i: th(Gam, G, Th(i), al(sub(i, ONE)), al(i))),
          th(Gam, G, Th(n), al(sub(n, ONE)), c)]
    if X0: cs += [all_(ZERO, k, lambda i: eq(X(i), X0(i))), all_(ZERO, k, lambda i: eq(Y(i), Y0(i)))]
    return cs
def pair_ok(h0, G, H, k, X, Y, Xb, Yb):
    """every equation of the pair shuffle holds for the transcript that starts in state h0"""
    from engine.intrinsics import Transcript
    tr = Transcript(h0)
    p1, _ = tr.read('{p[p][p][p][p]pp}', (k, k, k, k))
    Gam, L1, L2 = p1(0), p1(5), p1(6); A, C, U, W = [lambda i, n=n: p1(n, i) for n in (1, 2, 3, 4)]
    _, s = tr.chal('{[s]}', (k,)); rho = lambda i: s(0, i)
    p3, _ = tr.read('{[p]}', (k,)); D = lambda i: p3(0, i)
    _, s4 = tr.chal('{s}'); lam_ = s4(0)
    _, s5 = tr.read('{[s]s}', (k,)); sig = lambda i: s5(0, i); tau = s5(1)
    Bv = lambda i: T.gmul(T.gexp(G, rho(i)), T.ginv(U(i)))
    cs = simple_ok(tr, G, Gam, k, lambda i: T.gmul(A(i), T.gexp(Bv(i), lam_)), lambda i: T.gmul(C(i), T.gexp(D(i), lam_)))
    prod = lambda Ob, O: T.bigprod(ZERO, k, (lambda w: lam(w, T.gmul(T.gexp(Ob(w), sig(w)), T.ginv(T.gexp(O(w), rho(w))))))(freshvar('i', 'Int')))
    cs += [all_(ZERO, k, lambda i: eq(T.gexp(Gam, sig(i)), T.gmul(W(i), D(i)))),
           eq(T.gmul(L1, T.gexp(G, tau)), prod(Xb, X)), eq(T.gmul(L2, T.gexp(H, tau)), prod(Yb, Y))]
    return and_(*(tr.ok + cs))
