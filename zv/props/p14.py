from registry import prop
from engine.terms import *
from engine import terms as T
from engine.intrinsics import unitp
from contracts import lrs as lr, coordinator as co
def isprime(n):
    if n < 4 or n % 2 == 0: return n in (2, 3)
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def setup(g):
    """a base made by CreateBase over a given generator; powers of invertible residues repeat with period P-1 (Fermat)"""
    st = g.st
    gen = g.ref('g'); st.assume(neq(gen, NIL))
    (s, (b,)), = g.call(lr.PKG + 'CreateBase', st, gen)
    p, q = lr.P(g.view(s), b), lr.Qm(g.view(s), b)
    g.prove('the order is the modulus minus one', s, eq(q, sub(p, ONE)))
    if p.op != 'int' or not isprime(p.args[0]): g.fail('the modulus is a prime number')
    else: T.CTX.order[p] = q
    G = lr.Gb(g.view(s), b)
    g.prove('the generator is the given one', s, eq(G, g.bi(st, gen)))
    g.assume(s, unitp(G, p))
    return s, b, p, q, G
def sign_then_verify(g, sign, verify, mem, xval):
    s, b, p, q, G = setup(g)
    m = g.any('message', 'Bytes'); n = g.any('n', 'Int'); pi = g.any('pi', 'Int'); x = g.ref('x'); y = g.any('y', 'Slice')
    for a in (gt(n, ZERO), ge0(pi), lt(pi, n), eq(slen(y), n), neq(x, NIL)): g.assume(s, a)
    v = g.view(s)
    e = xval(g, s, x)
    g.assume(s, eq(mem(v, y, pi), T.modexp(G, e, p)))
    L = lr.cats(slen(y), lambda i: i2b(mem(v, y, i)))
    h = lr.context(v, b, m, L)
    g.assume(s, unitp(b2i(T.hashb('sha256', cat(T.hashb('sha256', m), L))), p))      # a hash is not a multiple of the modulus
    for s1, (sig,) in g.call(sign, s, b, m, n, pi, x, y):
        g.prove('the tag is the context point raised to the signer key', s1, eq(g.bi(s1, g.f(s1, sig, lr.SG, 'Y0')), T.modexp(h, e, p)))
        for s2, (ok,) in g.call(verify, s1, b, m, n, pi, sig, y): g.prove('accepted', s2, ok)
        for k in ('S', 'C'):
            g.prove('one entry of %s per member' % k, s1, eq(slen(g.f(s1, sig, lr.SG, k)), n))
def numbers(g):
    """ring and key given as integers"""
    sign_then_verify(g, lr.M + 'SignHelper', lr.M + 'VerifyHelper', lr.el, lambda g, s, x: g.bi(s, x))
def group_elements(g):
    """ring and key given as elements and exponents of the suite"""
    sign_then_verify(g, lr.M + 'Sign', lr.M + 'Verify', lr.pel, lambda g, s, x: g.sv(s, x))
prop('C14', contracts=[lr.PKG + 'Linkable', co.M + 'IsLinkableRecord', co.M + 'AddToVoteRecords', lr.M + 'VerifyHelper', lr.M + 'Verify'], goals=[numbers, group_elements], replay=[('primitive/lrs', 'c14_test.go', 'TestZV'), ('cmd/coordinator', 'c14c_test.go', 'TestZV')])
prop('C15', contracts=[lr.M + 'VerifyHelper', lr.M + 'Verify', lr.PKG + 'computeL', lr.M + 'H1', lr.M + 'H2', lr.M + 'computeh', lr.M + 'zi1', lr.M + 'zi2'], replay=[('primitive/lrs', 'c15_test.go', 'TestZV')])
prop('C35', contracts=[lr.M + 'SignHelper', lr.M + 'Sign', lr.M + 'pickZq', lr.M + 'zi1', lr.M + 'zi2', lr.M + 'H1', lr.M + 'computeh', lr.PKG + 'computeL'], replay=[('primitive/lrs', 'c35_test.go', 'TestZV')])
