"""zRep/primitive/pedersen_fujiokam"""
from registry import contract
from engine import terms as T
from engine.terms import *
from contracts import pedersen as pd, fujiokam as fo
PKG = 'zRep/primitive/pedersen_fujiokam.'
ARG = PKG + 'ARGequal'
def wf_p(c, pb_):
    c.requires(neq(c.f(pb_, pd.PB, 'GT'), NIL), 'generator set'); c.requires(neq(c.f(pb_, pd.PB, 'HT'), NIL), 'generator set')
def ingroup(c, r): return neq(c.pv(r), GZERO)
def eq_accepts(c, pbase, fbase, P, F, C, S1, S2, S3):
    """the challenge equals the hash of the recomputed first messages and the two commitments; P, F are values"""
    n = fo.N(c, fbase)
    g, h = c.pv(c.f(pbase, pd.PB, 'GT')), c.pv(c.f(pbase, pd.PB, 'HT'))
    T1 = gmul(gexp(g, S1), gexp(h, S2), gexp(P, neg(C)))
    T2 = T.mod(mul(T.modexp(fo.gen(c, fbase, 'G1'), S1, n), T.modexp(fo.gen(c, fbase, 'H1'), S3, n), T.modexp(F, neg(C), n)), n)
    return eq(C, b2i(T.hashb('sha256', cat(pb(P), i2b(F), pb(T1), i2b(T2)))))
@contract(PKG + 'VerifyEqual')
def VerifyEqual(c, pbase, fbase, P, F, arg):
    wf_p(c, pbase); fo.wf_n(c, fbase); fo.wf_gens(c, fbase, ('G1', 'H1')); c.requires(neq(P, NIL), 'commitment given')
    vals = [c.bi(c.f(arg, ARG, k)) for k in ('C', 'S1', 'S2', 'S3')]
    c.ret(eq_vals(c, pbase, fbase, c.pv(P), fo.V(c, F), *vals))
def eq_vals(c, pbase, fbase, P, fv, C, S1, S2, S3):
    from engine.intrinsics import unitp
    n = fo.N(c, fbase)
    ok = or_(ge0(neg(C)), unitp(fv, n))
    if c.case(ok): return eq_accepts(c, pbase, fbase, P, fv, C, S1, S2, S3)
    # a commitment that is not invertible modulo N: the power keeps the value 0
    g, h = c.pv(c.f(pbase, pd.PB, 'GT')), c.pv(c.f(pbase, pd.PB, 'HT'))
    T1 = gmul(gexp(g, S1), gexp(h, S2), gexp(P, neg(C)))
    return eq(C, b2i(T.hashb('sha256', cat(pb(P), i2b(fv), pb(T1), i2b(ZERO)))))
