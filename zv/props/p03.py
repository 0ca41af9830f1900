from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import fujiokam as fo

def honest_argument_accepted(g):
    """prover then verifier, for every value, base, randomness and coins"""
    st = g.st; v = g.view(st); base = g.ref('base'); fo.wf(v, base)
    x, rc = g.ref('x'), g.ref('rc')
    g.assume(st, ge0(v.bi(x)), lt(v.bi(x), I(2 ** 49)))
    for s1, (cx,) in g.call(fo.M + 'CommitWithR', st, base, x, rc):
        outs = g.call_all(fo.M + 'ProveNonneg', s1, base, x, cx, rc)
        for o in outs:
            if o.kind != 'ret': g.prove('the prover does not stop', o.st, FALSE); continue
            arg, = o.vals
            for s3, (ok,) in g.call(fo.M + 'VerifyNonneg', o.st, base, cx, arg):
                g.prove('accepted', s3, ok)
def negative_refused(g):
    st = g.st; v = g.view(st); base = g.ref('base'); fo.wf(v, base)
    x, rc, cx = g.ref('x'), g.ref('rc'), g.ref('commitx')
    g.assume(st, lt(v.bi(x), ZERO))
    outs = g.call_all(fo.M + 'ProveNonneg', st, base, x, cx, rc)
    for o in outs:
        if o.kind == 'ret': g.prove('no argument for a negative value', o.st, FALSE)
    g.prove('the prover stops', st, B(any(o.kind == 'panic' for o in outs)))

prop('C03', contracts=[fo.PKG + 'decomposeThreeSquareHelper'], goals=[honest_argument_accepted, negative_refused],
     replay=[('primitive/fujiokam', 'c03_test.go', 'TestZV')],
     trusted=['Legendre: every 4x+1 is a sum of three squares (used only to show that the search ends)'])
prop('C04', contracts=[fo.M + 'VerifyNonnegHelper', fo.M + 'VerifyNonneg'], goals=[],
     replay=[('primitive/fujiokam', 'c04_test.go', 'TestZV')])
