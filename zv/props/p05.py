from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import fujiokam as fo, pedersen as pd, equality as eqc
PKG = eqc.PKG
def honest_argument_accepted(g):
    """both commitments made to the same value, then prover and verifier"""
    st = g.st; v = g.view(st); pbase, fbase = g.ref('pbase'), g.ref('fbase')
    fo.wf(v, fbase); eqc.wf_p(v, pbase)
    x, rp, rf = g.ref('x'), g.ref('rp'), g.ref('rf')
    xi = fld(x, 'nist.Int.V')
    for s1, (P,) in g.call(pd.M + 'CommitWithR', st, pbase, x, rp):
        for s2, (F,) in g.call(fo.M + 'CommitWithR', s1, fbase, xi, rf):
            for o in g.call_all(PKG + 'ProveEqual', s2, pbase, fbase, x, P, rp, F, rf):
                if o.kind != 'ret': g.prove('the prover does not stop', o.st, FALSE); continue
                for s4, (ok,) in g.call(PKG + 'VerifyEqual', o.st, pbase, fbase, P, F, o.vals[0]):
                    g.prove('accepted', s4, ok)
prop('C05', contracts=[], goals=[honest_argument_accepted], replay=[('primitive/pedersen_fujiokam', 'c05_test.go', 'TestZV')])
prop('C06', contracts=[PKG + 'VerifyEqual'], goals=[], replay=[('primitive/pedersen_fujiokam', 'c06_test.go', 'TestZV')])
