from registry import prop
from engine.terms import *
from contracts import pedersen as pd

def pedersen_homomorphism(g):
    """the sum and difference of two commitments are opened by the sum and difference of values and randomness"""
    st = g.st
    b = g.ref('base')
    st.assume(neq(g.f(st, b, pd.PB, 'GT'), NIL)); st.assume(neq(g.f(st, b, pd.PB, 'HT'), NIL))
    x, y, r, s = [g.ref(n) for n in 'xyrs']
    for op, sop in (('Add', add), ('Sub', sub)):
        for s1, (c1,) in g.call(pd.M + 'CommitWithR', st, b, x, r):
            for s2, (c2,) in g.call(pd.M + 'CommitWithR', s1, b, y, s):
                for s3, (c3,) in g.call(pd.M + op, s2, b, c1, c2):
                    X, Y = g.E.newsecret(s3, '/X', (), mod(sop(g.sv(st, x), g.sv(st, y)), Q)), g.E.newsecret(s3, '/Y', (), mod(sop(g.sv(st, r), g.sv(st, s)), Q))
                    for s4, (ok,) in g.call(pd.M + 'Verify', s3, b, X, Y, c3):
                        g.prove('%s of commitments opens' % op, s4, ok)
def pedersen_commit_opens(g):
    """a commitment just made is opened by the value and the returned randomness"""
    st = g.st; b = g.ref('base'); x = g.ref('x')
    st.assume(neq(g.f(st, b, pd.PB, 'GT'), NIL)); st.assume(neq(g.f(st, b, pd.PB, 'HT'), NIL))
    for s1, (c, r) in g.call(pd.M + 'Commit', st, b, x):
        for s2, (ok,) in g.call(pd.M + 'Verify', s1, b, x, r, c):
            g.prove('opens', s2, ok)

prop('C01', contracts=[pd.M + n for n in ('CommitWithR', 'Commit', 'Verify', 'Add', 'Sub', 'Randomize')] + [pd.PKG + 'CreateBase', pd.PKG + 'CreateMinimalBaseFromSuite', pd.PKG + 'CreateBaseFromSuite'],
     goals=[pedersen_homomorphism, pedersen_commit_opens],
     replay=[('primitive/pedersen', 'c01_test.go', 'TestZV')])
