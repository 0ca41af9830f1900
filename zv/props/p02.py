from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import fujiokam as fo

def setup(g):
    st = g.st; v = g.view(st); base = g.ref('base')
    fo.wf_n(v, base); fo.wf_gens(v, base, ('G1', 'H1')); fo.wf_rad(v, base)
    return st, v, base
def commitments_add_up(g):
    """the product of two commitments is the commitment to the sum of values and randomness (negative ones too)"""
    st, v, base = setup(g)
    x, y, r, s = [g.ref(n) for n in 'xyrs']
    for s1, (c1,) in g.call(fo.M + 'CommitWithR', st, base, x, r):
        for s2, (c2,) in g.call(fo.M + 'CommitWithR', s1, base, y, s):
            for s3, (p,) in g.call(fo.M + 'Point', s2, base):
                for s4, (c3,) in g.call(fo.PM + 'Mul', s3, p, c1, c2):
                    X = g.E.newbig(s4, '/X', (), add(v.bi(x), v.bi(y))); R = g.E.newbig(s4, '/R', (), add(v.bi(r), v.bi(s)))
                    for s5, (c4,) in g.call(fo.M + 'CommitWithR', s4, base, X, R):
                        for s6, (ok,) in g.call(fo.PM + 'Equal', s5, c3, c4):
                            g.prove('product opens to the sum', s6, ok)
def commit_opens(g):
    """a commitment equals the recomputation from the value and the returned randomness"""
    st, v, base = setup(g); x = g.ref('x')
    for s1, (c, r) in g.call(fo.M + 'Commit', st, base, x):
        for s2, (d,) in g.call(fo.M + 'CommitWithR', s1, base, x, r):
            for s3, (ok,) in g.call(fo.PM + 'Equal', s2, c, d):
                g.prove('opens', s3, ok)

prop('C02', contracts=[fo.M + n for n in ('Commit', 'CommitWithR', 'genRandomSecret', 'Point')] + [fo.PM + n for n in ('Add', 'Sub', 'Mul', 'Exp', 'Equal', 'ToBinary', 'FromBinary', 'SetBigInt', 'ToBigInt')] + [fo.PKG + n for n in ('PointFromN', 'PointFromRaw', 'CreateMinimumBase')],
     goals=[commitments_add_up, commit_opens], replay=[('primitive/fujiokam', 'c02_test.go', 'TestZV')])
