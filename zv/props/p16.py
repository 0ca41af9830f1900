from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import shuffle as sh, elgamal as eg
PT = sh.PT
def accept(g):
    """for every statement and every proof: accepted exactly when all equations hold"""
    import engine.intrinsics as I_
    for which in range(4):
        st = g.st.copy()
        gb, hb = [NIL if which >> n & 1 else g.ref('gh'[n]) for n in range(2)]
        for r in (gb, hb):
            if r is not NIL: st.assume(neq(r, NIL))
        ls = [g.arg('l%d' % n, '[]' + PT) for n in range(4)]
        k = slen(ls[0]); st.assume(gt(k, ONE))
        for l in ls[1:]: st.assume(eq(slen(l), k))
        for l in ls: st.assume(sh.all_(ZERO, k, lambda i: neq(g.at(st, l, i, PT), NIL)))
        P = [lambda i, l=l: g.pv(st, g.at(st, l, i, PT)) for l in ls]
        suite = g.ref('suite'); h0 = g.any('h0', 'Bytes'); ctx = g.ref('ctx'); st.assume(neq(ctx, NIL))
        g.E.sp_store(st, 'CT', ctx, h0)
        want = sh.pair_ok(h0, GB if gb is NIL else g.pv(st, gb), GB if hb is NIL else g.pv(st, hb), k, *P)
        n = 0
        for s, (clo,) in g.call(sh.PKG + 'Verifier', st, suite, gb, hb, *ls):
            for s2, (err,) in g.call_clo(clo, s, ctx):
                n += 1
                if err is NIL:
                    for c in (want.args if want.op == 'and' else [want]): g.prove('accepted only if the equation holds', s2, c)
                else:
                    s3 = s2.copy(); s3.assume(want)
                    g.prove('rejected only if an equation fails', s3, eq(err, NIL))
        if not n: g.fail('the verifier returns')
prop('C16', contracts=[sh.PKG + 'Shuffle'], goals=[], replay=[('util/shuffle', 'c16_test.go', 'TestZV')])
prop('C17', contracts=['zRep/cmd/server.verifyNeffShuffle'], goals=[accept], replay=[('cmd/server', 'c17s_test.go', 'TestZV'), ('util/shuffle', 'c17_test.go', 'TestZV')])
