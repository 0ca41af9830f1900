from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import server as sv, util as ut
def mapped_back(g):
    """whatever order the new pseudonyms come back in, the mapping made by the announcement leads each to its original"""
    st = g.st
    pm = gobj('params'); SV = sv.SV
    me = g.glob(st, sv.SN + 'anonServer', '*' + SV)
    rk = g.sv(st, g.f(st, me, SV, 'Roundkey'))
    v = g.view(st); n, key = sv.announce_pre(v, pm)[:2]
    g.assume(st, or_(not_(v.has(pm, 'g')), T.pvalid(v.param(pm, 'g'))))
    for s, _ in g.call(sv.SN + 'handleAnnouncement', st, pm):
        s = s.copy()
        i = g.any('i', 'Int'); s.assume(ge0(i)); s.assume(lt(i, n))
        has, o = g.mget(s, sv.MPT, g.f(s, me, SV, 'KeyMap'), T.pstr(T.gexp(key(i), rk)))
        g.prove('remembered', s, has)
        g.prove('as the original', s, eq(g.pv(s, o), key(i)))
C27 = [sv.SN + f for f in ('handleAnnouncement', 'neffShuffle', 'verifyNeffShuffle')]
prop('C27', contracts=C27, replay=[('cmd/server', 'c27_test.go', 'TestZV')])
prop('C28', contracts=[sv.SN + f for f in ('handleRoundEnd', 'neffShuffle', 'verifyNeffShuffle')], goals=[mapped_back], replay=[('cmd/server', 'c28_test.go', 'TestZV')])
