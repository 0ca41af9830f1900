from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import coordinator as co, util as ut, client as cl
def table_ok(g):
    """whatever table comes through the chain, afterwards every entry of the round's table is filed under its own pseudonym"""
    st = g.st; pm = g.ref('announcement')
    c = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO); v = g.view(st)
    g.assume(st, neq(g.f(st, c, co.CO, 'PedersenBase'), NIL)); co.wf_addrs(v); co.wf_clients(v)
    n, key = ut.plist(v.param(pm, 'keys'))[1:]; g.assume(st, v.distinct(n, key))
    for s, _ in g.call(co.CN + 'handleAnnouncement', st, pm):
        s = s.copy()
        i = g.any('i', 'Int'); s.assume(ge0(i)); s.assume(lt(i, n))
        has, o = g.mget(s, co.MPT, g.f(s, c, co.CO, 'EndingKeyMap'), T.pstr(key(i)))
        g.prove('every participant is in the table', s, has)
        g.prove('under its pseudonym', s, eq(g.pv(s, o), key(i)))
prop('C29', contracts=[co.CN + f for f in ('announce', 'roundEnd', 'handleAnnouncement', 'handleRoundEnd', 'vote')] + [co.M + 'GetReputationDiff'], goals=[table_ok], replay=[('cmd/coordinator', 'c29_test.go', 'TestZV')])
