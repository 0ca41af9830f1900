from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import coordinator as co, client as cl, util as ut, server as sv
from contracts import pedersen as pd
MINT, MBR, MAD = co.MINT, 'map[string]zRep/cmd/coordinator.BridgeInfo', 'map[string]*net.TCPAddr'
def ready(g, st):
    c = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO); v = g.view(st)
    g.assume(st, neq(g.f(st, c, co.CO, 'PedersenBase'), NIL)); co.wf_addrs(v); co.wf_clients(v)
    return c, v
def absent(g, what, s, c, typ, fld):
    g.prove(what, s, not_(g.mget(s, typ, g.f(s, c, co.CO, fld), g.any('k', 'Str'))[0]))
def cleared(g):
    """no newcomer, message or requester of the round before is left when a round starts, and the table stays as it is"""
    st = g.st; c, v = ready(g, st)
    tables = [(t, g.f(st, c, co.CO, t)) for t in ('BeginningKeyMap', 'BeginningCommMap', 'EndingKeyMap', 'EndingCommMap')]
    for s, _ in g.call(co.CN + 'clearBuffer', st):
        for x in ('NewClientsBuffer', 'MsgLog'): g.prove('nothing in %s' % x, s, eq(slen(g.f(s, c, co.CO, x)), ZERO))
        absent(g, 'no requester', s, c, MAD, 'RequesterAddrs')
        k = g.any('k', 'Str')
        for t, m in tables:
            g.prove('the table stays', s, eq(g.f(s, c, co.CO, t), m))
            a, b = g.mget(st, co.MPT, m, k), g.mget(s, co.MPT, m, k)
            g.prove('with its entries', s, and_(iff_(a[0], b[0]), eq(a[1], b[1])))
def iff_(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))
def scores(g):
    """the scores of the round before are gone when the table of a round arrives"""
    st = g.st; pm = g.ref('announcement'); c, v = ready(g, st)
    n, key = ut.plist(v.param(pm, 'keys'))[1:]; g.assume(st, v.distinct(n, key))
    for s, _ in g.call(co.CN + 'handleAnnouncement', st, pm): absent(g, 'no score', s, c, MINT, 'ReputationDiffMap')
def votes(g):
    """no vote is on record when the voting starts"""
    st = g.st; c, v = ready(g, st)
    for s, _ in g.call(co.CN + 'vote', st): g.prove('no vote', s, eq(slen(g.f(s, c, co.CO, 'VoteRecords')), ZERO))
def bridges(g):
    """no bridge is on record"""
    st = g.st; c = g.ref('coordinator'); g.assume(st, neq(c, NIL))
    for s, _ in g.call(co.M + 'ClearBridges', st, c): absent(g, 'no bridge', s, c, MBR, 'Bridges')
def assignments(g):
    """a client keeps no assignment beyond the end of the round"""
    st = g.st; me = g.ref('client'); pm = g.ref('end'); g.assume(st, neq(me, NIL)); g.assume(st, neq(g.f(st, me, cl.DC, 'OnetimePseudoNym'), NIL))
    for s, _ in g.call(cl.CL + 'handleRoundEnd', st, pm, me): g.prove('no assignment', s, eq(slen(g.f(s, me, cl.DC, 'Assignments')), ZERO))
prop('C38', contracts=[co.CN + f for f in ('clearBuffer', 'vote', 'roundEnd', 'handleAnnouncement')] + [co.M + f for f in ('ClearBridges', 'ClearVoteRecords', 'AddClientInBuffer')] + [cl.CL + 'handleRoundEnd'],
     goals=[cleared, scores, votes, bridges, assignments], replay=[('cmd/coordinator', 'c38_test.go', 'TestZV'), ('cmd/coordinator', 'c29_test.go', 'TestZV'), ('cmd/client', 'c30_test.go', 'TestZV')])

prop('C39', contracts=[co.CN + 'addFakeClients', co.M + 'AddIntoRepMap', co.M + 'AddIntoEndingMap'], goals=[], replay=[('cmd/coordinator', 'c39_test.go', 'TestZV')])
