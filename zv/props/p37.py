from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import coordinator as co, server as sv, client as cl, pedersen as pd, util as ut
from props.p34 import h_of, g_of
def announced(g):
    """the coordinator takes over the table that came through the chain; yields the states with the families of messages"""
    st = g.st; pm = g.ref('announcement')
    c = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO); v = g.view(st)
    g.assume(st, neq(g.f(st, c, co.CO, 'PedersenBase'), NIL)); co.wf_addrs(v); co.wf_clients(v)
    n, key = ut.plist(v.param(pm, 'keys'))[1:]; g.assume(st, v.distinct(n, key))
    for s, _ in g.call(co.CN + 'handleAnnouncement', st, pm):
        ms = g.sent(s)
        if len(ms) != 2: g.fail('one family of messages to the clients and one to the servers'); continue
        for d, et, m, frm in ms: g.prove('is the table', s, eq(et, I(co.ANNOUNCEMENT_FINALIZE)))
        yield s, c, ms, n, key
def same_round(g, q, c, o, t):
    g.prove('same generator', q, eq(g.pv(q, g.f(q, c, co.CO, 'G')), g.pv(q, g.f(q, o, t, 'G'))))
    g.prove('same first base', q, eq(g_of(g, q, c, co.CO), g_of(g, q, o, t)))
    g.prove('same second base', q, eq(h_of(g, q, c, co.CO), h_of(g, q, o, t)))
def servers(g):
    """every server holds the coordinator's table, bases and generator, whatever it held before"""
    st = g.st; me = g.glob(st, sv.SN + 'anonServer', '*' + sv.SV)
    p = g.f(st, me, sv.SV, 'PedersenBase'); g.assume(st, neq(p, NIL))
    c0 = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO)
    g.assume(st, neq(me, c0)); g.assume(st, neq(p, g.f(st, c0, co.CO, 'PedersenBase')))
    for s, c, ms, n, key in announced(g):
        for d, et, m, frm in ms:
            s1 = s.copy(); r = g.deliver(s1, m)
            for q, _ in g.call(sv.SN + 'handleAnnouncementFinalize', s1, r):
                same_round(g, q, c, me, sv.SV)
                i = g.any('i', 'Int'); q2 = q.copy(); q2.assume(ge0(i)); q2.assume(lt(i, n))
                for a, b in (('EndingKeyMap', 'EndingKeyMap'), ('EndingCommMap', 'EndingCommMap')):
                    h1, o1 = g.mget(q2, co.MPT, g.f(q2, c, co.CO, a), T.pstr(key(i)))
                    h2, o2 = g.mget(q2, co.MPT, g.f(q2, me, sv.SV, b), T.pstr(key(i)))
                    g.prove('listed at the coordinator', q2, h1); g.prove('listed at the server', q2, h2)
                    g.prove('with the same value', q2, eq(g.pv(q2, o1), g.pv(q2, o2)))
                k = g.any('k', 'Str'); q3 = q.copy()
                q3.assume(g.view(q3).all(n, lambda i: neq(k, T.pstr(key(i)))))
                for a in ('EndingKeyMap', 'EndingCommMap'):
                    g.prove('nobody else at the coordinator', q3, not_(g.mget(q3, co.MPT, g.f(q3, c, co.CO, a), k)[0]))
                    g.prove('nobody else at the server', q3, not_(g.mget(q3, co.MPT, g.f(q3, me, sv.SV, a), k)[0]))
def clients(g):
    """every client holds the bases and the generator of the coordinator, and the commitment the coordinator lists for it"""
    st = g.st; me = g.ref('client'); DC = cl.DC
    g.assume(st, neq(me, NIL))
    for n in ('PedersenBase', 'PrivateKey'): g.assume(st, neq(g.f(st, me, DC, n), NIL))
    c0 = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO)
    g.assume(st, neq(me, c0)); g.assume(st, neq(g.f(st, me, DC, 'PedersenBase'), g.f(st, c0, co.CO, 'PedersenBase')))
    for s, c, ms, n, key in announced(g):
        for d, et, m, frm in ms:
            s1 = s.copy(); r = g.deliver(s1, m)
            for q, _ in g.call(cl.CL + 'handleAnnouncementFinalize', s1, r, me):
                same_round(g, q, c, me, DC)
                nym = g.pv(q, g.f(q, me, DC, 'OnetimePseudoNym'))
                g.prove('own pseudonym', q, eq(nym, T.gexp(g.pv(q, g.f(q, c, co.CO, 'G')), g.sv(q, g.f(q, me, DC, 'PrivateKey')))))
                i = g.f(q, me, DC, 'Index')
                g.prove('a position in the list', q, and_(ge0(i), lt(i, n)))
                g.prove('its own position', q, eq(key(i), nym))
                h, o = g.mget(q, co.MPT, g.f(q, c, co.CO, 'EndingCommMap'), T.pstr(key(i)))
                g.prove('listed at the coordinator', q, h)
                g.prove('the commitment the coordinator lists', q, eq(g.pv(q, o), g.pv(q, g.f(q, me, DC, 'PCommr'))))
prop('C37', contracts=[co.CN + 'handleAnnouncement', sv.SN + 'handleAnnouncementFinalize', cl.CL + 'handleAnnouncementFinalize'], goals=[servers, clients],
     replay=[('cmd/server', 'c37_test.go', 'TestZV'), ('cmd/coordinator', 'c29_test.go', 'TestZV'), ('cmd/coordinator', 'c38_test.go', 'TestZV'), ('cmd/client', 'c30_test.go', 'TestZV')])
