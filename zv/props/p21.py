from registry import prop
from engine.terms import *
from contracts import coordinator as co, client as cl, bridge as br
def keys(g, st):
    """a client and the coordinator in the same round: same generator, the pseudonym belongs to the client's key"""
    c = g.glob(st, cl.CL + 'dissentClient', '*' + cl.DC); k = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO)
    G = g.f(st, c, cl.DC, 'G'); n = g.f(st, c, cl.DC, 'OnetimePseudoNym')
    for r in (G, n, g.f(st, k, co.CO, 'G')): g.assume(st, neq(r, NIL))
    g.assume(st, eq(g.pv(st, n), gexp(g.pv(st, G), g.sv(st, g.f(st, c, cl.DC, 'PrivateKey')))))
    g.assume(st, eq(g.pv(st, g.f(st, k, co.CO, 'G')), g.pv(st, G)))
    return c, k, n
def client_post_is_recorded(g):
    """what a client sends for a bridge is recorded by the coordinator of the same round"""
    st = g.st; c, k, n = keys(g, st)
    addr = g.any('addr', 'Str')
    for s1, _ in g.call(cl.CL + 'postBridge', st, addr):
        ms = g.sent(s1)
        if len(ms) != 1: g.fail('one message'); continue
        dst, et, pm, src = ms[0]
        g.prove('is a bridge post', s1, eq(et, I(cl.POST_BRIDGE)))
        s2 = s1.copy()
        for o in g.call_all(co.CN + 'handlePostBridge', s2, g.deliver(s2, pm), g.ref('sender')):
            if o.kind != 'ret': g.prove('does not stop', o.st, FALSE); continue
            ok, v = g.mget(o.st, co.MBR, g.f(o.st, k, co.CO, 'Bridges'), addr)
            g.prove('recorded', o.st, ok)
            g.prove('unused', o.st, not_(g.vf(v, co.BI, 'Used')))
            g.prove('under the pseudonym of the client', o.st, eq(g.pv(o.st, g.vf(v, co.BI, 'Nym')), g.pv(st, n)))
prop('C21', contracts=[co.CN + 'handlePostBridge', cl.CL + 'postBridge'], goals=[client_post_is_recorded], replay=[('cmd/coordinator', 'c21_test.go', 'TestZV'), ('cmd/client', 'c21b_test.go', 'TestZV')])
