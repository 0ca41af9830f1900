"""every message is handled by the handler of its type"""
from registry import prop
from engine.terms import *
from engine import terms as T
from engine.contracts import EVENTKIND
from engine.intrinsics import mapval, tcpstr
from contracts import dispatch as d, util as ut
from engine.rounds import Rounds, received
AT = '*net.TCPAddr'
def listener(fn, pkg, glob_, typ):
    def goal(g):
        E = g.E; st = g.st; l = g.ref('listener'); g.assume(st, neq(l, NIL))
        node = g.glob(st, pkg + glob_, '*' + typ)
        R = Rounds(E, {pkg + 'Handle': 'handle'})
        E.call_all(pkg + fn, st, [l], '/g', ())
        g.nlive += 1
        if not R.runs: return g.fail('messages are taken')
        for pre, log in R.runs.values():
            g.prove('nothing is handled before the first connection', st, B(not pre))
            for paths in log:
                if not paths: g.fail('messages are taken')
                for t in paths:
                    ok = [e[0] for e in t] == ['accept', 'handle']
                    g.prove('each connection is handled once, before the next one is accepted', st, B(ok))
                    if ok:
                        g.prove('the handler gets all that arrived on the connection and nothing else', t[1][3], eq(t[1][1][0], received(t[0][1][0])))
                        g.prove('for this node', t[1][3], eq(t[1][1][1], node))
    goal.__name__ = fn; goal.__doc__ = '%s%s: in any number of connections' % (pkg, fn)
    return goal
def message_arrives(g):
    """what SendEvent hands to the network decodes to the same type and parameters and to the sender's address"""
    E = g.E; st = g.st
    src, dst, ev = g.ref('src'), g.ref('dst'), g.ref('ev')
    for r in (src, dst, ev): g.assume(st, neq(r, NIL))
    kind = g.f(st, ev, ut.EV, 'EventType'); m = mapval(E, st, ut.PARAMS, g.f(st, ev, ut.EV, 'Params')); text = tcpstr(E, st, src)
    for s1, _ in g.call(ut.U + 'SendEvent', st, src, dst, ev):
        b = T.enc(EVENTKIND, T.rec(EVENTKIND[4:], kind, m, text))
        g.prove('one message to the peer', s1, eq(E.sent(s1), bagadd(E.sent(st), bag1(pair(tcpstr(E, st, dst), b)))))
        for s2, (e2, a2) in g.call(ut.U + 'DecodeEvent', s1, b):
            g.prove('same type', s2, eq(g.f(s2, e2, ut.EV, 'EventType'), kind))
            g.prove('same parameters', s2, eq(mapval(E, s2, ut.PARAMS, g.f(s2, e2, ut.EV, 'Params')), m))
            g.prove('sender', s2, eq(tcpstr(E, s2, a2), T.uf('canon', 'Str', text)))
prop('C36', contracts=[d.co.CN + 'Handle', d.sv.SN + 'Handle', d.cl.CL + 'Handle', d.cl.CL + 'handleVotePhaseStart', d.cl.CL + 'handleVoteReply'], goals=[message_arrives, listener('startServerListener', d.co.CN, 'anonCoordinator', d.co.CO), listener('startAnonServerListener', d.sv.SN, 'anonServer', d.sv.SV), listener('startClientListener', d.cl.CL, 'dissentClient', d.cl.DC)], replay=[('cmd/coordinator', 'c36_test.go', 'TestZV'), ('cmd/server', 'c36s_test.go', 'TestZV'), ('cmd/client', 'c36c_test.go', 'TestZV'), ('cmd/coordinator', 'c36l_test.go', 'TestZV'), ('cmd/server', 'c36ls_test.go', 'TestZV'), ('cmd/client', 'c36lc_test.go', 'TestZV')])
