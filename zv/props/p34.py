from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import coordinator as co, server as sv, pedersen as pd, util as ut
from props.p33 import coord, server, text, proper
PB = pd.PB
def h_of(g, st, o, t): return g.pv(st, g.f(st, g.f(st, o, t, 'PedersenBase'), PB, 'HT'))
def g_of(g, st, o, t): return g.pv(st, g.f(st, g.f(st, o, t, 'PedersenBase'), PB, 'GT'))
def picks(t, out, seen):
    """the secure random draws a term depends on"""
    if isinstance(t, tuple):
        for a in t: picks(a, out, seen)
    elif isinstance(t, T.Term) and t.id not in seen:
        seen.add(t.id)
        if t.op == 'sym' and t.args[0].startswith('pick:'): out.append(t)
        picks(t.args, out, seen)
    return out
def contribution(g):
    """after a server has registered, the coordinator's second generator is the former one raised to an exponent the server
    drew and which is not in the message"""
    st = g.st; pm, addr = g.ref('register'), g.ref('addr')
    c = coord(g, st); me = server(g, st)
    g.assume(st, neq(addr, NIL)); g.assume(st, T.pvalid(g.view(st).param(pm, 'public_key')))
    cp = g.f(st, c, co.CO, 'PedersenBase')
    g.assume(st, neq(g.f(st, cp, PB, 'GT'), g.f(st, cp, PB, 'HT')))
    h0, g0 = h_of(g, st, c, co.CO), g_of(g, st, c, co.CO)
    local = text(g, st, g.f(st, c, co.CO, 'LocalAddr'))
    l = g.f(st, c, co.CO, 'ServerList')
    proper(g, st, g.f(st, c, co.CO, 'LocalAddr'))
    proper(g, st, g.vf(g.at(st, l, sub(slen(l), ONE), co.SI), co.SI, 'Addr'))
    src = g.f(st, c, co.CO, 'LocalAddr')
    for s, _ in g.call(co.CN + 'handleServerRegister', st, pm, addr):
        for d, et, m, frm in g.sent(s):
            if et is not I(co.SERVER_REGISTER_REPLY): continue
            r = g.deliver(s, m)
            n0 = len(g.sent(s))
            for q, _ in g.call(sv.SN + 'handleServerRegisterReply', s, r, src):
                ms = [x for x in g.sent(q) if x[1] is I(co.UPDATE_PEDERSEN_H)]
                if len(ms) != 1 or len(g.sent(q)) != n0 + 1: g.fail('one answer'); continue
                d2, et2, m2, frm2 = ms[0]
                g.prove('to the coordinator', q, eq(d2, local))
                r2 = g.deliver(q, m2)
                for z, _ in g.call(co.CN + 'handleUpdatePedersenH', q, r2):
                    h1 = h_of(g, z, c, co.CO)
                    es = picks(h1, [], set())
                    if len(es) != 1: g.fail('one secret exponent'); continue
                    g.prove('the former generator to a secret exponent', z, eq(h1, T.gexp(h0, es[0])))
                    g.prove('the first generator stays', z, eq(g_of(g, z, c, co.CO), g0))
                    if set(m2) != {'h'}: g.fail('the exponent is not sent')
def agreement(g):
    """after the parameters went out, every server of the list uses the coordinator's second generator and keeps its first"""
    st = g.st; c = coord(g, st); me = server(g, st)
    p = g.f(st, me, sv.SV, 'PedersenBase')
    g.assume(st, neq(p, NIL)); g.assume(st, neq(g.f(st, p, PB, 'GT'), NIL)); g.assume(st, neq(g.f(st, p, PB, 'HT'), NIL))
    cp = g.f(st, c, co.CO, 'PedersenBase')
    objs = [g.f(st, p, PB, 'GT'), g.f(st, p, PB, 'HT'), g.f(st, cp, PB, 'GT'), g.f(st, cp, PB, 'HT')]
    for i in range(4):
        for j in range(i): g.assume(st, neq(objs[i], objs[j]))
    g.assume(st, neq(p, cp))
    h0, g0 = h_of(g, st, c, co.CO), g_of(g, st, me, sv.SV)
    for s, _ in g.call(co.CN + 'configCommParams', st):
        ms = g.sent(s)
        if len(ms) != 1: g.fail('one family of messages'); continue
        d, et, m, frm = ms[0]
        r = g.deliver(s, m)
        g.prove('is the broadcast', s, eq(et, I(co.BCAST_PEDERSEN_H)))
        for q, _ in g.call(sv.SN + 'handleBroadcastPedersenH', s, r):
            g.prove('same second generator', q, eq(h_of(g, q, me, sv.SV), h0))
            g.prove('the coordinator keeps it', q, eq(h_of(g, q, c, co.CO), h0))
            g.prove('the first generator stays', q, eq(g_of(g, q, me, sv.SV), g0))
prop('C34', contracts=[co.CN + f for f in ('configCommParams', 'handleUpdatePedersenH', 'handleServerRegister', 'initCoordinator')] + [sv.SN + f for f in ('handleServerRegisterReply', 'handleBroadcastPedersenH', 'initAnonServer')],
     goals=[contribution, agreement], replay=[('cmd/coordinator', 'c34_test.go', 'TestZV'), ('cmd/server', 'c34s_test.go', 'TestZV')])
