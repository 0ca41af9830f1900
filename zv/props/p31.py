from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import client as cl, coordinator as co, server as sv, bridge as br, fujiokam as fo, pedersen as pd, elgamal as eg
PB, FB = pd.PB, fo.FB
def same_round(g, st, c, other, t):
    """the other node holds the same generator, bases and commitment of the client"""
    fc = lambda n: g.f(st, c, cl.DC, n)
    fo_ = lambda n: g.f(st, other, t, n)
    for n in ('GT', 'HT'):
        a, b = g.f(st, fo_('PedersenBase'), PB, n), g.f(st, fc('PedersenBase'), PB, n)
        g.assume(st, neq(a, NIL)); g.assume(st, eq(g.pv(st, a), g.pv(st, b)))
    a, b = g.f(st, fo_('FujiOkamBase'), FB, 'N'), g.f(st, fc('FujiOkamBase'), FB, 'N')
    g.assume(st, neq(a, NIL)); g.assume(st, eq(g.bi(st, a), g.bi(st, b)))
    for n in fo.ALLG:
        a, b = g.f(st, fo_('FujiOkamBase'), FB, n), g.f(st, fc('FujiOkamBase'), FB, n)
        g.assume(st, neq(a, NIL)); g.assume(st, eq(g.bi(st, fld(a, 'V')), g.bi(st, fld(b, 'V'))))
def client_state(g, st):
    """a client in a round: it knows the opening of its commitment"""
    c = g.glob(st, cl.CL + 'dissentClient', '*' + cl.DC); v = g.view(st)
    pb, fb = g.f(st, c, cl.DC, 'PedersenBase'), g.f(st, c, cl.DC, 'FujiOkamBase')
    pd.wf(v, pb); fo.wf(v, fb); fo.wf_rad(v, fb)
    G, n = g.f(st, c, cl.DC, 'G'), g.f(st, c, cl.DC, 'OnetimePseudoNym')
    for r in (G, n, g.f(st, c, cl.DC, 'PCommr')): g.assume(st, neq(r, NIL))
    g.assume(st, neq(g.pv(st, G), GZERO))
    g.assume(st, eq(g.pv(st, n), gexp(g.pv(st, G), g.sv(st, g.f(st, c, cl.DC, 'PrivateKey')))))
    g.assume(st, eq(g.pv(st, g.f(st, c, cl.DC, 'PCommr')), pd.val(*pd.gh(v, pb), g.f(st, c, cl.DC, 'Reputation'), g.sv(st, g.f(st, c, cl.DC, 'R')))))
    return c, n
def request(g, what):
    """what(state, client, pseudonym, parameters, indicator) for every request the client sends"""
    st = g.st
    c, n = client_state(g, st)
    ind = g.any('ind', 'Int'); rep = g.f(st, c, cl.DC, 'Reputation')
    g.assume(st, lt(sub(rep, ind), I(2 ** 49)))
    g.inline(cl.CL + 'requestBridges')
    for s1, _ in g.call(cl.CL + 'requestBridges', st, ind):
        ms = g.sent(s1)
        if not ms:
            g.prove('silent only above the reputation', s1, gt(ind, rep)); continue
        g.prove('never above the reputation', s1, ge(rep, ind))
        if len(ms) != 1: g.fail('one message'); continue
        dst, et, pm, src = ms[0]
        g.prove('is a request for bridges', s1, eq(et, I(cl.REQUEST_BRIDGES)))
        what(s1, c, n, pm, ind)
FWD = ('nym', 'ind', 'FOCommd', 'PCommd', 'PCommind', 'rind', 'arg_nonneg', 'arg_equal')
def holder(g, s, c, n, o, t):
    """o recorded the client's own commitment under its pseudonym"""
    same_round(g, s, c, o, t)
    has, com = g.mget(s, co.MPT, g.f(s, o, t, 'EndingCommMap'), T.pstr(g.pv(s, n)))
    g.assume(s, has); g.assume(s, neq(com, NIL)); g.assume(s, eq(g.pv(s, com), g.pv(s, g.f(s, c, cl.DC, 'PCommr'))))
    return com
def proof_ok(g, s, m, com, o, t):
    v = g.view(s)
    pb, fb = g.f(s, o, t, 'PedersenBase'), g.f(s, o, t, 'FujiOkamBase')
    ok = br.ind_ok(v, m, com, pb, fb)
    for j, x in enumerate(ok.args if ok.op == 'and' else [ok]): g.prove('condition %d of the proof' % j, s, x)
    for o in g.call_all(br.B_ + 'VerifyInd', s, m, com, pd.SUITE, pb, fb):
        g.prove('the proof is accepted', o.st, o.vals[0] if o.kind == 'ret' else FALSE)
def client_request_passes_the_coordinator(g):
    """the coordinator holding the same tables does not refuse the request"""
    def what(s1, c, n, pm, ind):
        s = s1.copy()
        m = g.deliver(s, pm)
        k = g.glob(s, co.CN + 'anonCoordinator', '*' + co.CO)
        com = holder(g, s, c, n, k, co.CO)
        kG = g.f(s, k, co.CO, 'G'); g.assume(s, neq(kG, NIL)); g.assume(s, eq(g.pv(s, kG), g.pv(s, g.f(s, c, cl.DC, 'G'))))
        v = g.view(s)
        g.prove('pseudonym', s, and_(T.pvalid(v.param(m, 'nym')), eq(T.unpb(v.param(m, 'nym')), g.pv(s, n))))
        g.prove('indicator', s, eq(v.param(m, 'ind', 'int'), ind))
        g.prove('signature', s, eg.accepts(br.msg_request(v, m), g.pv(s, n), v.param(m, 'signature'), g.pv(s, kG)))
        proof_ok(g, s, m, com, k, co.CO)
    request(g, what)
def client_request_passes_every_server(g):
    """a server holding the same tables accepts the proof of the request as the coordinator forwards it"""
    def what(s1, c, n, pm, ind):
        s = s1.copy()
        m = g.deliver(s, {k: x for k, x in pm.items() if k in FWD})
        k = g.glob(s, sv.SN + 'anonServer', '*' + sv.SV)
        com = holder(g, s, c, n, k, sv.SV)
        g.prove('pseudonym', s, eq(T.unpb(g.view(s).param(m, 'nym')), g.pv(s, n)))
        proof_ok(g, s, m, com, k, sv.SV)
    request(g, what)
prop('C31', contracts=[br.B_ + 'VerifyInd'], goals=[client_request_passes_the_coordinator, client_request_passes_every_server], replay=[('cmd/client', 'c31_test.go', 'TestZV')])
