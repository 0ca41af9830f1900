from registry import prop
from engine.terms import *
from engine import terms as T
from engine.intrinsics import tcpstr
from contracts import coordinator as co, server as sv, client as cl, pedersen as pd, util as ut, fujiokam as fo
from contracts.fujiokam import FB
def coord(g, st):
    c = g.glob(st, co.CN + 'anonCoordinator', '*' + co.CO); v = g.view(st)
    f = lambda n: g.f(st, c, co.CO, n)
    g.assume(st, neq(f('PublicKey'), NIL)); g.assume(st, neq(f('G'), NIL)); g.assume(st, neq(f('PedersenBase'), NIL)); pd.wf(v, f('PedersenBase'))
    co.wf_addrs(v)
    co.fo_public(v, f('FujiOkamBase'))
    for n in ('N',): g.assume(st, ge0(g.bi(st, g.f(st, f('FujiOkamBase'), FB, n))))
    for n in fo.ALLG: g.assume(st, ge0(fo.V(v, g.f(st, f('FujiOkamBase'), FB, n))))
    return c
def server(g, st):
    s = g.glob(st, sv.SN + 'anonServer', '*' + sv.SV)
    for n in ('Roundkey', 'KeyMap', 'PublicKey'): g.assume(st, neq(g.f(st, s, sv.SV, n), NIL))
    return s
def text(g, st, a): return tcpstr(g.E, st, a)
def proper(g, st, a):
    """the text of an address denotes this address again"""
    t = text(g, st, a)
    g.assume(st, T.uf('resolvable', 'Bool', t)); g.assume(st, eq(T.uf('canon', 'Str', t), t))
    return t
def same_base(g, s, base, other):
    for n in ('N',): g.prove('same modulus', s, eq(g.bi(s, g.f(s, base, FB, n)), g.bi(s, g.f(s, other, FB, n))))
    v = g.view(s)
    for n in fo.ALLG: g.prove('same ' + n, s, eq(fo.V(v, g.f(s, base, FB, n)), fo.V(v, g.f(s, other, FB, n))))
    return True
def linked(g):
    """whatever the chain was, the newcomer and its predecessor point at each other, and the newcomer has the public parameters"""
    st = g.st; pm, addr = g.ref('register'), g.ref('addr')
    c = coord(g, st); me = server(g, st)
    g.assume(st, neq(addr, NIL)); g.assume(st, T.pvalid(g.view(st).param(pm, 'public_key')))
    l0 = g.f(st, c, co.CO, 'ServerList'); n0 = slen(l0)
    newcomer = proper(g, st, addr)
    for s, _ in g.call(co.CN + 'handleServerRegister', st, pm, addr):
        s = s.copy()
        l = g.f(s, c, co.CO, 'ServerList')
        g.prove('one more server', s, eq(slen(l), add(n0, ONE)))
        last = g.at(s, l, n0, co.SI)
        g.prove('at the end with its address', s, eq(g.vf(last, co.SI, 'Addr'), addr))
        g.prove('with its key', s, eq(g.pv(s, g.vf(last, co.SI, 'PublicKey')), T.unpb(g.view(st).param(pm, 'public_key'))))
        i = g.any('i', 'Int'); s2 = s.copy(); s2.assume(ge0(i)); s2.assume(lt(i, n0))
        g.prove('the others stay', s2, eq(g.at(s2, l, i, co.SI), g.at(st, l0, i, co.SI)))
        ms = g.sent(s)
        empty = all(et is not I(co.UPDATE_NEXT_HOP) for _d, et, _p, _s in ms)
        if empty: g.prove('no predecessor to tell', s, eq(n0, ZERO)); prev = g.f(st, c, co.CO, 'LocalAddr')
        else: prev = g.vf(g.at(st, l0, sub(n0, ONE), co.SI), co.SI, 'Addr')
        pt = proper(g, s, prev)
        if len(ms) != (1 if empty else 2): g.fail('one message each'); continue
        for d, et, m, src in ms:
            r = g.deliver(s, m)
            if et is I(co.UPDATE_NEXT_HOP):
                g.prove('to the former last server', s, eq(d, pt))
                for q, _ in g.call(sv.SN + 'handleUpdateNextHop', s, r): g.prove('its next hop is the newcomer', q, eq(text(g, q, g.f(q, me, sv.SV, 'NextHop')), newcomer))
            else:
                g.prove('to the newcomer', s, eq(d, newcomer))
                for q, _ in g.call(sv.SN + 'handleServerRegisterReply', s, r, addr):
                    g.prove('its previous hop is the former end of the chain', q, eq(text(g, q, g.f(q, me, sv.SV, 'PreviousHop')), pt))
                    g.prove('connected', q, g.f(q, me, sv.SV, 'IsConnected'))
                    same_base(g, q, g.f(q, me, sv.SV, 'FujiOkamBase'), g.f(s, c, co.CO, 'FujiOkamBase'))
def starting_credit(g):
    """the client's randomness opens the commitment that enters the chain, to the starting credit"""
    st = g.st; pm, addr = g.ref('register'), g.ref('addr'); cln = g.ref('client')
    c = coord(g, st); v = g.view(st)
    g.assume(st, neq(addr, NIL)); g.assume(st, T.pvalid(v.param(pm, 'public_key')))
    g.assume(st, neq(g.f(st, cln, cl.DC, 'PrivateKey'), NIL))
    GT, HT = pd.gh(v, g.f(st, c, co.CO, 'PedersenBase'))
    for s, _ in g.call(co.CN + 'handleClientRegisterControllerSide', st, pm, addr):
        ms = g.sent(s)
        if len(ms) != 2: g.fail('two messages'); continue
        by = {et: (d, m) for d, et, m, src in ms}
        d, m = by[I(co.CLIENT_REGISTER_SERVERSIDE)]
        com = T.unbox('[]byte', m['pcomm'], 'Bytes') if m['pcomm'].op != 'iface' else m['pcomm'].args[1]
        l = g.f(st, c, co.CO, 'ServerList'); s1 = s.copy(); s1.assume(gt(slen(l), ZERO))
        g.prove('to the first server', s1, eq(d, text(g, st, g.vf(g.at(st, l, ZERO, co.SI), co.SI, 'Addr'))))
        d, m2 = by[I(co.INIT_PEDERSEN_R)]
        g.prove('to the client', s, eq(d, text(g, st, addr)))
        r = g.deliver(s, m2)
        for q, _ in g.call(cl.CL + 'handleInitPedersenR', s, r, cln):
            g.prove('opens to the starting credit', q, eq(T.unpb(com), pd.val(GT, HT, I(5), g.sv(q, g.f(q, cln, cl.DC, 'R')))))
            g.prove('same generator', q, eq(g.pv(q, g.f(q, cln, cl.DC, 'G')), g.pv(st, g.f(st, c, co.CO, 'G'))))
def once(g):
    """an address is recorded under one key only"""
    st = g.st; co_, key, addr = g.ref('coordinator'), g.ref('key'), g.ref('addr')
    g.assume(st, neq(key, NIL)); g.assume(st, neq(addr, NIL))
    m = g.f(st, co_, co.CO, 'Clients')
    k1, k2 = g.any('k1', 'Str'), g.any('k2', 'Str')
    get = lambda s, k: g.mget(s, co.MADDR, m, k)
    t = text(g, st, addr)
    w = freshvar('k', 'Str'); u = freshvar('k', 'Str')
    a, b = get(st, w), get(st, u)
    g.assume(st, neq(m, NIL))
    g.assume(st, forall(w, forall(u, or_(not_(a[0]), not_(b[0]), neq(text(g, st, a[1]), text(g, st, b[1])), eq(w, u)))))
    for s, _ in g.call(co.M + 'AddClient', st, co_, key, addr):
        s = s.copy()
        own = T.pstr(g.pv(st, key))
        g.prove('recorded', s, and_(get(s, own)[0], eq(get(s, own)[1], addr)))
        has, v = get(s, k1)
        s.assume(has); s.assume(eq(text(g, s, v), t))
        g.prove('under this key only', s, eq(k1, own))
REG = [co.CN + 'handleServerRegister', co.CN + 'handleClientRegisterControllerSide', co.CN + 'handleClientRegisterServerSide', co.M + 'AddClient', co.M + 'AddServer',
       co.M + 'GetFirstServerAddr', co.M + 'GetLastServerAddr', sv.SN + 'handleClientRegisterServerSide', sv.SN + 'handleServerRegisterReply', sv.SN + 'handleUpdateNextHop', sv.SN + 'serverRegister', cl.CL + 'register']
prop('C33', contracts=REG, goals=[linked, starting_credit, once], replay=[('cmd/coordinator', 'c33_test.go', 'TestZV'), ('cmd/server', 'c33s_test.go', 'TestZV'),
     ('cmd/client', 'c33r_test.go', 'TestZV'), ('cmd/server', 'c33t_test.go', 'TestZV')])
