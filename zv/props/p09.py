from registry import prop
from engine.terms import *
from engine import terms as T
from engine.intrinsics import safeprime
from contracts import coordinator as co, server as sv, client as cl, fujiokam as fo
from contracts.fujiokam import FB
from props.p33 import coord, server, text, same_base

def setup(g):
    """what a new base looks like"""
    st = g.st; suite = gobj('suite.QR512')
    for s, (b,) in g.call(fo.PKG + 'CreateBaseFromSuite', st, suite):
        v = g.view(s); f = lambda n: v.bi(v.f(b, FB, n)); N = f('N')
        p, q = add(f('P'), f('P'), ONE), add(f('Q'), f('Q'), ONE)
        g.prove('p is a generated safe prime', s, safeprime(p)); g.prove('q is a generated safe prime', s, safeprime(q))
        g.prove('modulus', s, eq(N, mul(p, q)))
        h = fo.gen(v, b, 'H1')
        root = [x for x in T.subterms(h) if x.op == 'sym' and x.args[0].startswith('randint:')]
        if len(root) != 1: g.fail('a random root')
        else: g.prove('h1 is a square', s, eq(h, T.mod(mul(root[0], root[0]), N)))
        for i in range(1, 7): g.prove('g%d' % i, s, eq(fo.gen(v, b, 'G%d' % i), T.modexp(h, f('alpha%d' % i), N)))
        g.prove('radius', s, eq(f('RandomRadius'), mul(I(2 ** 80), N))); g.prove('diameter', s, eq(f('RandomDiameter'), mul(I(2), f('RandomRadius'))))
def rebuilt(g, s, base, other):
    same_base(g, s, base, other)
    v = g.view(s)
    g.prove('same radius', s, eq(v.bi(v.f(base, FB, 'RandomRadius')), mul(I(2 ** 80), fo.N(v, other))))
    for n in fo.ALLG: g.prove('modulus of ' + n, s, eq(fo.Mod(v, v.f(base, FB, n)), fo.N(v, other)))
def to_server(g):
    st = g.st; pm, addr, ca = g.ref('register'), g.ref('addr'), g.ref('coordinator_addr')
    c = coord(g, st); me = server(g, st)
    g.assume(st, neq(addr, NIL)); g.assume(st, T.pvalid(g.view(st).param(pm, 'public_key')))
    for s, _ in g.call(co.CN + 'handleServerRegister', st, pm, addr):
        for d, et, m, src in g.sent(s):
            if et is I(co.UPDATE_NEXT_HOP): continue
            s = s.copy(); g.assume(s, neq(ca, NIL)); r = g.deliver(s, m)
            if 'prev_server' in m:
                t = T.unbox('string', m['prev_server'], 'Str')
                g.assume(s, T.uf('resolvable', 'Bool', t))
            for q, _ in g.call(sv.SN + 'handleServerRegisterReply', s, r, ca): rebuilt(g, q, g.f(q, me, sv.SV, 'FujiOkamBase'), g.f(s, c, co.CO, 'FujiOkamBase'))
def to_client(g):
    st = g.st; pm, ca, cln = g.ref('register'), g.ref('coordinator_addr'), g.ref('client')
    c = coord(g, st)
    g.assume(st, T.pvalid(g.view(st).param(pm, 'public_key')))
    g.assume(st, neq(g.f(st, cln, cl.DC, 'ControllerPublicKey'), NIL))
    for s, _ in g.call(co.CN + 'handleClientRegisterServerSide', st, pm):
        for d, et, m, src in g.sent(s):
            s = s.copy(); r = g.deliver(s, m)
            for q, _ in g.call(cl.CL + 'handleRegisterConfirmation', s, r, cln):
                rebuilt(g, q, g.f(q, cln, cl.DC, 'FujiOkamBase'), g.f(s, c, co.CO, 'FujiOkamBase'))
                g.prove('the key of the coordinator', q, eq(g.pv(q, g.f(q, cln, cl.DC, 'ControllerPublicKey')), g.pv(s, g.f(s, c, co.CO, 'PublicKey'))))
                v = g.view(q); a, b = g.f(q, cln, cl.DC, 'AllGnHonestyProofPublic'), g.f(q, c, co.CO, 'AllGnHonestyProofPublic')
                g.prove('as many public values', q, eq(slen(a), slen(b)))
                i = g.any('i', 'Int'); q = q.copy(); q.assume(ge0(i)); q.assume(lt(i, slen(b)))
                g.prove('the public values', q, eq(v.bi(v.at(a, i, fo.BIGT)), v.bi(v.at(b, i, fo.BIGT))))
SETUP = [fo.PKG + n for n in ('genSafePrime512', 'CreateMinimumBase', 'CreateBaseFromSuite')] + [fo.M + n for n in ('genH', 'genGn', 'genRandomSecret')]
TRANSFER = [co.CN + n for n in ('initCoordinator', 'handleServerRegister', 'handleClientRegisterServerSide')] + [sv.SN + 'handleServerRegisterReply', cl.CL + 'handleRegisterConfirmation']
prop('C09', contracts=SETUP + TRANSFER, goals=[setup, to_server, to_client], replay=[('primitive/fujiokam', 'c09_test.go', 'TestZV'), ('cmd/client', 'c09k_test.go', 'TestZV'), ('cmd/coordinator', 'c33_test.go', 'TestZV'), ('cmd/server', 'c33s_test.go', 'TestZV')],
     trusted=['openssl: "prime -safe -generate -bits 512" prints a 512-bit safe prime', 'number theory: a number coprime to both prime factors is invertible modulo their product'])
