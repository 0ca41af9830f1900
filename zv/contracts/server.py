"""zRep/cmd/server"""
from registry import contract
from engine import terms as T
from engine.terms import *
from contracts import elgamal as eg, bridge as br, util as ut, shuffle as sh
SN = 'zRep/cmd/server.'
SV = SN + 'AnonServer'
PT = ut.PT
MPT = 'map[string]' + PT
GOT_SIGNS = 24
def me(c): return c.glob(SN + 'anonServer', '*' + SV)
def f(c, name): return c.f(me(c), SV, name)

blist, enc_list = br.blist, br.enc_list
def same_assignment(c, b):
    """encoding of the assignment decoded from b"""
    ok, a = br.drec(c, 'pbuf', br.ASG, b)
    dt = br.deeptype(c.E, br.ASG)
    return T.enc('pbuf:' + dt, T.rec(dt, *a.values()))
@contract(SN + 'handleSignAssignments')
def handleSignAssignments(c, pm, addr):
    """signs every assignment of the request, in order, iff the reputation proof verifies against the server's own copy of
    the commitment of the requester; otherwise reports failure and signs nothing"""
    pb, fb = f(c, 'PedersenBase'), f(c, 'FujiOkamBase')
    br.wf_ind(c, pb, fb)
    nym = T.unpb(c.param(pm, 'nym'))
    has, com = c.mget(MPT, f(c, 'EndingCommMap'), T.pstr(nym))
    src = f(c, 'LocalAddr')
    if not c.case(and_(has, br.ind_ok(c, pm, com, pb, fb))):
        c.sends(addr, GOT_SIGNS, src, success=('bool', FALSE))
        return c.rejects()
    c.may_stop()
    ok, n, raw = blist(c.param(pm, 'assignments'))
    rnd = c.randf('v')
    sigs = enc_list(n, lambda i: eg.signature(same_assignment(c, raw(i)), c.sv(f(c, 'PrivateKey')), GB, rnd(i)))
    c.sends(addr, GOT_SIGNS, src, success=('bool', TRUE), signatures=('[]byte', sigs), assignments=c.mget('map[string]interface{}', pm, S('assignments'))[1])
    c.ret()

# ---------------------------------------------------------------- shuffled lists
def key_of(b): return T.ite(T.pvalid(b), T.unpb(b), mk('gbad', (b,), 'G'))
def shuffle_checked(c, pm):
    """the transmitted proof is accepted for exactly the transmitted input lists, output lists and key"""
    from engine.intrinsics import tr_start
    ls = [ut.plist(c.param(pm, k)) for k in ('prev_keys', 'prev_vals', 'xbar', 'ybar')]
    k = ls[0][1]
    return and_(*[l[0] for l in ls], gt(k, ONE), *[eq(l[1], k) for l in ls[1:]],
                sh.pair_ok(tr_start(S('PairShuffle'), c.param(pm, 'proof')), GB, key_of(c.param(pm, 'public_key')), k, *[l[2] for l in ls]))
@contract(SN + 'verifyNeffShuffle')
def verifyNeffShuffle(c, pm):
    """returns only if the list was not shuffled or its shuffle proof is accepted"""
    if not c.case(c.has(pm, 'shuffled')): return c.ret()
    if not c.case(shuffle_checked(c, pm)): return c.stops()
    c.ret()
@contract(SN + 'neffShuffle')
def neffShuffle(c, X, Y, rand):
    """a random permutation of the pairs, each blinded under the server's own key; also returns the blinding parts"""
    c.requires(c.secure(rand), 'the secure random source')
    k = slen(X)
    c.requires(gt(k, ONE), 'at least two pairs'); c.requires(eq(slen(Y), k), 'as many first as second components')
    H = c.pv(f(c, 'PublicKey')); c.requires(neq(f(c, 'PublicKey'), NIL), 'the server has a key')
    s = c.permf(k); b = c.randf('b', k)
    P = lambda sl, i: c.pv(c.at(sl, s(i), PT))
    c.ret(c.newslice(PT, k, lambda i: c.newpoint(T.gmul(T.gexp(GB, b(s(i))), P(X, i)))), c.newslice(PT, k, lambda i: c.newpoint(T.gmul(T.gexp(H, b(s(i))), P(Y, i)))),
          c.newslice(PT, k, lambda i: c.newpoint(T.gexp(GB, b(s(i))))), c.newslice(PT, k, lambda i: c.newpoint(T.gexp(H, b(s(i))))), c.out('prover', 'Ref'))
ANNOUNCEMENT, ROUND_END = 8, 12
def shuffled_table(c, n, K, V, e):
    """parameters of a message that carries the pairs K(i), V(i) permuted, with the shuffle proof for the lists sent"""
    X = T.gexp(GB, c.sv(f(c, 'PrivateKey'))); H = c.pv(f(c, 'PublicKey'))
    s = c.permf(n); b = c.randf('b', n)
    enc = ut.enc_plist
    prover = c.out('prover', 'Ref'); coins = c.out('coins', 'Int')
    m = dict(keys=enc(n, lambda i: K(s(i))), vals=enc(n, lambda i: V(s(i))),
             prev_keys=enc(n, lambda i: X), prev_vals=enc(n, K),
             xbar=enc(n, lambda i: gmul(T.gexp(GB, b(s(i))), X)), ybar=enc(n, lambda i: gmul(T.gexp(H, b(s(i))), K(s(i)))),
             proof=T.uf('hashproof', 'Bytes', S('PairShuffle'), prover, coins), public_key=pb(H))
    return {k: ('[]byte', v) for k, v in m.items()}
def table_in(c, pm):
    """the table of a message: (well formed, n, keys, vals, GT, HT)"""
    ok1, n, key = ut.plist(c.param(pm, 'keys')); ok2, n2, val = ut.plist(c.param(pm, 'vals'))
    gt_, ht = c.param(pm, 'GT'), c.param(pm, 'HT')
    return and_(ok1, ok2, eq(n, n2), T.pvalid(gt_), T.pvalid(ht)), n, key, val, T.unpb(gt_), T.unpb(ht)
def has_key_pair(c):
    c.requires(neq(f(c, 'PublicKey'), NIL), 'the server has a key')
    c.requires(eq(c.pv(f(c, 'PublicKey')), T.gexp(GB, c.sv(f(c, 'PrivateKey')))), 'the public key belongs to the private key')
def announce_pre(c, pm):
    has_key_pair(c)
    c.requires(neq(f(c, 'KeyMap'), NIL), 'the server has a table')
    c.requires(neq(T.mod(c.sv(f(c, 'Roundkey')), Q), ZERO), 'the round key is not zero')
    ok, n, key, val, GT, HT = table_in(c, pm)
    c.requires(ok, 'a well formed table')
    c.requires(c.distinct(n, key), 'the pseudonyms are different')
    return n, key, val, GT, HT
@contract(SN + 'handleAnnouncement')
def handleAnnouncement(c, pm):
    """re-keys, re-randomises, remembers and shuffles the table"""
    n, key, val, GT, HT = announce_pre(c, pm)
    first = not c.case(c.has(pm, 'g'))
    if not first: c.requires(T.pvalid(c.param(pm, 'g')), 'a well formed base')
    if not first and c.case(c.has(pm, 'shuffled')):
        if not c.case(shuffle_checked(c, pm)): return c.stops()
    rk = c.sv(f(c, 'Roundkey')); e = c.random('e')
    K = lambda i: T.gexp(key(i), rk); V = lambda i: T.gexp(val(i), e)
    g = T.gexp(GB if first else T.unpb(c.param(pm, 'g')), rk)
    c.may_stop()
    old = c.freshf('old')
    c.family('PV', n, old, key)
    c.mfamily(MPT, f(c, 'KeyMap'), n, lambda i: T.pstr(K(i)), old)
    common = dict(g=('[]byte', pb(g)), GT=('[]byte', pb(T.gexp(GT, e))), HT=('[]byte', pb(T.gexp(HT, e))))
    if c.case(gt(n, ONE)): m = dict(shuffled_table(c, n, K, V, e), shuffled=('bool', TRUE))
    else: m = dict(keys=('[]byte', ut.enc_plist(n, K)), vals=('[]byte', ut.enc_plist(n, V)))
    c.sends(f(c, 'NextHop'), ANNOUNCEMENT, f(c, 'LocalAddr'), **common, **m)
    c.ret()
@contract(SN + 'handleRoundEnd')
def handleRoundEnd(c, pm):
    """maps the pseudonyms back, re-randomises and shuffles the table, then forgets round key and mapping"""
    has_key_pair(c)
    c.requires(neq(f(c, 'KeyMap'), NIL), 'the server has a table')
    ok, n, key, val, GT, HT = table_in(c, pm)
    c.requires(ok, 'a well formed table')
    km = f(c, 'KeyMap')
    orig = lambda i: c.mget(MPT, km, T.pstr(key(i)))
    c.requires(c.all(n, lambda i: and_(orig(i)[0], neq(orig(i)[1], NIL))), 'pseudonyms made by this server')
    K = lambda i: c.pv(orig(i)[1])
    c.requires(c.distinct(n, K), 'of different participants')
    if not c.case(c.has(pm, 'is_start')) and c.case(c.has(pm, 'shuffled')):
        if not c.case(shuffle_checked(c, pm)): return c.stops()
    e = c.random('e'); V = lambda i: T.gexp(val(i), e)
    c.may_stop()
    common = dict(GT=('[]byte', pb(T.gexp(GT, e))), HT=('[]byte', pb(T.gexp(HT, e))))
    if c.case(gt(n, ONE)): m = dict(shuffled_table(c, n, K, V, e), shuffled=('bool', TRUE))
    else: m = dict(keys=('[]byte', ut.enc_plist(n, K)), vals=('[]byte', ut.enc_plist(n, V)))
    c.sends(f(c, 'PreviousHop'), ROUND_END, f(c, 'LocalAddr'), **common, **m)
    c.setf(me(c), SV, 'Roundkey', c.newsecret(c.random('rk')))
    c.setf(me(c), SV, 'KeyMap', c.fresh('map'))
    c.ret()

# ---------------------------------------------------------------- registration
from contracts import fujiokam as fo
from contracts.fujiokam import FB
CLIENT_REGISTER_SERVERSIDE, UPDATE_PEDERSEN_H = 5, 18
def resolved(c, text):
    """the address a text denotes, as a new object"""
    r = c.fresh('addr')
    c.E.sp_store(c.st, 'AS', r, T.uf('canon', 'Str', text))
    return r
def resolvable(text): return T.uf('resolvable', 'Bool', text)
@contract(SN + 'handleClientRegisterServerSide')
def handleClientRegisterServerSide(c, pm):
    """blinds the key with the round key, passes it on and remembers the original"""
    b = c.param(pm, 'public_key')
    c.requires(neq(f(c, 'Roundkey'), NIL), 'the server has a round key'); c.requires(neq(f(c, 'KeyMap'), NIL), 'the server has a table')
    if not c.case(T.pvalid(b)): return c.stops()
    c.may_stop()
    k = T.unpb(b); nk = T.gexp(k, c.sv(f(c, 'Roundkey')))
    c.sends(f(c, 'NextHop'), CLIENT_REGISTER_SERVERSIDE, f(c, 'LocalAddr'), public_key=('[]byte', pb(nk)), addr=('string', c.param(pm, 'addr', 'string')),
            pcomm=('[]byte', c.param(pm, 'pcomm')))
    c.mset(MPT, f(c, 'KeyMap'), T.pstr(nk), c.newpoint(k))
    c.ret()
@contract(SN + 'handleUpdateNextHop')
def handleUpdateNextHop(c, pm):
    t = c.param(pm, 'next_hop', 'string')
    if not c.case(resolvable(t)): return c.stops()
    c.setf(me(c), SV, 'NextHop', resolved(c, t))
    c.ret()
@contract(SN + 'handleServerRegisterReply')
def handleServerRegisterReply(c, pm, addr):
    """keeps predecessor and public parameters, and returns the Pedersen generator raised to a secret power"""
    hb = c.param(pm, 'h')
    if c.case(c.has(pm, 'prev_server')):
        t = c.param(pm, 'prev_server', 'string')
        c.requires(resolvable(t), 'the coordinator sends addresses')
        c.setf(me(c), SV, 'PreviousHop', resolved(c, t))
    if c.case(c.param(pm, 'reply', 'bool')): c.setf(me(c), SV, 'IsConnected', TRUE)
    n = b2i(c.param(pm, 'n')); N = c.newbig(n)
    r = T.mul(I(2 ** 80), n)
    base = c.newstruct(FB, Suite=f(c, 'Suite'), N=N, RandomRadius=c.newbig(r), RandomDiameter=c.newbig(add(r, r)),
                       **{g: c.newstruct(fo.PT, V=b2i(c.param(pm, g.lower())), M=N) for g in fo.ALLG})
    c.setf(me(c), SV, 'FujiOkamBase', base)
    if not c.case(T.pvalid(hb)): return c.stops()
    c.may_stop()
    c.sends(addr, UPDATE_PEDERSEN_H, f(c, 'LocalAddr'), h=('[]byte', pb(T.gexp(T.unpb(hb), c.random('e')))))
    c.ret()

@contract(SN + 'handleBroadcastPedersenH')
def handleBroadcastPedersenH(c, pm):
    """takes over the generator of the coordinator; a malformed one stops"""
    b = c.param(pm, 'h'); p = f(c, 'PedersenBase'); PB_ = br.pd.PB
    c.requires(neq(p, NIL), 'the parameters are set')
    if not c.case(T.pvalid(b)): return c.stops()
    if c.case(neq(c.f(p, PB_, 'HT'), NIL)): br.pd.replace_point(c, p, PB_, 'HT', T.unpb(b))
    else: c.setf(p, PB_, 'HT', c.newpoint(T.unpb(b)))
    c.ret()

# ---------------------------------------------------------------- a new server
@contract(SN + 'initAnonServer')
def initAnonServer(c):
    """a fresh key pair, a fresh round key, the suite's generator as both bases, empty tables, the coordinator on both sides"""
    c.may_stop()
    a, k = c.random('a'), c.random('k')
    remote = c.fresh('addr'); c.E.sp_store(c.st, 'AS', remote, c.out('addr', 'Str'))
    suite = gobj('suite.QR512')
    pb = c.newstruct('zRep/primitive/pedersen.PedersenBase', Suite=suite, GT=c.newpoint(GB), HT=c.newpoint(GB))
    c.setglob(SN + 'config', 'map[string]string', c.out('config', 'Ref'))
    c.setglob(SN + 'anonServer', '*' + SV, c.newstruct(SV, CoordinatorAddr=remote, NextHop=remote, PreviousHop=remote, Suite=suite, PrivateKey=c.newsecret(a),
        PublicKey=c.newpoint(T.gexp(GB, a)), OnetimePseudoNym=c.newpoint(GZERO), Roundkey=c.newsecret(k), PedersenBase=pb,
        **{t: c.fresh(t) for t in ('EndingCommMap', 'EndingKeyMap', 'KeyMap')}))
    c.ret()

# ---------------------------------------------------------------- the table of the round
@contract(SN + 'handleAnnouncementFinalize')
def handleAnnouncementFinalize(c, pm):
    """the server's own table, bases and generator become those of the message, and nothing of the old table stays"""
    p = lambda k: c.param(pm, k)
    pbase = f(c, 'PedersenBase'); c.requires(neq(pbase, NIL), 'the parameters are set')
    ok1, n, key = ut.plist(p('keys')); ok2, m, val = ut.plist(p('vals'))
    if not c.case(and_(T.pvalid(p('g')), T.pvalid(p('GT')), T.pvalid(p('HT')), ok1, ok2, ge(m, n))): return c.stops()
    for x in ('GT', 'HT'): c.setf(pbase, 'zRep/primitive/pedersen.PedersenBase', x, c.newpoint(T.unpb(p(x))))
    kf, vf = c.freshf('key'), c.freshf('val')
    c.family('PV', n, kf, key); c.family('PV', n, vf, val)
    km, cm = c.fresh('km'), c.fresh('cm')
    c.setf(me(c), SV, 'EndingKeyMap', km); c.setf(me(c), SV, 'EndingCommMap', cm)
    c.mfamily(MPT, km, n, lambda i: T.pstr(key(i)), kf); c.mfamily(MPT, cm, n, lambda i: T.pstr(key(i)), vf)
    c.setf(me(c), SV, 'G', c.newpoint(T.unpb(p('g'))))
    c.ret()

@contract(SN + 'serverRegister')
def serverRegister(c):
    """the server sends its public key to the coordinator and changes nothing"""
    c.may_stop()
    c.requires(neq(f(c, 'PublicKey'), NIL), 'the server has a key')
    c.sends(f(c, 'CoordinatorAddr'), 1, f(c, 'LocalAddr'), public_key=('[]byte', T.pb(c.pv(f(c, 'PublicKey')))))
    c.ret()
