"""zRep/cmd/coordinator"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.intrinsics import tcpstr
from contracts import elgamal as eg, bridge as br, util as ut
CN = 'zRep/cmd/coordinator.'
CO = CN + 'Coordinator'
M = '(*' + CO + ').'
blist, enc_list = br.blist, br.enc_list
BI = CN + 'BridgeInfo'; AS = CN + 'AssignmentSignatures'; SI = CN + 'ServerInfo'
MPT = 'map[string]github.com/dedis/crypto/abstract.Point'; MADDR = 'map[string]*net.TCPAddr'
def ADT(c): return 'pbuf:' + br.deeptype(c.E, br.ASG)
MBR = 'map[string]' + BI; MAS = 'map[string]' + AS
def me(c): return c.glob(CN + 'anonCoordinator', '*' + CO)
def f(c, name): return c.f(me(c), CO, name)
def G_ok(c, g):
    c.requires(or_(eq(g, NIL), neq(c.pv(g), GZERO)), 'the round generator is a group element')

@contract(M + 'SignMessage')
def SignMessage(c, co, msg):
    """signature with a fresh one-time secret under the suite's generator"""
    v = c.random()
    C = eg.elhash(msg, gexp(GB, v))
    c.ret(cat(T.sb(C), T.sb(T.mod(sub(v, mul(c.sv(c.f(co, CO, 'PrivateKey')), C)), Q))))

@contract(CN + 'handlePostBridge')
def handlePostBridge(c, pm, addr):
    """the bridge is recorded, unused, under the posting pseudonym iff the signature over address and pseudonym verifies
    with the round generator; nothing else changes"""
    b = c.param(pm, 'nym'); g = f(c, 'G')
    c.may_stop()
    if not c.case(T.pvalid(b)): return c.stops()
    G_ok(c, g)
    if c.case(eg.accepts(br.msg_post(c, pm), T.unpb(b), c.param(pm, 'signature'), eg.base_of(c, g))):
        c.mset(MBR, f(c, 'Bridges'), c.param(pm, 'bridge_addr', 'string'), c.struct(BI, Nym=c.newpoint(T.unpb(b)), Used=FALSE))
    c.ret()

# ---------------------------------------------------------------- handing out bridges
BRG = 'zRep/cmd/bridge.Bridge'
def all_keys(c, mt, m, fn, after=False):
    """fn(key, value) for every entry of a map"""
    E = c.E; st = c.st if after else c.pre_st
    k = freshvar('key', 'Str')
    ok, v, et = E.mapget(st, mt, m, k)
    return forall(k, or_(not_(ok), fn(k, v)))
def used(c, v): return c.vf(v, BI, 'Used')
@contract(M + 'GetBridge')
def GetBridge(c, co):
    """some unused bridge, which becomes used; nil only if there is none"""
    m = c.f(co, CO, 'Bridges')
    if c.case(all_keys(c, MBR, m, lambda k, v: used(c, v))): return c.ret(NIL)
    a = c.out('addr', 'Str')
    ok, v = c.mget(MBR, m, a)
    c.know(ok); c.know(not_(used(c, v)))
    ok, v = c.mget(MBR, m, a)
    nym = c.vf(v, BI, 'Nym')
    c.mset(MBR, m, a, c.struct(BI, Nym=nym, Used=TRUE))
    c.ret(c.newstruct(BRG, Addr=a, Nym=nym))

def handed_out(c, co, num):
    """K <= num bridges addr(0..K-1) that were recorded and unused, all different, are handed out: they become used, all
    other entries stay; if K < num no unused bridge is left.  Returns K, addr, nym"""
    m = c.f(co, CO, 'Bridges')
    K = c.out('n', 'Int', nonneg=True); addr = c.outf('addr', 'Str')
    c.assume(ge(num, K))
    val = lambda i: c.mget(MBR, m, addr(i))
    nym = lambda i: c.vf(val(i)[1], BI, 'Nym')
    c.assume(c.all(K, lambda i: and_(val(i)[0], not_(used(c, val(i)[1])), c.all(i, lambda x: neq(addr(x), addr(i))))))
    w = freshvar('w', 'Int')
    n, h = c.E.mheaps(c.st, MBR)[2:4]
    c.st.heaps[n] = hfam(h, K, lam(w, pair(m, addr(w))), lam(w, c.struct(BI, Nym=nym(w), Used=TRUE)), lam(w, TRUE))
    c.assume(or_(eq(K, num), all_keys(c, MBR, m, lambda k, v: used(c, v), after=True)))
    return K, addr, nym
@contract(M + 'GetBridges')
def GetBridges(c, co, num):
    """at most num bridges, recorded and unused before and all different, which become used"""
    if c.case(ge(ZERO, num)): return c.ret(c.newslice(BRG, ZERO, lambda i: c.struct(BRG)))
    K, addr, nym = handed_out(c, co, num)
    c.ret(c.newslice(BRG, K, lambda i: c.struct(BRG, Addr=addr(i), Nym=nym(i))))
@contract(M + 'AssignBridges')
def AssignBridges(c, co, num, nymR):
    """the bridges handed out, each assigned to the requester"""
    if c.case(ge(ZERO, num)): return c.ret(c.newslice(br.ASG, ZERO, lambda i: c.struct(br.ASG)))
    K, addr, nym = handed_out(c, co, num)
    c.ret(c.newslice(br.ASG, K, lambda i: c.struct(br.ASG, NymR=nymR, Addr=addr(i), Nym=nym(i))))

# ---------------------------------------------------------------- votes
PT = ut.PT
MINT = 'map[string]int'
def server_key(c, i): return c.pv(c.vf(c.at(f(c, 'ServerList'), i, SI), SI, 'PublicKey'))
def wf_keys(c):
    """keys of registered servers, participants and the coordinator are present"""
    c.requires(neq(f(c, 'PublicKey'), NIL), 'the coordinator has a key')
    c.requires(c.all(slen(f(c, 'ServerList')), lambda i: neq(c.vf(c.at(f(c, 'ServerList'), i, SI), SI, 'PublicKey'), NIL)), 'registered servers have keys')
    c.requires(c.all(slen(f(c, 'AllClientsPublicKeys')), lambda i: neq(c.at(f(c, 'AllClientsPublicKeys'), i, PT), NIL)), 'participants have keys')
def vote_ok(c, pm):
    """accepted, provider, feedback"""
    nb = c.param(pm, 'nym'); ab = c.param(pm, 'assignment'); fb = c.param(pm, 'feedback', 'int')
    keys = f(c, 'AllClientsPublicKeys'); n = slen(f(c, 'ServerList')); g = f(c, 'G')
    K = T.unpb(nb)
    ok1, ns, sig = blist(c.param(pm, 'signatures'))
    ok2, a = br.drec(c, 'pbuf', br.ASG, ab)
    return and_(T.pvalid(nb), not_(c.all(slen(keys), lambda i: neq(K, c.pv(c.at(keys, i, PT))))),
                eg.accepts(br.msg_vote(c, pm), K, c.param(pm, 'signature'), eg.base_of(c, g)), ok1, ok2,
                c.all(n, lambda i: eg.accepts(ab, server_key(c, i), sig(i), GB)), eg.accepts(ab, c.pv(f(c, 'PublicKey')), sig(n), GB),
                or_(eq(fb, ONE), eq(fb, I(-1)))), a['Nym'], fb
@contract(CN + 'handleVote')
def handleVote(c, pm, addr):
    """the feedback is added to the score of the provider in the assignment iff the voter participates, signed the whole
    vote, the assignment carries the signatures of all servers and of the coordinator, and the feedback is 1 or -1"""
    G_ok(c, f(c, 'G')); wf_keys(c)
    ok, prov, fb = vote_ok(c, pm)
    c.may_stop()
    if not c.case(ok): return c.rejects()
    m = f(c, 'ReputationDiffMap')
    has, old = c.mget(MINT, m, T.pstr(prov))
    c.mset(MINT, m, T.pstr(prov), add(ite(has, old, ZERO), fb))
    c.ret()

# ---------------------------------------------------------------- requests for bridges
SIGN_ASSIGNMENTS, GOT_SIGNS = 23, 24
@contract(CN + 'handleRequestBridges')
def handleRequestBridges(c, pm, addr):
    """only a signed request with a valid reputation proof is answered: the requester is recorded, bridges are assigned to
    it, the coordinator's signatures on the assignments are logged at the last position, and every server gets exactly the
    assignments together with the proof"""
    g, pb, fb = f(c, 'G'), f(c, 'PedersenBase'), f(c, 'FujiOkamBase')
    G_ok(c, g); br.wf_ind(c, pb, fb)
    nb = c.param(pm, 'nym'); nym = T.unpb(nb); ind = c.param(pm, 'ind', 'int')
    has, com = c.mget('map[string]' + PT, f(c, 'EndingCommMap'), T.pstr(nym))
    ok = and_(T.pvalid(nb), eg.accepts(br.msg_request(c, pm), nym, c.param(pm, 'signature'), eg.base_of(c, g)), has, br.ind_ok(c, pm, com, pb, fb))
    c.may_stop()
    if not c.case(ok): return c.rejects()
    c.mset(MADDR, f(c, 'RequesterAddrs'), T.pstr(nym), addr)
    if c.case(ge(ZERO, ind)): return c.ret()
    K, baddr, bnym = handed_out(c, me(c), ind)
    nymb = lambda i: T.enc(ADT(c), T.rec(ADT(c)[5:], nym, baddr(i), c.pv(bnym(i))))
    n = slen(f(c, 'ServerList')); x = c.sv(f(c, 'PrivateKey'))
    rnd = c.randf('v', K)
    # the log
    log = f(c, 'AssignmentSignaturesLog')
    sl = c.freshf('sigs')
    c.family('M:[]byte', K, lambda i: elem(sl(i), n), lambda i: eg.signature(nymb(i), x, GB, rnd(i)))
    c.mfamily(MAS, log, K, baddr, lambda i: c.struct(AS, Signatures=slice_(sl(i), ZERO, add(n, ONE)), Count=ONE))
    # the servers
    by = lambda k: ('[]byte', c.param(pm, k))
    c.sends_all(n, lambda j: c.vf(c.at(f(c, 'ServerList'), j, SI), SI, 'Addr'), SIGN_ASSIGNMENTS, f(c, 'LocalAddr'), when=not_(eq(K, ZERO)),
                assignments=('[]byte', enc_list(K, nymb)), ind=('int', ind), **{k: by(k) for k in ('nym', 'FOCommd', 'PCommd', 'PCommind', 'rind', 'arg_nonneg', 'arg_equal')})
    c.ret()

# ---------------------------------------------------------------- collecting the signatures on an assignment
from engine.intrinsics import ipeq
TCP = 'net.TCPAddr'
def log_entry(c, co, k):
    """(recorded, signature list, number counted) of an assignment"""
    has, v = c.mget(MAS, c.f(co, CO, 'AssignmentSignaturesLog'), k)
    return has, ite(has, c.vf(v, AS, 'Signatures'), T.NILSLICE), ite(has, c.vf(v, AS, 'Count'), ZERO)
@contract(M + 'InitAssignmentSignatures')
def InitAssignmentSignatures(c, co, k):
    """an entry with an empty position for every server and for the coordinator"""
    c.requires(eq(co, me(c)), 'the only coordinator of the process')
    n = slen(c.f(co, CO, 'ServerList'))
    c.mset(MAS, c.f(co, CO, 'AssignmentSignaturesLog'), k, c.struct(AS, Signatures=slice_(c.fresh('positions'), ZERO, add(n, ONE)), Count=ZERO))
    c.ret()
@contract(M + 'AddAssignmentSignature')
def AddAssignmentSignature(c, co, k, i, sig):
    """fills and counts the position i iff it was empty and the signature is not"""
    has, l, n = log_entry(c, co, k)
    if not c.case(neq(blen(sig), ZERO)): return c.ret()
    if not c.case(and_(ge0(i), lt(i, slen(l)))): return c.stops()
    if not c.case(eq(blen(c.at(l, i, '[]byte')), ZERO)): return c.ret()
    c.setat(l, i, '[]byte', sig)
    c.mset(MAS, c.f(co, CO, 'AssignmentSignaturesLog'), k, c.struct(AS, Signatures=l, Count=add(n, ONE)))
    c.ret()
@contract(M + 'FinishCollectingAssignmentSignatures')
def FinishCollectingAssignmentSignatures(c, co, k):
    """as many positions counted as there are servers, and one"""
    c.ret(eq(log_entry(c, co, k)[2], add(slen(c.f(co, CO, 'ServerList')), ONE)))
@contract(M + 'GetAssignmentSignatures')
def GetAssignmentSignatures(c, co, k):
    c.ret(log_entry(c, co, k)[1])
@contract(M + 'GetServerIndex')
def GetServerIndex(c, co, addr):
    """position of the first server with this address, -1 if there is none"""
    l = c.f(co, CO, 'ServerList'); n = slen(l)
    a = lambda i: c.vf(c.at(l, i, SI), SI, 'Addr')
    c.requires(neq(addr, NIL), 'the sender has an address')
    c.requires(c.all(n, lambda i: neq(a(i), NIL)), 'registered servers have addresses')
    i = c.first(n, lambda i: and_(ipeq(c.f(a(i), TCP, 'IP'), c.f(addr, TCP, 'IP')), eq(c.f(a(i), TCP, 'Port'), c.f(addr, TCP, 'Port'))))
    if c.case(lt(i, n)): return c.ret(i)
    c.ret(I(-1))

# ---------------------------------------------------------------- registration
from contracts import fujiokam as fo
from contracts.fujiokam import FB
SERVER_REGISTER_REPLY, UPDATE_NEXT_HOP, CLIENT_REGISTER_SERVERSIDE, CLIENT_REGISTER_CONFIRMATION, INIT_PEDERSEN_R = 2, 3, 5, 6, 20
CT = CN + 'ClientTuple'
STARTING_CREDIT = 5
def server_addr(c, i): return c.vf(c.at(f(c, 'ServerList'), i, SI), SI, 'Addr')
def wf_addrs(c):
    c.requires(c.all(slen(f(c, 'ServerList')), lambda i: neq(server_addr(c, i), NIL)), 'registered servers have addresses')
def key_in(b): return ite(T.pvalid(b), T.unpb(b), mk('gbad', (b,), 'G'))
def fo_public(c, base):
    """the public part of the base on the wire: modulus and generators"""
    c.requires(neq(base, NIL), 'the parameters are set'); c.requires(neq(c.f(base, FB, 'N'), NIL), 'modulus set')
    for n in fo.ALLG: c.requires(neq(c.f(base, FB, n), NIL), n + ' set')
    return dict(n=('[]byte', i2b(c.bi(c.f(base, FB, 'N')))), **{n.lower(): ('[]byte', i2b(fo.V(c, c.f(base, FB, n)))) for n in fo.ALLG})
@contract(M + 'GetLastServerAddr')
def GetLastServerAddr(c, co):
    l = c.f(co, CO, 'ServerList'); n = slen(l)
    if c.case(eq(n, ZERO)): return c.ret(NIL)
    c.ret(c.vf(c.at(l, sub(n, ONE), SI), SI, 'Addr'))
@contract(M + 'GetFirstServerAddr')
def GetFirstServerAddr(c, co):
    l = c.f(co, CO, 'ServerList')
    if c.case(eq(slen(l), ZERO)): return c.ret(NIL)
    c.ret(c.vf(c.at(l, ZERO, SI), SI, 'Addr'))
@contract(M + 'AddServer')
def AddServer(c, co, addr, key):
    c.setf(co, CO, 'ServerList', c.append(SI, c.f(co, CO, 'ServerList'), c.struct(SI, Addr=addr, PublicKey=key)))
    c.ret()
@contract(CN + 'handleServerRegister')
def handleServerRegister(c, pm, addr):
    """the newcomer becomes the end of the chain, learns its predecessor and the public parameters; the former last server
    learns its successor"""
    b = c.param(pm, 'public_key')
    c.requires(T.pvalid(b), 'a well formed key'); c.requires(neq(addr, NIL), 'the sender has an address')
    wf_addrs(c)
    src = f(c, 'LocalAddr'); l = f(c, 'ServerList'); n = slen(l)
    pb_ = f(c, 'PedersenBase')
    c.requires(neq(pb_, NIL), 'the parameters are set'); c.requires(neq(c.f(pb_, br.pd.PB, 'HT'), NIL), 'the parameters are set')
    par = fo_public(c, f(c, 'FujiOkamBase'))
    c.may_stop()
    txt = lambda a: tcpstr(c.E, c.pre_st, a)
    if c.case(eq(n, ZERO)): prev = src
    else:
        prev = server_addr(c, sub(n, ONE))
        c.sends(prev, UPDATE_NEXT_HOP, src, reply=('bool', TRUE), next_hop=('string', txt(addr)))
    c.sends(addr, SERVER_REGISTER_REPLY, src, reply=('bool', TRUE), prev_server=('string', txt(prev)), h=('[]byte', pb(c.pv(c.f(pb_, br.pd.PB, 'HT')))), **par)
    c.setf(me(c), CO, 'ServerList', c.append(SI, l, c.struct(SI, Addr=addr, PublicKey=c.newpoint(T.unpb(b)))))
    c.ret()
def forget(c, m, addr):
    """the first entry with the text of this address goes"""
    txt = lambda a: tcpstr(c.E, c.pre_st, a)
    n, key, val = c.entries(MADDR, m)
    i = c.first(n, lambda i: eq(txt(val(i)), txt(addr)))
    if c.case(lt(i, n)): c.mdel(MADDR, m, key(i))
@contract(M + 'AddClient')
def AddClient(c, co, key, addr):
    """records the address under the key; an older entry with the same address goes"""
    m = c.f(co, CO, 'Clients')
    c.requires(neq(key, NIL), 'a key is given')
    forget(c, m, addr)
    c.mset(MADDR, m, T.pstr(c.pv(key)), addr)
    c.ret()
@contract(CN + 'handleClientRegisterControllerSide')
def handleClientRegisterControllerSide(c, pm, addr):
    """the client is recorded, a commitment to the starting credit goes to the chain and its randomness to the client"""
    b = c.param(pm, 'public_key'); g = f(c, 'G'); pb_ = f(c, 'PedersenBase')
    c.requires(T.pvalid(b), 'a well formed key'); c.requires(neq(addr, NIL), 'the sender has an address')
    c.requires(neq(g, NIL), 'a round generator'); c.requires(neq(pb_, NIL), 'the parameters are set')
    br.pd.wf(c, pb_); wf_addrs(c)
    GT, HT = br.pd.gh(c, pb_)
    c.may_stop()
    src = f(c, 'LocalAddr'); l = f(c, 'ServerList')
    first = NIL if c.case(eq(slen(l), ZERO)) else server_addr(c, ZERO)
    txt = lambda a: tcpstr(c.E, c.pre_st, a)
    m = f(c, 'Clients')
    forget(c, m, addr)
    c.mset(MADDR, m, T.pstr(T.unpb(b)), addr)
    r = c.random()
    c.sends(first, CLIENT_REGISTER_SERVERSIDE, src, public_key=c.mget('map[string]interface{}', pm, S('public_key'))[1], addr=('string', txt(addr)),
            pcomm=('[]byte', pb(br.pd.val(GT, HT, I(STARTING_CREDIT), r))))
    c.sends(addr, INIT_PEDERSEN_R, src, r=('[]byte', T.sb(r)), g=('[]byte', pb(c.pv(g))))
    c.ret()
@contract(CN + 'handleClientRegisterServerSide')
def handleClientRegisterServerSide(c, pm):
    """the client whose blinded key came through the chain gets the public parameters and is queued with its commitment"""
    b = c.param(pm, 'public_key'); cb = c.param(pm, 'pcomm'); ad = c.param(pm, 'addr', 'string')
    c.requires(T.pvalid(b), 'a well formed pseudonym'); c.requires(neq(f(c, 'PublicKey'), NIL), 'the coordinator has a key')
    par = fo_public(c, f(c, 'FujiOkamBase'))
    hp = f(c, 'AllGnHonestyProofPublic')
    c.may_stop()
    if not c.case(and_(T.pvalid(cb), T.uf('resolvable', 'Bool', ad))): return c.stops()
    w = freshvar('i', 'Int')
    c.sends(T.uf('canon', 'Str', ad), CLIENT_REGISTER_CONFIRMATION, f(c, 'LocalAddr'),
            honesty_prf=('[]byte', T.enc('gob:[]bigint', T.seq(slen(hp), c.inrange(slen(hp), lambda i: c.bi(c.at(hp, i, fo.BIGT)))))),
            public_key=('[]byte', pb(c.pv(f(c, 'PublicKey')))), **par)
    c.setf(me(c), CO, 'NewClientsBuffer', c.append(CT, f(c, 'NewClientsBuffer'), c.struct(CT, Nym=c.newpoint(T.unpb(b)), PComm=c.newpoint(T.unpb(cb)))))
    c.ret()

# ---------------------------------------------------------------- announcement and end of a round
from contracts import lrs as lr
ANNOUNCEMENT, VOTE, ROUND_END, BCAST_PEDERSEN_RDIFF, ANNOUNCEMENT_FINALIZE = 8, 11, 12, 19, 25
READY_FOR_NEW_ROUND, MESSAGE = 1, 3
MODULUS = 10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263
PBS = br.pd.PB
def wf_clients(c):
    n, key, val = c.entries(MADDR, f(c, 'Clients'))
    c.requires(c.all(n, lambda i: neq(val(i), NIL)), 'registered clients have addresses')
    return n, val
def to_clients(c, etype, **params):
    n, val = wf_clients(c)
    c.sends_all(n, val, etype, f(c, 'LocalAddr'), **params)
def pedersen_ready(c):
    p = f(c, 'PedersenBase')
    c.requires(neq(p, NIL), 'the parameters are set'); br.pd.wf(c, p)
    return br.pd.gh(c, p)
@contract(CN + 'announce')
def announce(c):
    """the whole table of the new round goes to the first server; without servers the round goes on at once"""
    l = f(c, 'ServerList')
    if c.case(eq(slen(l), ZERO)):
        c.setf(me(c), CO, 'Status', I(MESSAGE)); return c.ret()
    wf_addrs(c); GT, HT = pedersen_ready(c)
    n, key, val = c.entries(MPT, f(c, 'BeginningCommMap'))
    k = lambda i: c.mget(MPT, f(c, 'BeginningKeyMap'), key(i))
    c.requires(c.all(n, lambda i: and_(neq(val(i), NIL), k(i)[0], neq(k(i)[1], NIL))), 'a well formed table')
    c.may_stop()
    c.sends(server_addr(c, ZERO), ANNOUNCEMENT, f(c, 'LocalAddr'), keys=('[]byte', ut.enc_plist(n, lambda i: c.pv(k(i)[1]))), vals=('[]byte', ut.enc_plist(n, lambda i: c.pv(val(i)))),
            GT=('[]byte', pb(GT)), HT=('[]byte', pb(HT)))
    c.ret()
def new_table(c, n, key, val, kmap, cmap):
    """two new maps from the texts of the pseudonyms to pseudonyms and commitments; returns the pseudonym objects"""
    kf, vf = c.freshf('key'), c.freshf('val')
    c.family('PV', n, kf, key); c.family('PV', n, vf, val)
    km, cm = c.fresh('km'), c.fresh('cm')
    c.setf(me(c), CO, kmap, km); c.setf(me(c), CO, cmap, cm)
    c.mfamily(MPT, km, n, lambda i: T.pstr(key(i)), kf); c.mfamily(MPT, cm, n, lambda i: T.pstr(key(i)), vf)
    return kf
def new_generators(c, pm):
    p = f(c, 'PedersenBase')
    for x in ('GT', 'HT'): c.setf(p, PBS, x, c.newpoint(T.unpb(c.param(pm, x))))
@contract(CN + 'handleAnnouncement')
def handleAnnouncement(c, pm):
    """the table that came through the chain becomes the table of the round, and everybody gets exactly what came"""
    p = lambda k: c.param(pm, k)
    c.requires(neq(f(c, 'PedersenBase'), NIL), 'the parameters are set'); wf_addrs(c)
    ok1, n, key = ut.plist(p('keys')); ok2, m, val = ut.plist(p('vals'))
    if not c.case(and_(T.pvalid(p('g')), T.pvalid(p('GT')), T.pvalid(p('HT')), ok1, ok2, ge(m, n))): return c.stops()
    c.may_stop()
    g = T.unpb(p('g'))
    gp = c.newpoint(g)
    P = I(MODULUS)
    c.setf(me(c), CO, 'LRSBase', c.newstruct(lr.LB, Suite=br.pd.SUITE, P=c.newbig(P), Q=c.newbig(sub(P, ONE)), G=c.newbig(T.b2i(pb(g)))))
    new_generators(c, pm)
    kf = new_table(c, n, key, val, 'EndingKeyMap', 'EndingCommMap')
    c.setf(me(c), CO, 'ReputationDiffMap', c.fresh('diffs'))
    c.setf(me(c), CO, 'AllClientsPublicKeys', c.newslice(PT, n, kf))
    msg = {k: ('[]byte', p(k)) for k in ('g', 'keys', 'vals', 'GT', 'HT')}
    to_clients(c, ANNOUNCEMENT_FINALIZE, **msg)
    c.sends_all(slen(f(c, 'ServerList')), lambda i: server_addr(c, i), ANNOUNCEMENT_FINALIZE, f(c, 'LocalAddr'), **msg)
    c.setf(me(c), CO, 'G', gp); c.setf(me(c), CO, 'Status', I(MESSAGE))
    c.ret()
@contract(CN + 'vote')
def vote(c):
    """the votes of the round are forgotten and every client is asked for its vote"""
    c.may_stop()
    c.setf(me(c), CO, 'VoteRecords', c.newslice('*math/big.Int', ZERO, lambda i: NIL))
    to_clients(c, VOTE)
    c.ret()
@contract(CN + 'handleRoundEnd')
def handleRoundEnd(c, pm):
    """the table that came back through the chain becomes the table of the next round; every client gets the votes"""
    p = lambda k: c.param(pm, k)
    c.requires(neq(f(c, 'PedersenBase'), NIL), 'the parameters are set')
    ok1, n, key = ut.plist(p('keys')); ok2, m, val = ut.plist(p('vals'))
    dn, dkey, diff = c.entries(MINT, f(c, 'ReputationDiffMap'))
    k = lambda i: c.mget(MPT, f(c, 'EndingKeyMap'), dkey(i))
    c.requires(c.all(dn, lambda i: and_(k(i)[0], neq(k(i)[1], NIL))), 'votes are for participants')
    if not c.case(and_(T.pvalid(p('GT')), T.pvalid(p('HT')), ok1, ok2, ge(m, n))): return c.stops()
    c.may_stop()
    new_table(c, n, key, val, 'BeginningKeyMap', 'BeginningCommMap')
    new_generators(c, pm)
    to_clients(c, ROUND_END, keys=('[]byte', ut.enc_plist(dn, lambda i: c.pv(k(i)[1]))), diffs=('[]byte', ut.enc_ints(dn, diff)))
    c.setf(me(c), CO, 'Status', I(READY_FOR_NEW_ROUND))
    c.ret()
@contract(CN + 'roundEnd')
def roundEnd(c):
    """newcomers join the table; every commitment is increased by a commitment to the votes of its pseudonym, the new table
    goes to the last server, and every client gets the randomness of all the increases; the bridges are forgotten"""
    l = f(c, 'ServerList'); n = slen(l)
    if c.case(eq(n, ZERO)):
        c.setf(me(c), CO, 'Status', I(READY_FOR_NEW_ROUND)); return c.ret()
    wf_addrs(c); GT, HT = pedersen_ready(c)
    buf = f(c, 'NewClientsBuffer'); bn = slen(buf)
    field = lambda i, x: c.vf(c.at(buf, i, CT), CT, x)
    c.requires(c.all(bn, lambda i: neq(field(i, 'Nym'), NIL)), 'newcomers have pseudonyms')
    nym = lambda i: T.pstr(c.pv(field(i, 'Nym')))
    km, cm = f(c, 'EndingKeyMap'), f(c, 'EndingCommMap'); c.requires(neq(km, cm), 'two maps')
    c.mfamily(MPT, km, bn, nym, lambda i: field(i, 'Nym')); c.mfamily(MPT, cm, bn, nym, lambda i: field(i, 'PComm'))
    k, key, com = c.entries(MPT, cm, after=True)
    name = lambda i: c.mget(MPT, km, key(i), c.st)
    c.requires(c.all(k, lambda i: and_(neq(com(i), NIL), name(i)[0], neq(name(i)[1], NIL))), 'a well formed table')
    c.may_stop()
    votes = lambda i: (lambda e: ite(e[0], e[1], ZERO))(c.mget(MINT, f(c, 'ReputationDiffMap'), key(i)))
    r = c.randf('r', k)
    keys = ('[]byte', ut.enc_plist(k, lambda i: c.pv(name(i)[1])))
    c.sends(server_addr(c, sub(n, ONE)), ROUND_END, f(c, 'LocalAddr'), keys=keys, vals=('[]byte', ut.enc_plist(k, lambda i: gmul(c.pv(com(i)), br.pd.val(GT, HT, votes(i), r(i))))),
            is_start=('bool', TRUE), GT=('[]byte', pb(GT)), HT=('[]byte', pb(HT)))
    to_clients(c, BCAST_PEDERSEN_RDIFF, keys=keys, rDiffs=('[]byte', ut.enc_secrets(k, r)))
    c.setf(me(c), CO, 'Bridges', c.fresh('bridges'))
    c.ret()

# ---------------------------------------------------------------- the coordinator's own parameters
GN_HONESTY_CHALLENGE, GN_HONESTY_ANSWER, CONFIGURATION = 16, 17, 0
SUITE = gobj('suite.QR512')
@contract(CN + 'initCoordinator')
def initCoordinator(c):
    """new keys, parameters and empty tables"""
    c.may_stop()
    a = c.random('a')
    local = c.fresh('addr'); c.E.sp_store(c.st, 'AS', local, c.out('addr', 'Str'))
    pb_ = c.newstruct(PBS, Suite=SUITE, GT=c.newpoint(GB), HT=c.newpoint(GB))
    base, h, n = fo.new_base(c, SUITE)
    sec, pub = fo.honesty_proof(c, h, n)
    c.setglob(CN + 'anonCoordinator', '*' + CO, c.newstruct(CO, LocalAddr=local, Status=I(CONFIGURATION), Suite=SUITE, PrivateKey=c.newsecret(a), PublicKey=c.newpoint(T.gexp(GB, a)),
        PedersenBase=pb_, FujiOkamBase=base, AllGnHonestyProofSecret=sec, AllGnHonestyProofPublic=pub,
        **{t: c.fresh(t) for t in ('Clients', 'BeginningKeyMap', 'BeginningCommMap', 'AssignmentSignaturesLog', 'Bridges', 'EndingCommMap', 'EndingKeyMap', 'ReputationDiffMap')}))
    c.ret()
@contract(CN + 'handleGnHonestyChallenge')
def handleGnHonestyChallenge(c, pm, addr):
    """answers the challenge from the stored secrets: secret, plus the exponent of the generator exactly when the bit is set"""
    from engine.intrinsics import decok
    c.may_stop()
    base = f(c, 'FujiOkamBase'); sec = f(c, 'AllGnHonestyProofSecret')
    b = c.param(pm, 'honesty_chal')
    if not c.case(decok('pbuf:{Bools:[]bool}', b)): return c.stops()
    bits = T.recget(T.dec('pbuf:{Bools:[]bool}', b, 'Rec'), 0, 'Seq')
    c.requires(eq(T.seqlen(bits), I(480)), 'a challenge for every position'); c.requires(eq(slen(sec), I(480)), 'the secrets are set')
    al = [c.bi(c.f(base, FB, 'alpha%d' % k)) for k in range(1, 7)]
    def ans(i):
        r = ZERO
        for k in range(6): r = ite(and_(ge0(sub(i, I(80 * k))), lt(i, I(80 * k + 80))), add(c.bi(c.at(sec, i, fo.BIGT)), ite(T.seqget(bits, i, 'Bool'), al[k], ZERO)), r)
        return r
    c.sends(addr, GN_HONESTY_ANSWER, f(c, 'LocalAddr'), honesty_ans=('[]byte', T.enc('gob:[]bigint', T.seq(I(480), c.inrange(I(480), ans)))))
    c.ret()

# ---------------------------------------------------------------- the second Pedersen generator
BCAST_PEDERSEN_H, UPDATE_PEDERSEN_H = 15, 18
@contract(CN + 'handleUpdatePedersenH')
def handleUpdatePedersenH(c, pm):
    """takes over the generator a server has contributed to; a malformed one stops"""
    b = c.param(pm, 'h'); p = f(c, 'PedersenBase')
    c.requires(neq(p, NIL), 'the parameters are set'); c.requires(neq(c.f(p, PBS, 'HT'), NIL), 'the parameters are set')
    if not c.case(T.pvalid(b)): return c.stops()
    br.pd.replace_point(c, p, PBS, 'HT', T.unpb(b))
    c.ret()
@contract(CN + 'configCommParams')
def configCommParams(c):
    """every server is told the generator"""
    p = f(c, 'PedersenBase')
    c.requires(neq(p, NIL), 'the parameters are set'); c.requires(neq(c.f(p, PBS, 'HT'), NIL), 'the parameters are set')
    wf_addrs(c)
    c.may_stop()
    c.sends_all(slen(f(c, 'ServerList')), lambda i: server_addr(c, i), BCAST_PEDERSEN_H, f(c, 'LocalAddr'), h=('[]byte', pb(c.pv(c.f(p, PBS, 'HT')))))
    c.ret()

# ---------------------------------------------------------------- between the rounds
@contract(CN + 'clearBuffer')
def clearBuffer(c):
    """newcomers, posted messages and addresses of requesters are forgotten"""
    c.setf(me(c), CO, 'NewClientsBuffer', NILSLICE); c.setf(me(c), CO, 'MsgLog', NILSLICE)
    c.setf(me(c), CO, 'RequesterAddrs', c.fresh('requesters'))
    c.ret()
@contract(M + 'ClearBridges')
def ClearBridges(c, co):
    c.setf(co, CO, 'Bridges', c.fresh('bridges')); c.ret()
@contract(M + 'ClearVoteRecords')
def ClearVoteRecords(c, co):
    c.setf(co, CO, 'VoteRecords', c.newslice('*math/big.Int', ZERO, lambda i: NIL)); c.ret()
def into(c, co, key, val, kmap, cmap):
    c.requires(neq(key, NIL), 'a key is given')
    km, cm = c.f(co, CO, kmap), c.f(co, CO, cmap)
    c.requires(neq(km, cm), 'two maps')
    t = T.pstr(c.pv(key))
    c.mset(MPT, km, t, key); c.mset(MPT, cm, t, val); c.ret()
@contract(M + 'AddIntoRepMap')
def AddIntoRepMap(c, co, key, val): into(c, co, key, val, 'BeginningKeyMap', 'BeginningCommMap')
@contract(M + 'AddIntoEndingMap')
def AddIntoEndingMap(c, co, key, val): into(c, co, key, val, 'EndingKeyMap', 'EndingCommMap')
@contract(M + 'AddClientInBuffer')
def AddClientInBuffer(c, co, nym, com):
    c.setf(co, CO, 'NewClientsBuffer', c.append(CT, c.f(co, CO, 'NewClientsBuffer'), c.struct(CT, Nym=nym, PComm=com))); c.ret()
@contract(CN + 'addFakeClients')
def addFakeClients(c, n):
    """n members with keys nobody holds and commitments to nothing join the table of the first round"""
    c.requires(ge0(n), 'a number of members')
    GT, HT = pedersen_ready(c)
    km, cm = f(c, 'BeginningKeyMap'), f(c, 'BeginningCommMap')
    c.requires(neq(km, cm), 'two maps')
    sk, r = c.randf('sk', n), c.randf('r', n)
    key = lambda i: T.gexp(GB, sk(i))
    kf, vf = c.freshf('key'), c.freshf('val')
    c.family('PV', n, kf, key); c.family('PV', n, vf, lambda i: T.gexp(HT, r(i)))
    c.mfamily(MPT, km, n, lambda i: T.pstr(key(i)), kf); c.mfamily(MPT, cm, n, lambda i: T.pstr(key(i)), vf)
    c.ret()

# ---------------------------------------------------------------- tags of ring signatures on record
BIG = '*math/big.Int'
@contract(M + 'IsLinkableRecord')
def IsLinkableRecord(c, co, y0):
    """a tag is recognised exactly if an equal one is on record"""
    l = c.f(co, CO, 'VoteRecords'); n = slen(l)
    c.requires(neq(y0, NIL), 'a tag is given'); c.requires(c.all(n, lambda i: neq(c.at(l, i, BIG), NIL)), 'tags on record')
    c.ret(not_(c.all(n, lambda i: neq(c.bi(c.at(l, i, BIG)), c.bi(y0)))))
@contract(M + 'AddToVoteRecords')
def AddToVoteRecords(c, co, y0):
    c.setf(co, CO, 'VoteRecords', c.append(BIG, c.f(co, CO, 'VoteRecords'), y0)); c.ret()
@contract(M + 'GetReputationDiff')
def GetReputationDiff(c, co, key):
    c.requires(neq(key, NIL), 'a key is given')
    has, v = c.mget(MINT, c.f(co, CO, 'ReputationDiffMap'), T.pstr(c.pv(key))); c.ret(ite(has, v, ZERO))
@contract(M + 'AddMsgLog')
def AddMsgLog(c, co, p):
    l = c.f(co, CO, 'MsgLog')
    c.setf(co, CO, 'MsgLog', c.append(PT, l, p)); c.ret(add(slen(l), ONE))
