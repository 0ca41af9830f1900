"""zRep/cmd/client"""
from registry import contract
from engine import terms as T
from engine.terms import *
from contracts import fujiokam as fo
CL = 'zRep/cmd/client.'
DC = CL + 'DissentClient'

def dints(b):
    """decoded list of integers: (length, i -> value)"""
    d = T.dec('gob:[]bigint', b, 'Seq')
    return T.seqlen(d), lambda i: T.seqget(d, i, 'Int')

@contract(CL + 'handleGnHonestyAnswer')
def handleGnHonestyAnswer(c, pm, cl):
    """returns only if all 480 equations hold for the answer in the message, the challenge the client sent and the
    generators and public values it holds; otherwise the client stops"""
    base = c.f(cl, DC, 'FujiOkamBase')
    fo.wf_n(c, base); fo.wf_gens(c, base, ('H1',))
    chal = c.f(cl, DC, 'AllGnHonestyChallenge'); pub = c.f(cl, DC, 'AllGnHonestyProofPublic')
    c.requires(ge(slen(chal), I(480)), 'the client has sent its challenge'); c.requires(ge(slen(pub), I(480)), 'the client holds the public values')
    n, ans = dints(c.param(pm, 'honesty_ans'))
    c.requires(ge(n, I(480)), 'answers present (a shorter list fails the bounds check)')
    for k in range(6):
        if not c.case(fo.gn_all(c, base, ans, lambda i: c.at(chal, i, 'bool'), lambda i: c.bi(c.at(pub, i, fo.BIGT)), k)):
            c.stops(); return
    c.may_stop()
    c.ret()

# ---------------------------------------------------------------- signed messages
from contracts import elgamal as eg, bridge as br
def me(c): return c.glob(CL + 'dissentClient', '*' + DC)
def fd(c, name): return c.f(me(c), DC, name)
AI = CL + 'AssignmentInfo'
POST_BRIDGE, REQUEST_BRIDGES, VOTE = 21, 22, 11
def signed(c, msg):
    """signature of the client under its one-time key and the round generator, with a fresh one-time secret"""
    g = fd(c, 'G')
    c.requires(or_(eq(g, NIL), neq(c.pv(g), GZERO)), 'the round generator is a group element')
    G = eg.base_of(c, g)
    v = c.random()
    C = eg.elhash(msg, eg.gpow(G, v))
    return cat(T.sb(C), T.sb(T.mod(sub(v, mul(c.sv(fd(c, 'PrivateKey')), C)), Q)))
def to_coordinator(c, etype, **params):
    c.sends(fd(c, 'CoordinatorAddr'), etype, fd(c, 'LocalAddr'), **params)
def to_coordinator_of(c, cl, etype, **params):
    c.sends(c.f(cl, DC, 'CoordinatorAddr'), etype, c.f(cl, DC, 'LocalAddr'), **params)
def nym(c):
    n = fd(c, 'OnetimePseudoNym')
    c.requires(neq(n, NIL), 'the client has a pseudonym')
    return T.pb(c.pv(n))
@contract(CL + 'postBridge')
def postBridge(c, addr):
    """sends address and pseudonym, signed"""
    c.may_stop()
    n = nym(c)
    to_coordinator(c, POST_BRIDGE, bridge_addr=('string', addr), nym=('[]byte', n), signature=('[]byte', signed(c, cat(T.s2b(addr), n))))
    c.ret()
@contract(CL + 'requestBridges')
def requestBridges(c, ind):
    """silent above the reputation; otherwise one request, signed over exactly the fields that are sent
    (what the fields of the proof must satisfy is the matter of C31)"""
    from contracts import pedersen as pd, fujiokam as fo
    rep = fd(c, 'Reputation')
    n = nym(c)
    pb, fb = fd(c, 'PedersenBase'), fd(c, 'FujiOkamBase')
    pd.wf(c, pb); fo.wf(c, fb)
    c.requires(neq(fd(c, 'PCommr'), NIL), 'the client has a commitment')
    c.may_stop()
    if c.case(gt(ind, rep)): return c.rejects()
    c.requires(lt(sub(rep, ind), I(2 ** 49)), 'in the supported range')
    p = {k: c.out(k, 'Bytes') for k in ('FOCommd', 'PCommd', 'PCommind', 'rind', 'arg_nonneg', 'arg_equal')}
    msg = cat(T.u32(T.mod(ind, I(2 ** 32))), n, *p.values())
    to_coordinator(c, REQUEST_BRIDGES, ind=('int', ind), nym=('[]byte', n), signature=('[]byte', signed(c, msg)), **{k: ('[]byte', x) for k, x in p.items()})
    c.ret()
@contract(CL + 'sendVote')
def sendVote(c, i, fb):
    """sends the recorded assignment and signature list with feedback 1 or -1, signed"""
    c.may_stop()
    n = nym(c)
    F = ONE if c.case(gt(fb, ZERO)) else I(-1)
    ass = fd(c, 'Assignments')
    info = c.at(ass, i, AI)
    a = c.vf(info, AI, 'Assignment'); sg = c.vf(info, AI, 'ByteSignatures')
    ab = T.enc('pbuf:' + br.deeptype(c.E, br.ASG), br.deep(c.E, c.pre_st, br.ASG, c.load(br.ASG, a)))
    msg = cat(n, ab, sg, T.u32(T.mod(F, I(2 ** 32))))
    to_coordinator(c, VOTE, nym=('[]byte', n), assignment=('[]byte', ab), signatures=('[]byte', sg), feedback=('int', F), signature=('[]byte', signed(c, msg)))
    c.ret()

# ---------------------------------------------------------------- deliveries
@contract(CL + 'handleGotSignatures')
def handleGotSignatures(c, pm, cl):
    """the delivered assignment is recorded, with its signature list, iff the coordinator signed both"""
    key = c.f(cl, DC, 'ControllerPublicKey')
    c.requires(neq(key, NIL), 'the client knows the key of the coordinator')
    ab = c.param(pm, 'assignment')
    ok, a = br.drec(c, 'pbuf', br.ASG, ab)
    c.may_stop()
    if not c.case(and_(eg.accepts(br.msg_got(c, pm), c.pv(key), c.param(pm, 'signature'), GB), ok)): return c.rejects()
    asg = c.newstruct(br.ASG, Addr=a['Addr'], Nym=c.newpoint(a['Nym']), NymR=c.newpoint(a['NymR']))
    info = c.struct(AI, Assignment=asg, ByteSignatures=c.param(pm, 'signatures'))
    c.setf(cl, DC, 'Assignments', c.append(AI, c.f(cl, DC, 'Assignments'), info))
    c.ret()

# ---------------------------------------------------------------- the client's own record
from contracts import util as ut
from engine.intrinsics import svalid
CONNECTED, MESSAGE = 1, 2
@contract(CL + 'handleInitPedersenR')
def handleInitPedersenR(c, pm, cl):
    """keeps the randomness of the first commitment and the current generator with the matching pseudonym"""
    r = c.param(pm, 'r'); g = c.param(pm, 'g')
    c.requires(neq(c.f(cl, DC, 'PrivateKey'), NIL), 'the client has a key')
    if not c.case(and_(svalid(r), T.pvalid(g))): return c.stops()
    x = c.sv(c.f(cl, DC, 'PrivateKey'))
    c.setf(cl, DC, 'R', c.newsecret(T.unsb(r)))
    c.setf(cl, DC, 'G', c.newpoint(T.unpb(g)))
    c.setf(cl, DC, 'OnetimePseudoNym', c.newpoint(T.gexp(T.unpb(g), x)))
    c.ret()
@contract(CL + 'handleBroadcastPedersenRDiff')
def handleBroadcastPedersenRDiff(c, pm, cl):
    """adds exactly the randomness listed at the position of the own pseudonym, if it is listed"""
    ok1, n, key = ut.plist(c.param(pm, 'keys')); ok2, m, rd = ut.secrets_in(c.param(pm, 'rDiffs'))
    nym = c.f(cl, DC, 'OnetimePseudoNym'); r = c.f(cl, DC, 'R')
    c.requires(neq(nym, NIL), 'the client has a pseudonym'); c.requires(neq(r, NIL), 'the client has randomness')
    if not c.case(and_(ok1, ok2)): return c.stops()
    i = c.first(n, lambda i: eq(c.pv(nym), key(i)))
    if not c.case(lt(i, n)): return c.ret()
    if not c.case(lt(i, m)): return c.stops()
    w = T.mod(add(c.sv(r), rd(i)), Q)
    if c.alt(): c.setsv(r, w)
    else: c.setf(cl, DC, 'R', c.newsecret(w))
    c.ret()
@contract(CL + 'handleRoundEnd')
def handleRoundEnd(c, pm, cl):
    """adds exactly the score listed at the position of the own pseudonym, if it is listed"""
    ok1, n, key = ut.plist(c.param(pm, 'keys')); ok2, m, df = ut.ints_in(c.param(pm, 'diffs'))
    nym = c.f(cl, DC, 'OnetimePseudoNym')
    c.requires(neq(nym, NIL), 'the client has a pseudonym')
    if not c.case(and_(ok1, ok2)): return c.stops()
    i = c.first(n, lambda i: eq(c.pv(nym), key(i)))
    d = ZERO
    if c.case(lt(i, n)):
        if not c.case(lt(i, m)): return c.stops()
        d = df(i)
    c.setf(cl, DC, 'Status', I(CONNECTED))
    c.setf(cl, DC, 'Reputation', add(c.f(cl, DC, 'Reputation'), d))
    c.setf(cl, DC, 'Assignments', c.E.p.zero('[]' + AI))
    c.ret()
@contract(CL + 'handleAnnouncementFinalize')
def handleAnnouncementFinalize(c, pm, cl):
    """takes over generator, pseudonym and bases of the round and the commitment listed at the own pseudonym"""
    g, G_, H_ = c.param(pm, 'g'), c.param(pm, 'GT'), c.param(pm, 'HT')
    ok1, n, key = ut.plist(c.param(pm, 'keys')); ok2, m, val = ut.plist(c.param(pm, 'vals'))
    c.requires(T.pvalid(g), 'a well formed generator'); c.requires(neq(c.f(cl, DC, 'PrivateKey'), NIL), 'the client has a key')
    pbase = c.f(cl, DC, 'PedersenBase'); c.requires(neq(pbase, NIL), 'the client has a base')
    nym = T.gexp(T.unpb(g), c.sv(c.f(cl, DC, 'PrivateKey')))
    if not c.case(and_(ok1, ok2, T.pvalid(G_), T.pvalid(H_))): return c.stops()
    i = c.first(n, lambda i: eq(nym, key(i)))
    if not c.case(and_(lt(i, n), lt(i, m))): return c.stops()
    from contracts import pedersen as pd
    keys = c.newslice(ut.PT, n, lambda i: c.newpoint(key(i)))
    c.setf(cl, DC, 'Index', i)
    c.setf(cl, DC, 'PCommr', c.newpoint(val(i)))
    c.setf(cl, DC, 'Status', I(MESSAGE))
    c.setf(cl, DC, 'G', c.newpoint(T.unpb(g)))
    c.setf(cl, DC, 'OnetimePseudoNym', c.newpoint(nym))
    c.setf(cl, DC, 'AllClientsPublicKeys', keys)
    c.setf(pbase, pd.PB, 'GT', c.newpoint(T.unpb(G_)))
    c.setf(pbase, pd.PB, 'HT', c.newpoint(T.unpb(H_)))
    c.ret()

# ---------------------------------------------------------------- the public parameters
CONFIRMED, GN_HONESTY_CHALLENGE = 1, 16
@contract(CL + 'handleRegisterConfirmation')
def handleRegisterConfirmation(c, pm, cl):
    """rebuilds exactly the public base of the message, keeps key and public values, and answers with 480 coin flips"""
    from engine.intrinsics import decok
    hb = c.param(pm, 'honesty_prf'); kb = c.param(pm, 'public_key')
    c.requires(neq(c.f(cl, DC, 'ControllerPublicKey'), NIL), 'the client has a place for the key')
    if not c.case(and_(decok('gob:[]bigint', hb), T.pvalid(kb))): return c.stops()
    c.may_stop()
    c.setf(cl, DC, 'Status', I(CONFIRMED))
    n = b2i(c.param(pm, 'n')); N = c.newbig(n); r = T.mul(I(2 ** 80), n)
    c.setf(cl, DC, 'FujiOkamBase', c.newstruct(fo.FB, Suite=c.f(cl, DC, 'Suite'), N=N, RandomRadius=c.newbig(r), RandomDiameter=c.newbig(add(r, r)),
           **{g: c.newstruct(fo.PT, V=b2i(c.param(pm, g.lower())), M=N) for g in fo.ALLG}))
    k, val = dints(hb)
    c.setf(cl, DC, 'AllGnHonestyProofPublic', c.newslice(fo.BIGT, k, lambda i: c.newbig(val(i))))
    c.setpv(c.f(cl, DC, 'ControllerPublicKey'), T.unpb(kb))
    bits = c.fresh('bits'); segs = []
    for j in range(6):
        e = {}
        def one(w): e['b'] = c.randbool(); return e['b']
        c.fill(fo.seg(bits, j), 'bool', fo.W80, one)
        segs.append(e['b'])
    l = slice_(bits, ZERO, I(480))
    c.setf(cl, DC, 'AllGnHonestyChallenge', l)
    w = freshvar('i', 'Int')
    at = lambda i: c.E.load(c.st, 'bool', c.E.elem_addr(l, i))
    to_coordinator_of(c, cl, GN_HONESTY_CHALLENGE, honesty_chal=('[]byte', T.enc('pbuf:{Bools:[]bool}', T.rec('{Bools:[]bool}', T.seq(I(480), lam(w, at(w)))))))
    c.ret()

# ---------------------------------------------------------------- a new client
@contract(CL + 'initClient')
def initClient(c):
    """a fresh key pair, the starting credit, nothing received yet"""
    c.may_stop()
    a, s = c.random('a'), c.random('s')
    remote = c.fresh('addr'); c.E.sp_store(c.st, 'AS', remote, c.out('addr', 'Str'))
    suite = gobj('suite.QR512')
    pb = c.newstruct('zRep/primitive/pedersen.PedersenBase', Suite=suite, GT=c.newpoint(GB), HT=c.newpoint(T.gexp(GB, s)))
    c.setglob(CL + 'dissentClient', '*' + DC, c.newstruct(DC, CoordinatorAddr=remote, Suite=suite, PrivateKey=c.newsecret(a), PublicKey=c.newpoint(T.gexp(GB, a)),
        ControllerPublicKey=c.newpoint(GZERO), OnetimePseudoNym=c.newpoint(GZERO), Reputation=I(5), PedersenBase=pb))
    c.ret()

CLIENT_REGISTER_CONTROLLERSIDE = 4
@contract(CL + 'register')
def register(c):
    """the client sends its public key to the coordinator and changes nothing"""
    c.may_stop()
    c.requires(neq(fd(c, 'PublicKey'), NIL), 'the client has a key')
    to_coordinator(c, CLIENT_REGISTER_CONTROLLERSIDE, public_key=('[]byte', T.pb(c.pv(fd(c, 'PublicKey')))))
    c.ret()
@contract(CL + 'handleVotePhaseStart')
def handleVotePhaseStart(c, cl):
    """shows the assignments; nothing changes"""
    c.ret()
@contract(CL + 'handleVoteReply')
def handleVoteReply(c, pm):
    """shows the reply; nothing changes"""
    c.param(pm, 'reply')
    c.ret()
