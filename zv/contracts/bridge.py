"""zRep/cmd/bridge"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.intrinsics import deeptype, deepsort, deep, exported, decok, svalid
from contracts import pedersen as pd, fujiokam as fo, equality as eqc, elgamal as eg
B_ = 'zRep/cmd/bridge.'
ASG = B_ + 'Assignment'

def drec(c, codec, t, b):
    """fields of a decoded structure: (decodes, {name: value})"""
    E = c.E if hasattr(c, 'E') else c.g.E
    dt = deeptype(E, t)
    d = T.dec(codec + ':' + dt, b, 'Rec')
    u, x = E.p.under(t)
    return decok(codec + ':' + dt, b), {f['name']: T.recget(d, j, deepsort(deeptype(E, f['t']))) for j, (i, f) in enumerate(exported(x))}

def blist(b):
    """decoded list of byte strings: (decodes, length, i -> value)"""
    d = T.dec('gob:[]bytes', b, 'Seq')
    return decok('gob:[]bytes', b), T.seqlen(d), lambda i: T.seqget(d, i, 'Bytes')
def enc_list(n, fn):
    """encoding of a list of byte strings"""
    w = freshvar('i', 'Int')
    return T.enc('gob:[]bytes', T.seq(n, lam(w, fn(w))))

# ---------------------------------------------------------------- signed bodies
def msg_request(c, pm):
    b = lambda k: c.param(pm, k)
    return cat(T.u32(T.mod(c.param(pm, 'ind', 'int'), I(2 ** 32))), *[b(k) for k in ('nym', 'FOCommd', 'PCommd', 'PCommind', 'rind', 'arg_nonneg', 'arg_equal')])
def msg_post(c, pm): return cat(T.s2b(c.param(pm, 'bridge_addr', 'string')), c.param(pm, 'nym'))
def msg_got(c, pm): return cat(c.param(pm, 'assignment'), c.param(pm, 'signatures'))
def msg_vote(c, pm): return cat(c.param(pm, 'nym'), c.param(pm, 'assignment'), c.param(pm, 'signatures'), T.u32(T.mod(c.param(pm, 'feedback', 'int'), I(2 ** 32))))
contract(B_ + 'MessageOfRequestBridges')(lambda c, pm: c.ret(msg_request(c, pm)))
contract(B_ + 'MessageOfPostBridge')(lambda c, pm: c.ret(msg_post(c, pm)))
contract(B_ + 'MessageOfGotSignatures')(lambda c, pm: c.ret(msg_got(c, pm)))
contract(B_ + 'MessageOfVote')(lambda c, pm: c.ret(msg_vote(c, pm)))

# ---------------------------------------------------------------- reputation proofs
def unpt(b): return T.unpb(b)
def ind_ok(c, pm, PCommr, pbase, fbase):
    """the reputation proof in a message is well formed and accepted for the reputation commitment PCommr"""
    G, H = pd.gh(c, pbase)
    b = {k: c.param(pm, k) for k in ('nym', 'PCommind', 'PCommd', 'rind', 'FOCommd', 'arg_nonneg', 'arg_equal')}
    Pi, Pd = unpt(b['PCommind']), unpt(b['PCommd'])
    FO = b2i(b['FOCommd'])
    ok1, nn = drec(c, 'gob', fo.ARG, b['arg_nonneg'])
    ok2, ev = drec(c, 'gob', eqc.ARG, b['arg_equal'])
    return and_(*[T.pvalid(b[k]) for k in ('nym', 'PCommind', 'PCommd')], svalid(b['rind']),
                eq(pd.val(G, H, T.mod(c.param(pm, 'ind', 'int'), Q), T.unsb(b['rind'])), Pi),
                neq(PCommr, NIL), eq(Pd, gmul(c.pv(PCommr), ginv(Pi))),
                ok1, fo.nn_vals(c, fbase, FO, nn),
                ok2, eqc.eq_vals(c, pbase, fbase, Pd, FO, *[ev[k] for k in ('C', 'S1', 'S2', 'S3')]))
def wf_ind(c, pbase, fbase):
    pd.wf(c, pbase); fo.wf_n(c, fbase); fo.wf_gens(c, fbase, fo.ALLG)
@contract(B_ + 'VerifyInd')
def VerifyInd(c, pm, PCommr, suite, pbase, fbase):
    """accepted only if the indicator commitment opens to the indicator, the difference is the reputation commitment
    divided by it, and both arguments verify for exactly the transmitted commitments"""
    wf_ind(c, pbase, fbase)
    if not c.case(ind_ok(c, pm, PCommr, pbase, fbase)): return c.rejects(FALSE)
    c.ret(TRUE)
