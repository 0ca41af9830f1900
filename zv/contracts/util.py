"""message sending, codecs and lookups in zRep/util"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.intrinsics import mapval, tcpstr
from engine.contracts import EVENTKIND
U = 'zRep/util.'
EV = 'zRep/proto.Event'
PARAMS = 'map[string]interface{}'

@contract(U + 'SendEvent')
def SendEvent(c, laddr, raddr, ev):
    """the peer receives exactly one message: the encoding of type and parameters, with the sender's address"""
    c.may_stop()
    src = tcpstr(c.E, c.pre_st, laddr)
    c.setf(ev, EV, 'SrcAddr', src)
    m = mapval(c.E, c.pre_st, PARAMS, c.f(ev, EV, 'Params'))
    c.E.add_sent(c.st, pair(tcpstr(c.E, c.pre_st, raddr), T.enc(EVENTKIND, T.rec(EVENTKIND[4:], c.f(ev, EV, 'EventType'), m, src))))
    c.ret()

PT = 'github.com/dedis/crypto/abstract.Point'; SC = 'github.com/dedis/crypto/abstract.Secret'
def position(c, keys, nym):
    """first position of the pseudonym in the list of pseudonyms, or the length of the list"""
    c.requires(neq(nym, NIL), 'a pseudonym is given')
    return c.first(slen(keys), lambda i: eq(c.pv(nym), c.pv(c.at(keys, i, PT))))
@contract(U + 'FindIndexWithinKeyList')
def FindIndexWithinKeyList(c, keys, nym):
    i = position(c, keys, nym)
    c.ret(i if c.case(lt(i, slen(keys))) else I(-1))
@contract(U + 'FindIntUsingKeyList')
def FindIntUsingKeyList(c, keys, ints, nym):
    i = position(c, keys, nym)
    if not c.case(lt(i, slen(keys))): return c.ret(ZERO)
    if not c.case(lt(i, slen(ints))): return c.stops()
    c.ret(c.at(ints, i, 'int'))
@contract(U + 'FindCommUsingKeyList')
def FindCommUsingKeyList(c, keys, vals, es, nym):
    i = position(c, keys, nym)
    if not c.case(lt(i, slen(keys))): return c.ret(NIL, NIL)
    if not c.case(and_(lt(i, slen(vals)), lt(i, slen(es)))): return c.stops()
    c.ret(c.at(vals, i, PT), c.at(es, i, SC))

# ---------------------------------------------------------------- lists of group elements on the wire
PLIST = 'pbuf:{Points:[]point}'
def plist(b):
    """decoded list of group elements: (decodes, length, i -> element)"""
    from engine.intrinsics import decok
    d = T.recget(T.dec(PLIST, b, 'Rec'), 0, 'Seq')
    return decok(PLIST, b), T.seqlen(d), lambda i: T.seqget(d, i, 'G')
def enc_plist(n, fn):
    """encoding of a list of group elements"""
    w = freshvar('i', 'Int')
    return T.enc(PLIST, T.rec(PLIST[5:], T.seq(n, lam(w, fn(w)))))
@contract(U + 'ProtobufDecodePointList')
def ProtobufDecodePointList(c, b):
    ok, n, at = plist(b)
    if not c.case(ok): return c.stops()
    c.ret(c.newslice(PT, n, lambda i: c.newpoint(at(i))))
@contract(U + 'ProtobufEncodePointList')
def ProtobufEncodePointList(c, l):
    c.ret(T.enc(PLIST, T.rec(PLIST[5:], T.seq(slen(l), c.inrange(slen(l), lambda i: c.pv(c.at(l, i, PT)))))))
@contract(U + 'EncodePoint')
def EncodePoint(c, p):
    if c.case(eq(p, NIL)): return c.stops()
    c.ret(pb(c.pv(p)))
@contract(U + 'DecodePoint')
def DecodePoint(c, suite, b):
    if not c.case(T.pvalid(b)): return c.stops()
    c.ret(c.newpoint(T.unpb(b)))
SLIST = 'pbuf:{Secrets:[]secret}'
def secrets_in(b):
    """decoded list of exponents: (decodes, length, i -> value)"""
    from engine.intrinsics import decok
    d = T.recget(T.dec(SLIST, b, 'Rec'), 0, 'Seq')
    return decok(SLIST, b), T.seqlen(d), lambda i: T.seqget(d, i, 'Int')
@contract(U + 'ProtobufDecodeSecretList')
def ProtobufDecodeSecretList(c, b):
    ok, n, at = secrets_in(b)
    if not c.case(ok): return c.stops()
    c.ret(c.newslice(SC, n, lambda i: c.newsecret(at(i))))
def enc_secrets(n, fn):
    w = freshvar('i', 'Int')
    return T.enc(SLIST, T.rec(SLIST[5:], T.seq(n, lam(w, fn(w)))))
@contract(U + 'ProtobufEncodeSecretList')
def ProtobufEncodeSecretList(c, l):
    c.ret(T.enc(SLIST, T.rec(SLIST[5:], T.seq(slen(l), c.inrange(slen(l), lambda i: c.sv(c.at(l, i, SC)))))))
ILIST = 'gob:[]int'
def ints_in(b):
    """decoded list of integers: (decodes, length, i -> value)"""
    from engine.intrinsics import decok
    d = T.dec(ILIST, b, 'Seq')
    return decok(ILIST, b), T.seqlen(d), lambda i: T.seqget(d, i, 'Int')
@contract(U + 'DecodeIntArray')
def DecodeIntArray(c, b):
    ok, n, at = ints_in(b)
    if not c.case(ok): return c.stops()
    c.ret(c.newslice('int', n, at))
def enc_ints(n, fn):
    w = freshvar('i', 'Int')
    return T.enc(ILIST, T.seq(n, lam(w, fn(w))))
@contract(U + 'EncodeIntArray')
def EncodeIntArray(c, l):
    c.ret(T.enc(ILIST, T.seq(slen(l), c.inrange(slen(l), lambda i: c.at(l, i, 'int')))))
