from registry import prop
from engine.terms import *
from contracts import fujiokam as fo, equality as eqc, bridge as br
from engine import terms as T
U = 'zRep/util.'
B_ = br.B_
SUITE = gobj('suite.QR512')
PT = 'github.com/dedis/crypto/abstract.Point'; SC = 'github.com/dedis/crypto/abstract.Secret'

def same(g, s1, v1, s2, v2, t, nn=True):
    """deep equality of a value of type t in two states"""
    from engine.intrinsics import deep
    E = g.E; p = E.p; t = p.canon(t)
    if t in (PT, 'zRep/primitive/pedersen.Commitment'): return and_(neq(v2, NIL) if nn else TRUE, eq(g.pv(s1, v1), g.pv(s2, v2)))
    if t == SC: return and_(neq(v2, NIL) if nn else TRUE, eq(g.sv(s1, v1), g.sv(s2, v2)))
    k = p.kind(t)
    if k == 'pointer':
        et = p.canon(p.elem(t))
        if et == 'math/big.Int': return and_(neq(v2, NIL) if nn else TRUE, eq(g.bi(s1, v1), g.bi(s2, v2)))
        return and_(neq(v2, NIL) if nn else TRUE, same(g, s1, E.load(s1, et, v1), s2, E.load(s2, et, v2), et, nn))
    if k == 'struct': return and_(*[same(g, s1, E.field(v1, i), s2, E.field(v2, i), f['t'], nn) for i, f in enumerate(p.fields(t))])
    if p.sort(t) == 'Slice':
        et = p.under(t)[1]['elem']
        w = freshvar('i', 'Int')
        b = same(g, s1, g.at(s1, v1, w, et), s2, g.at(s2, v2, w, et), et, nn)
        return and_(eq(slen(v1), slen(v2)), forall(w, or_(not_(and_(ge0(w), lt(w, slen(v1)))), b)))
    return eq(v1, v2)

def roundtrip(enc, dec, t, decsuite=False, deref=False):
    def goal(g):
        st = g.st
        v = g.arg('v', t)
        if v.sort == 'Ref': st.assume(neq(v, NIL))
        if v.sort == 'Slice': st.assume(ge0(slen(v)))
        for s1, (b,) in g.call(enc, st, v):
            for s2, (r,) in g.call(dec, s1, *([SUITE, b] if decsuite else [b])):
                g.prove('equal value', s2, same(g, st, v, s2, r, t))
                g.prove('original unchanged', s2, same(g, st, v, s2, v, t, False))
    goal.__name__ = dec.split('.')[-1]
    goal.__doc__ = '%s of %s gives the value back' % (dec, enc)
    return goal
def int32(g):
    """ByteToInt(IntToByte(n)) = n for 0 <= n < 2^32"""
    st = g.st
    n = g.any('n', 'Int'); st.assume(ge0(n)); st.assume(lt(n, I(2 ** 32)))
    for s1, (b,) in g.call(U + 'IntToByte', st, n):
        for s2, (r,) in g.call(U + 'ByteToInt', s1, b):
            g.prove('equal value', s2, eq(r, n))
PAIRS = [(U + 'EncodeBigInt', U + 'DecodeBigInt', '*math/big.Int', False), (U + 'ProtobufEncodeBoolList', U + 'ProtobufDecodeBoolList', '[]bool', False),
         (U + 'ProtobufEncodeBigIntList', U + 'ProtobufDecodeBigIntList', '[]*math/big.Int', False),
         (U + 'EncodeARGnonneg', U + 'DecodeARGnonneg', '*' + fo.ARG, False), (U + 'EncodeARGequal', U + 'DecodeARGequal', '*' + eqc.ARG, False),
         (U + 'EncodePoint', U + 'DecodePoint', PT, True), (U + 'EncodeSecret', U + 'DecodeSecret', SC, True),
         (U + 'EncodeIntArray', U + 'DecodeIntArray', '[]int', False), (U + 'ProtobufEncodePointList', U + 'ProtobufDecodePointList', '[]' + PT, False),
         (U + 'ProtobufEncodeSecretList', U + 'ProtobufDecodeSecretList', '[]' + SC, False), (U + 'Encode2DByteArray', U + 'Decode2DByteArray', '[][]byte', False),
         (B_ + 'EncodeAssignment', B_ + 'DecodeAssignment', '*' + br.ASG, False), (B_ + 'EncodeAssignmentList', B_ + 'DecodeAssignmentList', '[]' + br.ASG, False)]
LRS = 'zRep/primitive/lrs.'
PAIRS += [(LRS + 'ProtobufEncodeSignature', LRS + 'ProtobufDecodeSignature', '*' + LRS + 'Signature', False)]
LOOKUPS = [U + f for f in ('FindIndexWithinKeyList', 'FindIntUsingKeyList', 'FindCommUsingKeyList')]
prop('C18', contracts=LOOKUPS, goals=[roundtrip(*a) for a in PAIRS] + [int32],
     replay=[('util', 'c18_test.go', 'TestZV'), ('cmd/bridge', 'c18b_test.go', 'TestZV'), ('primitive/lrs', 'c18l_test.go', 'TestZV')])
