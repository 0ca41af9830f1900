from registry import prop
from engine.terms import *
from contracts import bridge as br
B_ = br.B_
PM = 'map[string]interface{}'
SORT = {'[]byte': 'Bytes', 'string': 'Str', 'int': 'Int'}
BODIES = {'MessageOfRequestBridges': [('ind', 'int')] + [(k, '[]byte') for k in ('nym', 'FOCommd', 'PCommd', 'PCommind', 'rind', 'arg_nonneg', 'arg_equal')],
          'MessageOfPostBridge': [('bridge_addr', 'string'), ('nym', '[]byte')],
          'MessageOfGotSignatures': [('assignment', '[]byte'), ('signatures', '[]byte')],
          'MessageOfVote': [('nym', '[]byte'), ('assignment', '[]byte'), ('signatures', '[]byte'), ('feedback', 'int')]}
def binds(fn):
    """two messages that differ in exactly one field (numbers: 32-bit) have different signed bytes"""
    def goal(g):
        for k, t in BODIES[fn]:
            st = g.st.copy()
            ms = []
            for j in (1, 2):
                m = gobj('params%d' % j); ms.append(m)
                for f, ft in BODIES[fn]:
                    v = g.any(f + (str(j) if f == k else ''), SORT[ft])
                    if ft == 'int':
                        st.assume(ge(v, I(-2 ** 31))); st.assume(lt(v, I(2 ** 31)))
                    g.E.mapset(st, PM, m, S(f), iface(ft, v))
            a, b = (g.any(k + str(j), SORT[t]) for j in (1, 2))
            st.assume(not_(eq(a, b)))
            for s1, (x,) in g.call(B_ + fn, st, ms[0]):
                for s2, (y,) in g.call(B_ + fn, s1, ms[1]):
                    g.prove('%s is bound' % k, s2, not_(eq(x, y)))
    goal.__name__ = fn + '_binds'
    goal.__doc__ = binds.__doc__
    return goal
prop('C19', contracts=[B_ + f for f in BODIES], goals=[binds(f) for f in BODIES], replay=[('cmd/bridge', 'c19_test.go', 'TestZV')])
