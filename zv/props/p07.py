from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import fujiokam as fo
M, FB, BIGT = fo.M, fo.FB, fo.BIGT
CL = 'zRep/cmd/client.'

def honest_setup_passes(g):
    """proof, any challenge, answer, check: success for every honest base"""
    st = g.st; v = g.view(st); base = g.ref('base'); fo.wf(v, base)
    for k in range(1, 7):
        a = v.bi(v.f(base, FB, 'alpha%d' % k))
        g.assume(st, eq(fo.gen(v, base, 'G%d' % k), T.modexp(fo.gen(v, base, 'H1'), a, fo.N(v, base))))
    for k in 'PQ': g.assume(st, gt(v.bi(v.f(base, FB, k)), ZERO))
    bits = slice_(g.ref('bits'), g.any('boff', 'Int'), I(480))
    for s1, (sec, pub) in g.call(M + 'GenerateAllGnHonestyProof', st, base):
        for s2, (ans,) in g.call(M + 'AnswerAllGnHonesty', s1, base, bits, sec, pub):
            for s3, (res,) in g.call(M + 'CheckAllGnHonesty', s2, base, ans, bits, pub):
                g.prove('the checker reports success', s3, eq(res, ZERO))
def over_the_network(g):
    """a new coordinator, the parameters as a client receives them, any of its challenges and the answer: the client accepts"""
    from contracts import coordinator as co, client as cl
    st = g.st; cln, pm, ca, ad = g.ref('client'), g.ref('register'), g.ref('coordinator_addr'), g.ref('client_addr')
    g.assume(st, T.pvalid(g.view(st).param(pm, 'public_key')))
    g.assume(st, neq(g.f(st, cln, cl.DC, 'ControllerPublicKey'), NIL))
    for s0, _ in g.call(co.CN + 'initCoordinator', st):
        for s1, _ in g.call(co.CN + 'handleClientRegisterServerSide', s0, pm):
            (d, et, m, src), = g.sent(s1)
            s1 = s1.copy(); r = g.deliver(s1, m); old = g.sent(s1)
            for s2, _ in g.call(cl.CL + 'handleRegisterConfirmation', s1, r, cln):
                new = [x for x in g.sent(s2) if x not in old]
                if len(new) != 1: g.fail('one challenge'); continue
                s2 = s2.copy(); r = g.deliver(s2, new[0][2]); old = g.sent(s2)
                for s3, _ in g.call(co.CN + 'handleGnHonestyChallenge', s2, r, ad):
                    new = [x for x in g.sent(s3) if x not in old]
                    if len(new) != 1: g.fail('one answer'); continue
                    s3 = s3.copy(); r = g.deliver(s3, new[0][2]); v = g.view(s3)
                    n, an = cl.dints(v.param(r, 'honesty_ans')); simp = lambda t: g.E.simpdeep(v.st, t)
                    ans = lambda i: simp(an(i))
                    base = g.f(s3, cln, cl.DC, 'FujiOkamBase'); chal = g.f(s3, cln, cl.DC, 'AllGnHonestyChallenge'); pub = g.f(s3, cln, cl.DC, 'AllGnHonestyProofPublic')
                    g.prove('an answer for every position', s3, eq(n, I(480)))
                    for k in range(6):
                        g.prove('accepted for g%d' % (k + 1), s3, fo.gn_all(v, base, ans, lambda i: simp(v.at(chal, i, 'bool')), lambda i: simp(v.bi(v.at(pub, i, BIGT))), k))
                    for s4, _ in g.call(cl.CL + 'handleGnHonestyAnswer', s3, r, cln): g.prove('the client goes on', s4, eq(g.f(s4, cln, cl.DC, 'Status'), I(1)))
prop('C07', contracts=[M + n for n in ('sampleZpq', 'GenerateGnHonestyProof', 'ChallengeGnHonesty', 'AnswerGnHonesty', 'GenerateAllGnHonestyProof', 'ChallengeAllGnHonesty', 'AnswerAllGnHonesty')] + ['zRep/cmd/coordinator.' + n for n in ('initCoordinator', 'handleGnHonestyChallenge', 'handleClientRegisterServerSide')] + [CL + 'handleRegisterConfirmation'],
     goals=[honest_setup_passes, over_the_network], replay=[('primitive/fujiokam', 'c07_test.go', 'TestZV'), ('cmd/coordinator', 'c07n_test.go', 'TestZV'), ('cmd/client', 'c09k_test.go', 'TestZV')])

prop('C08', contracts=[M + 'CheckGnHonesty', M + 'CheckAllGnHonesty', 'zRep/cmd/client.handleGnHonestyAnswer'], goals=[],
     replay=[('primitive/fujiokam', 'c08_test.go', 'TestZV'), ('cmd/client', 'c08c_test.go', 'TestZV')])
