from registry import prop
from contracts import client as cl, coordinator as co, server as sv, elgamal as eg
prop('C12', contracts=[eg.U + 'ElGamalSign', cl.CL + 'postBridge', cl.CL + 'requestBridges', cl.CL + 'sendVote', co.M + 'SignMessage', sv.SN + 'handleSignAssignments'],
     replay=[('cmd/client', 'c12_test.go', 'TestZV'), ('cmd/coordinator', 'c12b_test.go', 'TestZV'), ('cmd/server', 'c12c_test.go', 'TestZV')])
