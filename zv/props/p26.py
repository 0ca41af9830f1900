from registry import prop
from contracts import coordinator as co, client as cl
prop('C26', contracts=[co.CN + 'handleVote', cl.CL + 'sendVote'], replay=[('cmd/coordinator', 'c26_test.go', 'TestZV'), ('cmd/client', 'c26b_test.go', 'TestZV')])
