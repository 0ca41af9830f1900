from registry import prop
from contracts import server as sv
prop('C24', contracts=[sv.SN + 'handleSignAssignments'], replay=[('cmd/server', 'c24_test.go', 'TestZV')])
