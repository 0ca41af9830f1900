from registry import prop
from contracts import client as cl
prop('C32', contracts=[cl.CL + 'handleGotSignatures'], replay=[('cmd/client', 'c32_test.go', 'TestZV')])
