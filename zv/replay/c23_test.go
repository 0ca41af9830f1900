package bridge

import (
	"testing"
	"zRep/primitive/pedersen"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	_, nym := zvlib.Key(nil)
	R := zvlib.Rnd()
	mk := func(rep, ind int) map[string]interface{} {
		p := zvlib.Proof(pb, fb, rep, R, ind)
		p["nym"] = zvlib.Bytes(nym)
		return p
	}
	run := func(pm map[string]interface{}, rep int) (r bool, stopped bool) {
		stopped = zvlib.Stops(func() { r = VerifyInd(pm, pb.CommitWithR(zvlib.Sec(rep), R), suite, pb, fb) })
		return
	}
	for _, c := range [][2]int{{5, 3}, {5, 5}, {5, 0}, {3, 1}, {1000, 7}, {5, -1}, {0, 0}, {4, -100}} {
		if r, _ := run(mk(c[0], c[1]), c[0]); !r {
			fail("a valid proof for %d of %d is rejected", c[1], c[0])
		}
	}
	reject := func(what string, pm map[string]interface{}, rep int) {
		if r, _ := run(pm, rep); r {
			fail("accepted although %s", what)
		}
	}
	var good, other map[string]interface{}
	with := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range good {
			m[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	for _, c := range [][2]int{{5, 3}, {5, 0}, {5, 5}, {1, 1}, {7, -2}, {0, 0}} {
		rep, ind := c[0], c[1]
		good, other = mk(rep, ind), mk(rep, ind)
	reject("the indicator is not the committed one", with("ind", ind+1), rep)
	reject("the indicator is not the committed one (negative)", with("ind", -ind-1), rep)
	reject("the indicator is not the committed one (large)", with("ind", ind+1<<32), rep)
	reject("the randomness does not open the indicator commitment", with("rind", other["rind"]), rep)
	reject("the difference commitment is not reputation minus indicator", with("PCommd", other["PCommd"], "FOCommd", other["FOCommd"], "arg_nonneg", other["arg_nonneg"], "arg_equal", other["arg_equal"]), rep)
	reject("the reputation commitment is another one", good, rep+1)
	reject("the integer commitment is another one", with("FOCommd", other["FOCommd"]), rep)
	reject("the integer commitment is another one (with its argument)", with("FOCommd", other["FOCommd"], "arg_nonneg", other["arg_nonneg"]), rep)
	reject("the non-negativity argument is for another commitment", with("arg_nonneg", other["arg_nonneg"]), rep)
	reject("the equality argument is for another commitment", with("arg_equal", other["arg_equal"]), rep)
	reject("the indicator commitment is another one", with("PCommind", other["PCommind"]), rep)
	reject("the indicator commitment is another one (with its opening)", with("PCommind", other["PCommind"], "rind", other["rind"]), rep)
	reject("the indicator commitment is another one (with opening and difference)", with("PCommind", other["PCommind"], "rind", other["rind"], "PCommd", other["PCommd"]), rep)
	reject("the difference commitment is another one", with("PCommd", other["PCommd"]), rep)
	reject("the difference commitment is another one (with its argument)", with("PCommd", other["PCommd"], "arg_equal", other["arg_equal"]), rep)
	reject("the integer commitment is another one (with the equality argument)", with("FOCommd", other["FOCommd"], "arg_equal", other["arg_equal"]), rep)
	reject("the reputation commitment is another one (0)", good, rep+2)
	}
	other = mk(5, 3)
	// more bridges than reputation: the difference is negative, the arguments are those of a smaller request
	more := mk(5, 9)
	reject("the indicator exceeds the reputation", more, 5)
	good = more
	reject("the indicator exceeds the reputation (argument of a smaller request)", with("arg_nonneg", other["arg_nonneg"]), 5)
	reject("the indicator exceeds the reputation (integer commitment of a smaller request)", with("arg_nonneg", other["arg_nonneg"], "FOCommd", other["FOCommd"]), 5)
	reject("the indicator exceeds the reputation (arguments of a smaller request)", with("arg_nonneg", other["arg_nonneg"], "FOCommd", other["FOCommd"], "arg_equal", other["arg_equal"]), 5)
	reject("the indicator exceeds the reputation (difference of a smaller request)", with("arg_nonneg", other["arg_nonneg"], "FOCommd", other["FOCommd"], "arg_equal", other["arg_equal"], "PCommd", other["PCommd"]), 5)
}
