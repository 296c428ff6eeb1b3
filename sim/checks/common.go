package checks

import (
	"vsim/core"
	"vsim/ref"
)

// expect compares a decoded value with what was sent; a difference is a violation with the class key:path.
func expect(r *core.Run, key, what string, obj interface{}, exps []ref.Exp) bool {
	r.CountN("checks", int64(len(exps)))
	ok := true
	p := guard(func() {
		for i := range exps {
			diff, err := exps[i].Check(obj)
			if err != nil {
				r.Abort = what + ": " + err.Error()
				ok = false
				return
			}
			if diff != "" {
				r.Fail(key+":"+exps[i].Path, "%s: %s", what, diff)
				ok = false
				if r.Viol != nil {
					return
				}
			}
		}
	})
	if p != "" {
		r.Fail(key+":panic", "%s: reading the decoded values panics: %s", what, p)
		return false
	}
	return ok
}

// checkFrame judges the decoding of an undamaged Mode S frame.
func checkFrame(r *core.Run, f *ref.Frame, msg interface{}, err error) bool {
	what := f.Kind + " " + hexs(f.Bytes)
	if err != nil {
		if f.Either {
			r.Count("frames without altitude refused")
			return false
		}
		r.Fail("refused:"+f.Kind, "the undamaged %s is refused: %v", what, err)
		return false
	}
	return expect(r, f.Kind, what, msg, f.Exp)
}

// only keeps the expectations that are about the property at hand.
func only(exps []ref.Exp, keep func(path string) bool) []ref.Exp {
	var out []ref.Exp
	for _, e := range exps {
		if keep(e.Path) {
			out = append(out, e)
		}
	}
	return out
}
