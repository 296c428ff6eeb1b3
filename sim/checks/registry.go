// Package checks has one simulation model per property.
package checks

import "vsim/core"

// Spec describes the check of one property.
type Spec struct {
	ID       string
	New      func() core.Model
	Slots    int // slots per run
	Quick    int // runs in the quick tier
	Thorough int // runs in the thorough tier
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	Unit     string
	Chunk    int // runs per process; 0 for the default
}

// All the checks run by the in-process engine.
var All = map[string]*Spec{}

func register(s *Spec) { All[s.ID] = s }
