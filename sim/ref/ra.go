package ref

import "vsim/core"

// RA is a resolution advisory of 48 bits.
type RA struct {
	Bits   []byte
	Exp    []Exp
	Draws  []Draw
	Either bool // refusal is acceptable
}

// RAOpt fixes parts of an advisory.
type RAOpt struct {
	Force map[int]uint64
	TTI   *int
	Legal bool // a legal altitude of the threat
	Alt   *int
	Addr  *uint32
}

// NewRA draws an advisory.
func NewRA(g *core.Rng, o RAOpt) *RA {
	b := NewB(g, 6)
	b.Force = o.Force
	e := ra(b, 0, o)
	return &RA{Bits: b.Bits, Exp: b.Exp, Draws: b.Draws, Either: e}
}

// PutRA writes an advisory with its first bit at pos, with expectations relative to b.Pre; it tells whether the
// message may be refused.
func PutRA(b *B, pos int, r *RA) bool {
	if r == nil {
		return ra(b, pos-1, RAOpt{})
	}
	for i := 0; i < 48; i++ {
		b.Put(pos+i, 1, GetBits(r.Bits, 1+i, 1))
	}
	for _, e := range r.Exp {
		e.Path = b.p(e.Path)
		b.Exp = append(b.Exp, e)
	}
	return r.Either
}

func ra(b *B, o int, opt RAOpt) (either bool) {
	single := b.Field("first bit of ARA", o+1, 1) == 1
	mte := b.Enum("MultipleThreatEncounter", o+20, 1) == 1
	b.Int("ActiveRA.GetType()", func() int64 {
		switch {
		case single:
			return 0
		case mte:
			return 1
		}
		return 2
	}())
	switch {
	case single:
		b.Type("ActiveRA", "ActiveRAOneThreatOrSameSeparation")
		b.Enum("ActiveRA.PreventiveCorrective", o+2, 1)
		b.Enum("ActiveRA.Sense", o+3, 1)
		b.Flag("ActiveRA.IsIncreasedRate", o+4)
		b.Flag("ActiveRA.IsSenseReversal", o+5)
		b.Flag("ActiveRA.IsAltitudeCrossing", o+6)
		b.Enum("ActiveRA.VerticalSpeedLimitOrPositive", o+7, 1)
	case mte:
		b.Type("ActiveRA", "ActiveRAMultipleThreatsDifferentSeparation")
		b.Flag("ActiveRA.RequiresCorrectionUpwardSense", o+2)
		b.Flag("ActiveRA.RequiresPositiveClimb", o+3)
		b.Flag("ActiveRA.RequiresCorrectionDownwardSense", o+4)
		b.Flag("ActiveRA.RequiresPositiveDescend", o+5)
		b.Flag("ActiveRA.RequiresCrossing", o+6)
		b.Flag("ActiveRA.IsSenseReversal", o+7)
	default:
		b.Type("ActiveRA", "ActiveRANoVerticalRAGenerated")
	}
	b.Flag("RAComplement.DoNotPassBelow", o+15)
	b.Flag("RAComplement.DoNotPassAbove", o+16)
	b.Flag("RAComplement.DoNotTurnLeft", o+17)
	b.Flag("RAComplement.DoNotTurnRight", o+18)
	b.Enum("RATerminatedIndicator", o+19, 1)
	var tti int
	if opt.TTI != nil {
		tti = *opt.TTI
	} else {
		tti = int(b.rec("threat type", 2, b.G.Uniform(2)))
	}
	b.Put(o+21, 2, uint64(tti))
	b.Int("ThreatTypeIndicator", int64(tti))
	switch tti {
	case 1:
		var a uint64
		if opt.Addr != nil {
			a = uint64(*opt.Addr)
		} else {
			a = b.Draw("threat address", 24)
		}
		b.Put(o+23, 24, a)
		b.Int("ThreatIdentityAddress", int64(a))
	case 2:
		var code uint64
		switch {
		case opt.Alt != nil:
			code = Gillham(*opt.Alt)
		case opt.Legal || b.G.P(0.75):
			code = Gillham(MinGillham + 100*b.G.Intn((MaxGillham-MinGillham)/100+1))
		default:
			code = b.G.Bits(13)
		}
		code = b.rec("threat altitude", 13, code) &^ (pX | pD1)
		b.Put(o+23, 13, code)
		alt, ok := gillhamAlt[code]
		switch {
		case code == 0:
			b.Int("ThreatIdentityAltitude.AltitudeStatus", 0)
		case ok:
			b.Int("ThreatIdentityAltitude.AltitudeStatus", 1)
			b.Int("ThreatIdentityAltitude.AltitudeInFeet", int64(alt))
			either = alt < -1000
		default:
			b.Int("ThreatIdentityAltitude.AltitudeStatus", 0)
			either = true
		}
		rg := b.Draw("range", 7)
		b.Put(o+36, 7, rg)
		b.Int("ThreatIdentityRange", int64(rg))
		switch {
		case rg <= 1:
			b.In("ThreatIdentityRange.GetRange()", 0, 0.05)
		case rg == 127:
			b.In("ThreatIdentityRange.GetRange()", 12.55, 12.65)
		default:
			b.Flt("ThreatIdentityRange.GetRange()", float64(rg-1)/10, 0.05)
		}
		be := b.Draw("bearing", 6)
		b.Put(o+43, 6, be)
		b.Int("ThreatIdentityBearing", int64(be))
		if be >= 1 && be <= 60 {
			b.In("ThreatIdentityBearing.GetBearing()", float64(6*be-6), float64(6*be))
		}
	}
	if tti == 3 || tti == 0 && b.G.P(0.3) {
		// whatever is there says nothing about the threat
		b.Put(o+23, 26, b.G.Bits(26))
	}
	if tti != 1 {
		b.Nil("ThreatIdentityAddress")
	}
	if tti != 2 {
		b.Nil("ThreatIdentityAltitude")
		b.Nil("ThreatIdentityRange")
		b.Nil("ThreatIdentityBearing")
	}
	return
}
