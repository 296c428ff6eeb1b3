package ref

import "vsim/core"

// Reg is the content of a Comm-B register, with the interpretation that must be offered.
type Reg struct {
	Kind   string
	Type   string // of the interpretation
	Part   []byte
	Exp    []Exp
	Draws  []Draw
	Only   bool   // no other interpretation may be offered
	Either bool   // it may be left out
	Not    string // interpretation that must not be offered (Exp is then empty)
	Direct bool   // read with the reader of the layout, not through the recognition
}

// RegOpt fixes what is otherwise drawn.
type RegOpt struct {
	Force  map[int]uint64
	RA     *RA
	Direct bool
}

var regID = map[string]string{"NoMessageAvailable": "BDS 0,0", "Status": "BDS 0,7", "DataLinkCapabilityReport": "BDS 1,0",
	"CommonUsageGICBCapabilityReport": "BDS 1,7", "AircraftIdentification": "BDS 2,0", "ACASResolutionAdvisory": "BDS 3,0",
	"SelectedVerticalIntention": "BDS 4,0", "MeteorologicalRoutineAirReportV0": "BDS 4,4", "MeteorologicalRoutineAirReportV1": "BDS 4,4",
	"MeteorologicalRoutineAirReportV2": "BDS 4,4", "MeteorologicalHazardReportV0": "BDS 4,5", "MeteorologicalHazardReportV1": "BDS 4,5",
	"TrackAndTurnReport": "BDS 5,0", "HeadingAndTrackReport": "BDS 6,0"}

func newReg(g *core.Rng, kind, typ string, o *RegOpt) (*Reg, *B) {
	b := NewB(g, 7)
	b.Force = o.Force
	b.Type("", typ)
	b.Str("GetRegister().GetId()", regID[typ])
	return &Reg{Kind: kind, Type: typ}, b
}

func (m *Reg) done(b *B) *Reg {
	m.Part, m.Exp, m.Draws = b.Bits, b.Exp, b.Draws
	// What cannot be told from a status register is not at issue.
	if m.Type != "Status" && b.Bits[0]&0x1F == 0 && b.Bits[0]>>6 < 3 && b.Bits[1]|b.Bits[2]|b.Bits[3]|b.Bits[4]|b.Bits[5]|b.Bits[6] == 0 {
		m.Either = true
	}
	return m
}

// value draws an n-bit value, mostly within the plausible [lo, hi] in raw units, with a status bit; the value is zero when
// the status is. A register with an implausible value may be left out.
func value(m *Reg, b *B, name string, statusPos, pos, n int, lo, hi int64) (ok bool, v int64) {
	ok = b.Draw(name+" status", 1) == 1
	v = limited(b, name, n, lo, hi)
	full := b.G.P(0.15)
	x := int64(b.G.Bits(n))
	if full && b.Force == nil && ok {
		if lo < 0 {
			x = SignExt(uint64(x), n)
		}
		v = x
		if v < lo || v > hi {
			m.Either = true
		}
	}
	if !ok {
		v = 0
	}
	b.Put(statusPos, 1, b2u(ok))
	b.Put(pos, n, uint64(v)&(1<<uint(n)-1))
	return
}

func limited(b *B, name string, n int, lo, hi int64) int64 {
	span := hi - lo + 1
	return lo + int64(b.DrawN(name, int(span)))
}

// R00 is an empty reply.
func R00(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "no message", "NoMessageAvailable", &o)
	m.Only = true
	return m.done(b)
}

// R07 is a status register.
func R07(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "status", "Status", &o)
	b.EnumBelow("TransmissionRateSubfield", 1, 2, 3)
	if b.Enum("AltitudeTypeSubfield", 3, 1) == 0 && b.Bits[0] == 0 {
		b.Put(1, 2, 1)
		b.Exp[2].I = 1
	}
	m.Only = true
	return m.done(b)
}

// R10 is a data link capability report.
func R10(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "data link capability", "DataLinkCapabilityReport", &o)
	b.Put(1, 8, 0x10)
	b.Enum("ContinuationFlag", 9, 1)
	b.Enum("OverlayCommandCapability", 15, 1)
	acas := b.Enum("ACASStatus", 16, 1)
	b.EnumBelow("ModeSSubnetworkVersion", 17, 7, 6)
	b.Enum("TransponderEnhancedProtocolIndicator", 24, 1)
	b.Enum("ModeSSpecificServicesCapability", 25, 1)
	b.EnumBelow("UplinkELMThroughputCapability", 26, 3, 7)
	b.EnumBelow("DownlinkELMThroughputCapability", 29, 4, 7)
	b.Enum("AircraftIdentificationCapability", 33, 1)
	b.Enum("SquitterCapabilitySubfield", 34, 1)
	b.Enum("SurveillanceIdentifierCode", 35, 1)
	b.Enum("CommonUsageGICBCapability", 36, 1)
	if acas == 1 {
		b.Enum("ACASHybridSurveillanceCapability", 37, 1)
		b.Enum("ACASGenerationCapability", 38, 1)
		b.EnumBelow("ACASApplicableDocument", 39, 2, 3)
	} else {
		b.Int("ACASHybridSurveillanceCapability", 0)
		b.Int("ACASGenerationCapability", 0)
		b.Int("ACASApplicableDocument", 0)
	}
	b.Enum("DTESubAddressStatuses", 41, 16)
	return m.done(b)
}

// R17 is a common usage GICB capability report.
func R17(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "GICB capability", "CommonUsageGICBCapabilityReport", &o)
	for i, n := range []string{"ExtendedSquitterAirbornePosition", "ExtendedSquitterSurfacePosition", "ExtendedSquitterStatus",
		"ExtendedSquitterIdentificationAndCategory", "ExtendedSquitterAirborneVelocityInformation", "ExtendedSquitterEventDrivenInformation",
		"AircraftIdentification", "AircraftRegistrationNumber", "SelectedVerticalIntention", "NextWaypointIdentifier", "NextWaypointPosition",
		"NextWaypointInformation", "MeteorologicalRoutineReport", "MeteorologicalHazardReport", "VHFChannelReport", "TrackAndTurnReport",
		"PositionCoarse", "PositionFine", "AirReferencedStateVector", "Waypoint1", "Waypoint2", "Waypoint3", "QuasiStaticParameterMonitoring",
		"HeadingAndSpeedReport"} {
		b.Flag(n, 1+i)
	}
	b.Field("(other registers)", 27, 2)
	b.Flag("MilitaryApplications", 29)
	return m.done(b)
}

// R20 is an aircraft identification.
func R20(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "identification", "AircraftIdentification", &o)
	b.Put(1, 8, 0x20)
	CallSign(b, "Identification", true)
	m.Only = true
	return m.done(b)
}

// R30 is a resolution advisory.
func R30(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "resolution advisory", "ACASResolutionAdvisory", &o)
	b.Put(1, 8, 0x30)
	b.Pre = "ResolutionAdvisory"
	m.Either = PutRA(b, 9, o.RA)
	e := m.Either
	m.done(b)
	m.Either = e
	return m
}

// R40 is a selected vertical intention.
func R40(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "vertical intention", "SelectedVerticalIntention", &o)
	mcp, v1 := value(m, b, "MCP altitude", 1, 2, 12, 0, 4095)
	b.Bool("MCPFCUSelectedAltitudeAvailable", mcp)
	b.Int("MCPFCUSelectedAltitude", v1*16)
	fms, v2 := value(m, b, "FMS altitude", 14, 15, 12, 0, 4095)
	b.Bool("FMSSelectedAltitudeAvailable", fms)
	b.Int("FMSSelectedAltitude", v2*16)
	ba, v3 := value(m, b, "pressure", 27, 28, 12, 0, 4095)
	b.Bool("BarometricPressureSettingAvailable", ba)
	if ba {
		b.Flt("BarometricPressureSetting", 800+0.1*float64(v3), 1e-3)
	} else {
		b.Int("BarometricPressureSetting", 0)
	}
	b.Enum("StatusOfModeBits", 48, 1)
	b.Flag("VNAVMode", 49)
	b.Flag("AltitudeHoldMode", 50)
	b.Flag("ApproachMode", 51)
	b.Enum("StatusOfTargetAltitudeSource", 54, 1)
	b.Enum("TargetAltitudeSource", 55, 2)
	m.Either = m.Either || !mcp && !fms && !ba
	return m.fin(b)
}

// fin keeps the permission to be left out.
func (m *Reg) fin(b *B) *Reg {
	e := m.Either
	m.done(b)
	m.Either = m.Either || e
	return m
}

// R44 is a meteorological routine report in the current layout (source 0: version 1, source 1 to 4: version 2).
func R44(g *core.Rng, o RegOpt) *Reg {
	src := g.Intn(5)
	typ := "MeteorologicalRoutineAirReportV2"
	if src == 0 {
		typ = "MeteorologicalRoutineAirReportV1"
	}
	m, b := newReg(g, "meteorological routine", typ, &o)
	b.Put(1, 4, uint64(src))
	if src > 0 {
		b.Int("Source", int64(src))
	}
	ws, v := value(m, b, "wind speed", 5, 6, 9, 0, 250)
	b.Bool("WindSpeedStatus", ws)
	b.Int("WindSpeed", v)
	wd, v := value(m, b, "wind direction", 15, 16, 8, 0, 255)
	b.Bool("WindDirectionStatus", wd)
	b.Flt("WindDirection", float64(v)*180/128, 1e-3)
	t, v := value(m, b, "temperature", 24, 25, 11, -640, 480)
	b.Bool("StaticAirTemperatureStatus", t)
	b.Flt("StaticAirTemperature", float64(v)*0.125, 1e-3)
	p, v := value(m, b, "static pressure", 36, 37, 11, 0, 2047)
	b.Bool("AverageStaticPressureStatus", p)
	b.Int("AverageStaticPressure", v)
	b.Enum("TurbulenceFlag", 48, 1)
	h, v := value(m, b, "humidity", 49, 50, 7, 0, 100)
	b.Bool("HumidityStatus", h)
	b.Flt("Humidity", float64(v), 1e-3)
	m.Either = m.Either || !ws && !wd && !t && !p && !h
	return m.fin(b)
}

// R44V0 is a meteorological routine report in the layout of ICAO Doc 9871. Unless it is read directly, the temperature is
// above zero, for which the content is not also a coherent report of the other layout.
func R44V0(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "meteorological routine of version 0", "MeteorologicalRoutineAirReportV0", &o)
	m.Direct = o.Direct
	src := 1 + int(b.DrawN("source", 4))
	b.Put(1, 4, uint64(src))
	b.Int("Source", int64(src))
	w := b.Draw("wind status", 1) == 1
	ws := limited(b, "wind speed", 9, 0, 250)
	wd := limited(b, "wind direction", 9, 0, 511)
	if !w {
		ws, wd = 0, 0
	}
	b.Put(5, 1, b2u(w))
	b.Put(6, 9, uint64(ws))
	b.Put(15, 9, uint64(wd))
	b.Bool("WindSpeedStatus", w)
	b.Bool("WindDirectionStatus", w)
	b.Int("WindSpeed", ws)
	b.Flt("WindDirection", float64(wd)*180/256, 1e-3)
	lo := int64(-320)
	if !o.Direct {
		lo = 1
	}
	t := limited(b, "temperature", 11, lo, 240)
	b.Put(24, 11, uint64(t)&0x7FF)
	b.Flt("StaticAirTemperature", float64(t)*0.25, 1e-3)
	p, v := value(m, b, "static pressure", 35, 36, 11, 0, 2047)
	b.Bool("AverageStaticPressureStatus", p)
	b.Int("AverageStaticPressure", v)
	tu, v := value(m, b, "turbulence", 47, 48, 2, 0, 3)
	b.Bool("TurbulenceStatus", tu)
	b.Int("Turbulence", v)
	h, v := value(m, b, "humidity", 50, 51, 6, 0, 63)
	b.Bool("HumidityStatus", h)
	b.Flt("Humidity", float64(v)*100/64, 1e-3)
	m.Either = m.Either || !w && !p && !tu && !h
	return m.fin(b)
}

// R45 is a meteorological hazard report in the current layout.
func R45(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "meteorological hazard", "MeteorologicalHazardReportV1", &o)
	any := false
	for i, n := range []string{"WindShear", "MicroBurst", "Icing", "WakeVortex"} {
		s, v := value(m, b, n, 1+3*i, 2+3*i, 2, 0, 3)
		b.Bool(n+"Status", s)
		b.Int(n, v)
		any = any || s
	}
	t, v := value(m, b, "temperature", 13, 14, 11, -640, 480)
	b.Bool("StaticAirTemperatureStatus", t)
	b.Flt("StaticAirTemperature", float64(v)*0.125, 1e-3)
	b.Bool("AverageStaticPressureStatus", false)
	rh, v := value(m, b, "radio height", 25, 26, 12, 0, 4095)
	b.Bool("RadioHeightStatus", rh)
	b.Int("RadioHeight", v*2)
	tu := b.Draw("turbulence status", 1) == 1
	a, p, d := b.Draw("average", 6), b.Draw("peak", 6), b.Draw("delay", 4)
	if !tu {
		a, p, d = 0, 0, 0
	}
	b.Put(38, 1, b2u(tu))
	b.Put(39, 6, a)
	b.Put(45, 6, p)
	b.Put(51, 4, d)
	b.Bool("TurbulenceStatus", tu)
	b.Bool("GetTurbulenceStatus()", tu)
	b.Flt("TurbulenceAverageEDR", float64(a)*0.02, 1e-3)
	b.Flt("TurbulencePeakEDR", float64(p)*0.02, 1e-3)
	b.Int("TurbulencePeakDelayInterval", int64(d))
	m.Either = m.Either || !any && !t && !rh && !tu
	return m.fin(b)
}

// R45V0 is a meteorological hazard report in the layout of ICAO Doc 9871. Unless it is read directly, the pressure is even
// and the radio height known, so that the content is not also a coherent report of the other layout.
func R45V0(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "meteorological hazard of version 0", "MeteorologicalHazardReportV0", &o)
	m.Direct = o.Direct
	any := false
	for i, n := range []string{"Turbulence", "WindShear", "MicroBurst", "Icing", "WakeVortex"} {
		s, v := value(m, b, n, 1+3*i, 2+3*i, 2, 0, 3)
		b.Bool(n+"Status", s)
		b.Int(n, v)
		any = any || s
	}
	b.Bool("GetTurbulenceStatus()", GetBits(b.Bits, 1, 1) == 1)
	t, v := value(m, b, "temperature", 16, 17, 10, -320, 240)
	b.Bool("StaticAirTemperatureStatus", t)
	b.Flt("StaticAirTemperature", float64(v)*0.25, 1e-3)
	p, v := value(m, b, "static pressure", 27, 28, 11, 0, 2047)
	if !o.Direct {
		v &^= 1
		b.Put(28, 11, uint64(v))
	}
	b.Bool("AverageStaticPressureStatus", p)
	b.Int("AverageStaticPressure", v)
	rh, v := value(m, b, "radio height", 39, 40, 12, 0, 4095)
	if !o.Direct && !rh {
		b.Put(39, 1, 1)
		rh = true
	}
	b.Bool("RadioHeightStatus", rh)
	b.Int("RadioHeight", v*16)
	m.Either = m.Either || !any && !t && !p && !rh
	return m.fin(b)
}

// R50 is a track and turn report.
func R50(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "track and turn", "TrackAndTurnReport", &o)
	ro, v := value(m, b, "roll", 1, 2, 10, -284, 284)
	b.Bool("RollAngleStatus", ro)
	b.Flt("RollAngle", float64(v)*45/256, 1e-3)
	tr, v := value(m, b, "track", 12, 13, 11, -1024, 1023)
	b.Bool("TrueTrackAngleStatus", tr)
	b.Exp = append(b.Exp, Exp{Path: b.p("TrueTrackAngle"), Kind: KAngle, Lo: float64(v) * 90 / 512, Hi: 1e-3})
	gs, v1 := value(m, b, "ground speed", 24, 25, 10, 0, 300)
	b.Bool("GroundSpeedStatus", gs)
	b.Int("GroundSpeed", v1*2)
	ra, v := value(m, b, "track rate", 35, 36, 10, -512, 511)
	b.Bool("TrackAngleRateStatus", ra)
	b.Flt("TrackAngleRate", float64(v)*8/256, 1e-3)
	ta, v2 := value(m, b, "true air speed", 46, 47, 10, 0, 250)
	if gs && ta { // wind below 200 kt
		if v2 > v1+100 {
			v2 = v1 + 100
		}
		if v2 < v1-100 {
			v2 = v1 - 100
		}
		b.Put(47, 10, uint64(v2))
	}
	b.Bool("TrueAirSpeedStatus", ta)
	b.Int("TrueAirSpeed", v2*2)
	m.Either = m.Either || !ro && !tr && !gs && !ra && !ta
	return m.fin(b)
}

// R60 is a heading and speed report.
func R60(g *core.Rng, o RegOpt) *Reg {
	m, b := newReg(g, "heading and speed", "HeadingAndTrackReport", &o)
	h, v := value(m, b, "heading", 1, 2, 11, -1024, 1023)
	b.Bool("MagneticHeadingStatus", h)
	b.Exp = append(b.Exp, Exp{Path: b.p("MagneticHeading"), Kind: KAngle, Lo: float64(v) * 90 / 512, Hi: 1e-3})
	ia, v := value(m, b, "air speed", 13, 14, 10, 0, 500)
	b.Bool("IndicatedAirSpeedStatus", ia)
	b.Int("IndicatedAirSpeed", v)
	ma, v := value(m, b, "mach", 24, 25, 10, 0, 249)
	b.Bool("MachStatus", ma)
	b.Flt("Mach", float64(v)*2.048/512, 1e-4)
	br, v := value(m, b, "barometric rate", 35, 36, 10, -187, 187)
	b.Bool("BarometricAltitudeRateStatus", br)
	b.Int("BarometricAltitudeRate", v*32)
	iv, v := value(m, b, "inertial rate", 46, 47, 10, -187, 187)
	b.Bool("InitialVerticalVelocityStatus", iv)
	b.Int("InitialVerticalVelocity", v*32)
	m.Either = m.Either || !h && !ia && !ma && !br && !iv
	return m.fin(b)
}

// valueAt is where a register has a value and the status that says whether it is available.
type valueAt struct {
	name           string
	status, pos, n int
}

func hazards(names ...string) (o []valueAt) {
	for i, n := range names {
		o = append(o, valueAt{n, 1 + 3*i, 2 + 3*i, 2})
	}
	return
}

var (
	routine = []valueAt{{"wind speed", 5, 6, 9}, {"wind direction", 15, 16, 8}, {"temperature", 24, 25, 11}, {"static pressure", 36, 37, 11},
		{"humidity", 49, 50, 7}}
	routineV0 = []valueAt{{"wind speed", 5, 6, 9}, {"wind direction", 5, 15, 9}, {"static pressure", 35, 36, 11}, {"turbulence", 47, 48, 2},
		{"humidity", 50, 51, 6}}
	// An unavailable temperature that is given is tolerated (a unit test of the repository has one, as received).
	hazard = append(hazards("wind shear", "microburst", "icing", "wake vortex"), []valueAt{{"radio height", 25, 26, 12},
		{"average turbulence", 38, 39, 6}, {"peak turbulence", 38, 45, 6}, {"turbulence delay", 38, 51, 4}}...)
	hazardV0 = append(hazards("turbulence", "wind shear", "microburst", "icing", "wake vortex"), []valueAt{{"temperature", 16, 17, 10},
		{"static pressure", 27, 28, 11}, {"radio height", 39, 40, 12}}...)
	intention = []valueAt{{"MCP altitude", 1, 2, 12}, {"FMS altitude", 14, 15, 12}, {"pressure", 27, 28, 12}}
	track     = []valueAt{{"roll", 1, 2, 10}, {"track", 12, 13, 11}, {"ground speed", 24, 25, 10}, {"track rate", 35, 36, 10}, {"true air speed", 46, 47, 10}}
	heading   = []valueAt{{"heading", 1, 2, 11}, {"air speed", 13, 14, 10}, {"mach", 24, 25, 10}, {"barometric rate", 35, 36, 10},
		{"inertial rate", 46, 47, 10}}
)

// Broken is a reply whose content is not one of a register: it breaks the fixed or reserved bits, has a reserved code, or
// gives a value that it says is not available.
func Broken(g *core.Rng) *Reg {
	not := func(m *Reg, why string) *Reg {
		m.Not, m.Kind = m.Type, m.Kind+" with "+why
		m.Exp, m.Direct = nil, false
		return m
	}
	bit := func(m *Reg, bits ...int) *Reg {
		p := bits[g.Intn(len(bits))]
		m.Part[(p-1)/8] ^= 0x80 >> uint((p-1)%8)
		return not(m, "a reserved bit set")
	}
	put := func(m *Reg, pos, n int, v uint64) {
		for i := 0; i < n; i++ {
			p := pos - 1 + i
			m.Part[p/8] &^= 0x80 >> uint(p%8)
			if v>>uint(n-1-i)&1 == 1 {
				m.Part[p/8] |= 0x80 >> uint(p%8)
			}
		}
	}
	code := func(m *Reg, name string, pos, n int, lo, hi uint64) *Reg {
		put(m, pos, n, lo+uint64(g.Intn(int(hi-lo)+1)))
		return not(m, "a reserved "+name)
	}
	given := func(m *Reg, at []valueAt) *Reg {
		v := at[g.Intn(len(at))]
		put(m, v.status, 1, 0)
		x := 1 + uint64(g.Intn(1<<uint(v.n)-1))
		if g.Bool() {
			x = 1 << uint(g.Intn(v.n))
		}
		put(m, v.pos, v.n, x)
		return not(m, "an unavailable "+v.name+" given")
	}
	span := func(a, b int) (o []int) {
		for i := a; i <= b; i++ {
			o = append(o, i)
		}
		return
	}
	o := RegOpt{}
	switch g.Intn(24) {
	case 0:
		return bit(R00(g, o), span(1, 56)...)
	case 1:
		return bit(R07(g, o), span(4, 56)...)
	case 2:
		return bit(R10(g, o), append(span(1, 8), span(10, 14)...)...)
	case 3:
		return bit(R17(g, o), span(30, 56)...)
	case 4:
		return bit(R20(g, o), span(1, 8)...)
	case 5:
		return bit(R30(g, o), span(1, 8)...)
	case 6:
		return bit(R40(g, o), append(span(40, 47), 52, 53)...)
	case 7:
		return bit(R45(g, o), 55, 56)
	case 8:
		return code(R07(g, o), "transmission rate", 1, 2, 3, 3)
	case 9:
		m := R10(g, o)
		switch g.Intn(5) {
		case 0:
			return code(m, "subnetwork version", 17, 7, 6, 127)
		case 1:
			return code(m, "uplink throughput", 26, 3, 7, 7)
		case 2:
			return code(m, "downlink throughput", 29, 4, 7, 15)
		case 3:
			put(m, 16, 1, 1)
			return code(m, "ACAS document", 39, 2, 3, 3)
		}
		put(m, 16, 1, 0)
		put(m, 37, 4, 1+uint64(g.Intn(15)))
		return not(m, "details of an ACAS that is not there")
	case 10, 11:
		m := R20(g, o)
		at := g.Intn(8)
		bad := []uint64{0, 27, 28, 29, 30, 31}
		for c := uint64(33); c < 64; c++ {
			if c < 48 || c > 57 {
				bad = append(bad, c)
			}
		}
		put(m, 9+6*at, 6, bad[g.Intn(len(bad))])
		return not(m, "a character that is not one")
	case 12, 13:
		return given(R40(g, o), intention)
	case 14, 15:
		return given(R44(g, o), routine)
	case 16:
		return given(R44V0(g, o), routineV0)
	case 17, 18:
		return given(R45(g, o), hazard)
	case 19:
		return given(R45V0(g, o), hazardV0)
	case 20, 21:
		return given(R50(g, o), track)
	}
	return given(R60(g, o), heading)
}

// AnyReg draws the content of a register.
func AnyReg(g *core.Rng, o RegOpt) *Reg {
	switch g.Intn(24) {
	case 0:
		return R00(g, o)
	case 1, 2:
		return R07(g, o)
	case 3, 4:
		return R10(g, o)
	case 5, 6:
		return R17(g, o)
	case 7, 8:
		return R20(g, o)
	case 9, 10:
		return R30(g, o)
	case 11, 12, 13:
		return R40(g, o)
	case 14, 15:
		return R44(g, o)
	case 16:
		o.Direct = g.Bool()
		return R44V0(g, o)
	case 17, 18:
		return R45(g, o)
	case 19:
		o.Direct = g.Bool()
		return R45V0(g, o)
	case 20, 21:
		return R50(g, o)
	}
	return R60(g, o)
}
