package ref

import (
	"math"

	"vsim/core"
)

// Msg is the 56-bit message part of a squitter or a register, with what must be read from it.
type Msg struct {
	Kind    string
	Version int  // version it must be read at
	A, C    bool // supplements it must be read with
	Part    []byte
	Exp     []Exp
	Draws   []Draw
	Refuse  bool // must be refused
	Either  bool // refusal is acceptable
	TC      int
	BSup    bool // NIC supplement B, in airborne positions of version 2
	AltKind int
	Alt     int
	Odd     int
	Lat     uint32
	Lon     uint32
	// what an operational status declares
	AnnVersion int
	AnnA, AnnC bool
	HasC       bool
}

// MsgOpt fixes what is otherwise drawn.
type MsgOpt struct {
	Force    map[int]uint64
	TC       int // 0: drawn
	Alt12    *uint64
	Lat, Lon *uint32
	Odd      *int
	A, C     *bool
	BSup     *bool
	Ident    *[4]int
	RA       *RA
	Illegal  bool // make a message that must be refused
}

func newMsg(g *core.Rng, kind string, v int, o *MsgOpt) (*Msg, *B) {
	b := NewB(g, 7)
	b.Force = o.Force
	return &Msg{Kind: kind, Version: v}, b
}

func (m *Msg) done(b *B) *Msg {
	m.Part, m.Exp, m.Draws = b.Bits, b.Exp, b.Draws
	return m
}

var identChars = "#ABCDEFGHIJKLMNOPQRSTUVWXYZ##### ###############0123456789######"

// CallSign writes a call sign of 8 characters in 6-bit codes from bit 9 and expects it at path.
func CallSign(b *B, path string, legalOnly bool) (string, bool) {
	s := ""
	legal := true
	for i := 0; i < 8; i++ {
		var c uint64
		if legalOnly || b.G.P(0.95) {
			const ok = "ABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789"
			n := b.DrawN("character", len(ok))
			ch := ok[int(n)%len(ok)]
			for k := 0; k < 64; k++ {
				if identChars[k] == ch {
					c = uint64(k)
				}
			}
		} else {
			c = b.Draw("code", 6)
		}
		b.Put(9+6*i, 6, c)
		ch := identChars[c]
		if ch == '#' {
			legal = false
		}
		s += string(ch)
	}
	b.Str(path, s)
	return s, legal
}

// Ident is an aircraft identification and category squitter.
func Ident(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "identification", v, &o)
	m.TC = 1 + int(b.DrawN("type code", 4))
	b.Put(1, 5, uint64(m.TC))
	b.Type("", "AircraftIdentificationAndCategory")
	b.Int("FormatTypeCode", int64(m.TC))
	cat := b.Field("category", 6, 3)
	b.Int("Category", int64(cat))
	b.Str("Category.GetCategorySetName()", [...]string{"", "Set D (Reserved)", "Set C", "Set B", "Set A"}[m.TC])
	b.Int("GetADSBVersion()", int64(v))
	_, legal := CallSign(b, "Identification", false)
	if !legal || m.TC == 1 || m.TC == 2 && cat > 3 {
		b.Err("CheckCoherency()")
	} else {
		b.Nil("CheckCoherency()")
	}
	return m.done(b)
}

var airTC = []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}

// AirPos is an airborne position squitter.
func AirPos(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "airborne position", v, &o)
	m.TC = o.TC
	if m.TC == 0 {
		m.TC = airTC[b.DrawN("type code", len(airTC))]
	}
	b.Type("", [...]string{"AirbornePositionV0", "AirbornePositionV1", "AirbornePositionV2"}[v])
	b.Put(1, 5, uint64(m.TC))
	b.Int("FormatTypeCode", int64(m.TC))
	b.Int("GetADSBVersion()", int64(v))
	b.Enum("SurveillanceStatus", 6, 2)
	var saf uint64
	if o.BSup != nil {
		saf = b2u(*o.BSup)
	} else {
		saf = b.Draw("antenna flag", 1)
	}
	b.Put(8, 1, saf)
	m.BSup = saf == 1
	b.Int("SingleAntennaFlag", int64(saf))
	src := int64(0)
	if m.TC >= 20 {
		src = 1
	}
	b.Int("AltitudeSource", src)
	m.A = drawBool(b, "NIC supplement A", o.A)
	if v > 0 {
		b.Bool("NavigationIntegrityCodeSupplementA", m.A)
	}
	if v == 2 {
		b.Int("NavigationIntegrityCodeSupplementB", int64(saf))
	}
	m.airCommon(b, &o)
	b.Nil("CheckCoherency()")
	return m.done(b)
}

func drawBool(b *B, name string, p *bool) bool {
	if p != nil {
		return *p
	}
	return b.Draw(name, 1) == 1
}

func b2u(v bool) uint64 {
	if v {
		return 1
	}
	return 0
}

// AirPos0 is an airborne position of type code 0: a position without integrity, with barometric altitude.
func AirPos0(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "airborne position of type 0", v, &o)
	b.Type("", "AirbornePositionType0")
	b.Int("FormatTypeCode", 0)
	b.Int("GetADSBVersion()", int64(v))
	b.Enum("SurveillanceStatus", 6, 2)
	b.Enum("SingleAntennaFlag", 8, 1)
	b.Int("AltitudeSource", 0)
	b.Int("NavigationIntegrityCategory", 0)
	m.airCommon(b, &o)
	if m.Lat == 0 && m.Lon == 0 { // that would be a message without position
		b.Put(40, 17, 1)
		for i := range b.Exp {
			if b.Exp[i].Path == "EncodedLongitude" {
				b.Exp[i].I = 1
			}
		}
	}
	return m.done(b)
}

func (m *Msg) airCommon(b *B, o *MsgOpt) {
	m.altitude12(b, o, true)
	b.Enum("Time", 21, 1)
	m.cpr(b, o)
}

func (m *Msg) altitude12(b *B, o *MsgOpt, method bool) {
	var code uint64
	if o.Alt12 != nil {
		code = *o.Alt12
	} else {
		switch b.G.Intn(6) {
		case 0, 1:
			code = Alt12(Alt25(-1000 + 25*b.G.Intn(2048)))
		case 2, 3:
			for {
				c := Gillham(MinGillham + 100*b.G.Intn((MaxGillham-MinGillham)/100+1))
				if c&pD1 == 0 {
					code = Alt12(c)
					break
				}
			}
		case 4:
			code = b.G.Uniform(12)
		default:
			code = b.G.Bits(12)
		}
		code = b.rec("altitude code", 12, code)
	}
	b.Put(9, 12, code)
	m.AltKind, m.Alt = AltOf(Alt13(code))
	path := "AltitudeInFeet"
	if !method {
		path = "AltitudeBarometric"
	}
	switch m.AltKind {
	case AltNone, AltIllegal:
		m.Refuse = true // not available: the library reports an error, there is no altitude to report
	case Alt100, AltEither:
		m.Either = m.AltKind == AltEither
		b.Int(path, int64(m.Alt))
		if method {
			b.Int("AltitudeReportMethod", 0)
		}
	case Alt25ft:
		b.Int(path, int64(m.Alt))
		if method {
			b.Int("AltitudeReportMethod", 1)
		}
	}
}

func (m *Msg) cpr(b *B, o *MsgOpt) {
	if o.Odd != nil {
		m.Odd = *o.Odd
	} else {
		m.Odd = int(b.Draw("format", 1))
	}
	b.Put(22, 1, uint64(m.Odd))
	b.Int("CPRFormat", int64(m.Odd))
	if o.Lat != nil {
		m.Lat, m.Lon = *o.Lat, *o.Lon
	} else {
		m.Lat, m.Lon = uint32(b.Draw("latitude", 17)), uint32(b.Draw("longitude", 17))
	}
	b.Put(23, 17, uint64(m.Lat))
	b.Put(40, 17, uint64(m.Lon))
	b.Int("EncodedLatitude", int64(m.Lat))
	b.Int("EncodedLongitude", int64(m.Lon))
}

// NoPos is a message without position information.
func NoPos(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "no position information", v, &o)
	b.Type("", "NoPositionInformation")
	b.Int("FormatTypeCode", 0)
	b.Int("GetADSBVersion()", int64(v))
	b.Int("NavigationIntegrityCategory", 0)
	b.Field("(status bits)", 6, 3)
	m.altitude12(b, &o, false)
	b.Nil("CheckCoherency()")
	return m.done(b)
}

// Movement gives the bounds of the speed of a surface movement code, in knots, and whether there is a speed.
func Movement(code int) (lo, hi float64, ok bool) {
	at := func(c int) float64 {
		switch {
		case c <= 1:
			return 0
		case c <= 8:
			return 0.125 * float64(c-1)
		case c <= 12:
			return 1 + 0.25*float64(c-9)
		case c <= 38:
			return 2 + 0.5*float64(c-13)
		case c <= 93:
			return 15 + float64(c-39)
		case c <= 108:
			return 70 + 2*float64(c-94)
		case c <= 123:
			return 100 + 5*float64(c-109)
		}
		return 175
	}
	switch {
	case code == 1:
		return 0, 0, true
	case code >= 2 && code <= 123:
		return at(code), math.Nextafter(at(code+1), 0), true
	case code == 124:
		return 175, 175, true
	}
	return 0, 0, false
}

// SurfPos is a surface position squitter.
func SurfPos(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "surface position", v, &o)
	m.TC = o.TC
	if m.TC == 0 {
		m.TC = 5 + int(b.DrawN("type code", 4))
	}
	b.Type("", [...]string{"SurfacePositionV0", "SurfacePositionV1", "SurfacePositionV2"}[v])
	b.Put(1, 5, uint64(m.TC))
	b.Int("FormatTypeCode", int64(m.TC))
	b.Int("GetADSBVersion()", int64(v))
	mv := int(b.Field("movement", 6, 7))
	b.Int("MovementStatus", int64(mv))
	if lo, hi, ok := Movement(mv); ok {
		b.In("MovementSpeed", lo, hi)
	} else {
		b.Flt("MovementSpeed", 0, 0)
	}
	st := b.Flag("GroundTrackStatus", 13)
	tr := b.Field("ground track", 14, 7)
	if st {
		b.Flt("GroundTrack", float64(tr)*360/128, 1e-4)
	}
	b.Enum("Time", 21, 1)
	m.A = drawBool(b, "NIC supplement A", o.A)
	m.C = drawBool(b, "NIC supplement C", o.C)
	m.cpr(b, &o)
	return m.done(b)
}

func numeric(b *B, name, path, status string, pos, n int, lsb float64, neg bool, max float64) (v float64, regular bool) {
	raw := b.Field(name, pos, n)
	top := uint64(1)<<uint(n) - 1
	sign := 1.0
	if neg {
		sign = -1
	}
	switch raw {
	case 0:
		b.Int(status, 0)
		b.Flt(path, 0, 0)
		return 0, false
	case top:
		b.Int(status, 2)
		b.Flt(path, sign*max, 0)
		return 0, false
	}
	b.Int(status, 1)
	v = sign * lsb * float64(raw-1)
	b.Flt(path, v, 0)
	return v, true
}

// Velocity is an airborne velocity squitter of subtype 1 to 4.
func Velocity(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "velocity", v, &o)
	st := 1 + int(b.DrawN("subtype", 4))
	m.Kind = [...]string{"", "ground speed", "supersonic ground speed", "air speed", "supersonic air speed"}[st]
	b.Type("", "AirborneVelocity")
	b.Int("GetADSBVersion()", int64(v))
	b.Pre = "AirborneVelocity"
	b.Type("", [...]string{"", "AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic", "AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic"}[st])
	b.Put(1, 5, 19)
	b.Put(6, 3, uint64(st))
	b.Int("FormatTypeCode", 19)
	b.Int("Subtype", int64(st))
	b.Int("GetSubtype()", int64(st))
	b.Enum("IntentChange", 9, 1)
	b.Enum("IFRCapability", 10, 1)
	b.Enum("NavigationUncertaintyCategory", 11, 3)
	lsb, max := 1.0, 1023.0
	if st == 2 || st == 4 {
		lsb, max = 4, 4088
	}
	if st <= 2 {
		w := b.Field("west", 14, 1)
		b.Int("DirectionEastWest", int64(w))
		ew, ok1 := numeric(b, "east-west speed", "VelocityEW", "VelocityEWStatus", 15, 10, lsb, false, max)
		s := b.Field("south", 25, 1)
		b.Int("DirectionNorthSouth", int64(s))
		ns, ok2 := numeric(b, "north-south speed", "VelocityNS", "VelocityNSStatus", 26, 10, lsb, false, max)
		if ok1 && ok2 {
			sp := math.Hypot(ew, ns)
			b.In("GetSpeed()", sp-1, sp+1)
			if w == 1 {
				ew = -ew
			}
			if s == 1 {
				ns = -ns
			}
			if ew != 0 || ns != 0 {
				tr := math.Atan2(ew, ns) * 180 / math.Pi
				if tr < 0 {
					tr += 360
				}
				b.Flt("GetTrack()", tr, 1e-3)
			}
		} else {
			b.Err("GetSpeed()")
			b.Err("GetTrack()")
		}
	} else {
		h := b.Enum("MagneticHeadingStatus", 14, 1)
		hd := b.Field("heading", 15, 10)
		if h == 1 {
			b.Flt("MagneticHeading", float64(hd)*360/1024, 1e-3)
		}
		b.Field("(true air speed)", 25, 1)
		numeric(b, "air speed", "Airspeed", "AirspeedStatus", 26, 10, lsb, false, max)
	}
	b.Enum("VerticalRateSource", 36, 1)
	neg := b.Field("descending", 37, 1) == 1
	numeric(b, "vertical rate", "VerticalRate", "VerticalRateStatus", 38, 9, 64, neg, 32640)
	b.Field("(reserved)", 47, 2)
	neg = b.Field("below", 49, 1) == 1
	p := "DifferenceAltitudeGNSSBaro"
	if st > 2 {
		p = "HeightDifferenceFromBaro"
	}
	numeric(b, "height difference", p, p+"Status", 50, 7, 25, neg, 3150)
	b.Nil("CheckCoherency()")
	return m.done(b)
}

// VelocityReserved is a velocity message of a reserved subtype.
func VelocityReserved(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "velocity of reserved subtype", v, &o)
	copy(b.Bits, g.Bytes(7))
	b.Put(1, 5, 19)
	b.Put(6, 3, []uint64{0, 5, 6, 7}[g.Intn(4)])
	m.Refuse = true
	return m.done(b)
}

// Reserved is a message of a reserved type code.
func Reserved(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "reserved type code", v, &o)
	copy(b.Bits, g.Bytes(7))
	b.Put(1, 5, []uint64{23, 24, 25, 26, 27, 30}[g.Intn(6)])
	m.Refuse = true
	return m.done(b)
}

// Emergency is an aircraft status squitter of subtype 1.
func Emergency(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "emergency status", v, &o)
	b.Type("", "AircraftStatus")
	b.Int("GetADSBVersion()", int64(v))
	b.Pre = "AircraftStatus"
	b.Type("", "AircraftStatusEmergency")
	b.Put(1, 5, 28)
	b.Put(6, 3, 1)
	b.Int("FormatTypeCode", 28)
	b.Int("Subtype", 1)
	if b.Enum("EmergencyPriorityStatus", 9, 3) == 7 {
		b.Err("CheckCoherency()")
	} else {
		b.Nil("CheckCoherency()")
	}
	var code uint64
	if o.Ident != nil {
		d := *o.Ident
		code = Identity(d[0], d[1], d[2], d[3])
	} else {
		d := int(b.Draw("identity", 12))
		code = Identity(d>>9&7, d>>6&7, d>>3&7, d&7)
	}
	b.Put(12, 13, code)
	b.Int("ModeACode", int64(code))
	if o.Illegal {
		b.Put(25+g.Intn(32), 1, 1)
		m.Refuse = true
		m.Kind = "emergency status with reserved bits"
	}
	return m.done(b)
}

// StatusNoInfo is an aircraft status squitter of subtype 0.
func StatusNoInfo(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "status without information", v, &o)
	b.Type("", "AircraftStatus")
	b.Int("GetADSBVersion()", int64(v))
	b.Pre = "AircraftStatus"
	b.Type("", "AircraftStatusNoInformation")
	b.Put(1, 5, 28)
	b.Int("FormatTypeCode", 28)
	b.Int("Subtype", 0)
	e := b.Enum("EmergencyPriorityStatus", 9, 3)
	if e != 0 {
		b.Err("CheckCoherency()")
	} else {
		b.Nil("CheckCoherency()")
	}
	if o.Illegal {
		b.Put(12+g.Intn(45), 1, 1)
		m.Refuse = true
		m.Kind = "status without information with reserved bits"
	}
	return m.done(b)
}

// StatusReserved is an aircraft status of a reserved subtype.
func StatusReserved(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "aircraft status of reserved subtype", v, &o)
	copy(b.Bits, g.Bytes(7))
	b.Put(1, 5, 28)
	b.Put(6, 3, uint64(3+g.Intn(5)))
	m.Refuse = true
	return m.done(b)
}

// RABroadcast is a resolution advisory broadcast (aircraft status subtype 2).
func RABroadcast(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "resolution advisory broadcast", v, &o)
	b.Type("", "AircraftStatus")
	b.Int("GetADSBVersion()", int64(v))
	b.Pre = "AircraftStatus"
	b.Type("", "AircraftStatusACAS")
	b.Put(1, 5, 28)
	b.Put(6, 3, 2)
	b.Int("FormatTypeCode", 28)
	b.Int("Subtype", 2)
	b.Pre = "AircraftStatus.ResolutionAdvisory"
	m.Either = PutRA(b, 9, o.RA)
	return m.done(b)
}

// TargetState0 is a target state and status squitter of subtype 0.
func TargetState0(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "target state 0", v, &o)
	b.Type("", "TargetStateAndStatus")
	b.Int("GetADSBVersion()", int64(v))
	b.Pre = "TargetStateAndStatus"
	b.Type("", "TargetStateAndStatus0")
	b.Put(1, 5, 29)
	b.Int("FormatTypeCode", 29)
	b.Int("Subtype", 0)
	b.Enum("VerticalDataAvailableSourceIndicator", 8, 2)
	b.Enum("TargetAltitudeType", 10, 1)
	b.Field("(compatibility flag)", 11, 1)
	b.Enum("TargetAltitudeCapability", 12, 2)
	b.Enum("VerticalModeIndicator", 14, 2)
	a := b.Field("target altitude", 16, 10)
	if a <= 1010 {
		b.Int("TargetAltitudeStatus", 1)
		b.Int("TargetAltitude", int64(a)*100-1000)
	} else {
		b.Int("TargetAltitudeStatus", 2)
		b.Int("TargetAltitude", 0)
	}
	b.Enum("HorizontalDataAvailableSourceIndicator", 26, 2)
	h := b.Field("target heading", 28, 9)
	if h <= 359 {
		b.Int("TargetHeadingTrackAngleStatus", 1)
		b.Int("TargetHeadingTrackAngle", int64(h))
	} else {
		b.Int("TargetHeadingTrackAngleStatus", 2)
		b.Int("TargetHeadingTrackAngle", 0)
	}
	b.Enum("TargetHeadingTrackIndicator", 37, 1)
	b.Enum("HorizontalModeIndicator", 38, 2)
	b.Enum("NavigationalAccuracyCategoryPosition", 40, 4)
	b.Enum("NICBaro", 44, 1)
	b.Enum("SurveillanceIntegrityLevel", 45, 2)
	b.Enum("CapabilityModeCode", 52, 2)
	b.Enum("EmergencyPriorityStatus", 54, 3)
	if o.Illegal {
		b.Put(47+g.Intn(5), 1, 1)
		m.Refuse = true
		m.Kind = "target state 0 with reserved bits"
	}
	return m.done(b)
}

// TargetState1 is a target state and status squitter of subtype 1.
func TargetState1(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "target state 1", v, &o)
	b.Type("", "TargetStateAndStatus")
	b.Int("GetADSBVersion()", int64(v))
	b.Pre = "TargetStateAndStatus"
	b.Type("", "TargetStateAndStatus1")
	b.Put(1, 5, 29)
	b.Put(6, 2, 1)
	b.Int("FormatTypeCode", 29)
	b.Int("Subtype", 1)
	b.Enum("SourceIntegrityLevelSupplement", 8, 1)
	b.Enum("SelectedAltitudeType", 9, 1)
	a := b.Field("selected altitude", 10, 11)
	if a == 0 {
		b.Int("SelectedAltitudeStatus", 0)
		b.Int("SelectedAltitude", 0)
	} else {
		b.Int("SelectedAltitudeStatus", 1)
		b.Int("SelectedAltitude", int64(a-1)*32)
	}
	p := b.Field("pressure setting", 21, 9)
	if p == 0 {
		b.Int("BarometricPressureSettingStatus", 0)
		b.Flt("BarometricPressureSetting", 0, 0)
	} else {
		b.Int("BarometricPressureSettingStatus", 1)
		b.Flt("BarometricPressureSetting", 800+0.8*float64(p-1), 1e-3)
	}
	hs := b.Enum("SelectedHeadingStatus", 30, 1)
	h := b.Field("selected heading", 31, 9)
	if hs == 1 {
		b.Exp = append(b.Exp, Exp{Path: b.p("SelectedHeading"), Kind: KAngle, Lo: float64(h) * 180 / 256, Hi: 1e-3})
	}
	b.Enum("NavigationalAccuracyCategoryPosition", 40, 4)
	b.Enum("NICBaro", 44, 1)
	b.Enum("SourceIntegrityLevel", 45, 2)
	mcp := b.Enum("StatusMCPFCUBits", 47, 1)
	avail := func(path string, pos int) {
		v := b.Field(path, pos, 1) == 1
		if mcp == 1 {
			b.Bool(path, v)
		}
	}
	avail("AutopilotEngaged", 48)
	avail("VNAVModeEngaged", 49)
	avail("AltitudeHoldModeEngaged", 50)
	b.Field("(ADS-R)", 51, 1)
	avail("ApproachModeEngaged", 52)
	b.Flag("TCASACASOperational", 53)
	avail("LNAVModeEngaged", 54)
	b.Field("(reserved)", 55, 2)
	return m.done(b)
}

// TargetStateReserved is a target state and status message of a reserved subtype.
func TargetStateReserved(g *core.Rng, v int, o MsgOpt) *Msg {
	m, b := newMsg(g, "target state of reserved subtype", v, &o)
	copy(b.Bits, g.Bytes(7))
	b.Put(1, 5, 29)
	b.Put(6, 2, uint64(2+g.Intn(2)))
	m.Refuse = true
	return m.done(b)
}

// OpStatus is an aircraft operational status squitter announcing version ann (0, 1, 2), airborne or surface.
func OpStatus(g *core.Rng, reader, ann int, surface bool, o MsgOpt) *Msg {
	m, b := newMsg(g, "operational status", reader, &o)
	m.AnnVersion = ann
	name := [...]string{"AircraftOperationalStatusADSB0", "AircraftOperationalStatusAirborneADSB1", "AircraftOperationalStatusAirborneADSB2"}[ann]
	if surface && ann > 0 {
		name = [...]string{"", "AircraftOperationalStatusSurfaceADSB1", "AircraftOperationalStatusSurfaceADSB2"}[ann]
	}
	m.Kind = name
	b.Type("", "AircraftOperationalStatus")
	b.Int("GetADSBVersion()", int64(ann))
	b.Pre = "AircraftOperationalStatus"
	b.Type("", name)
	b.Int("GetADSBLevel()", int64(ann))
	b.Put(1, 5, 31)
	b.Int("FormatTypeCode", 31)
	if ann == 0 {
		b.Enum("EnRouteOperationalCapabilities", 9, 4)
		b.Enum("TerminalAreaOperationalCapabilities", 13, 4)
		b.Enum("ApproachLandingOperationalCapabilities", 17, 4)
		b.Enum("SurfaceOperationalCapabilities", 21, 4)
		b.Enum("EnRouteOperationalCapabilityStatus", 25, 4)
		b.Enum("TerminalAreaOperationalCapabilityStatus", 29, 4)
		b.Enum("ApproachLandingOperationalCapabilityStatus", 33, 4)
		b.Enum("SurfaceOperationalCapabilityStatus", 37, 4)
		b.Int("Subtype", 0)
		if o.Illegal {
			m.Refuse = true
			if g.Bool() {
				b.Put(6, 3, uint64(g.Range(1, 7)))
			} else {
				b.Put(44+g.Intn(13), 1, 1)
			}
			m.Kind += " with reserved bits"
		}
		return m.done(b)
	}
	b.Put(6, 3, b2u(surface))
	b.Int("Subtype", int64(b2u(surface)))
	b.Put(41, 3, uint64(ann))
	b.Int("VersionNumber", int64(ann))
	sup := "NICSupplement"
	if ann == 2 {
		sup = "NICSupplementA"
	}
	cc := "AirborneCapabilityClass."
	if surface {
		cc = "SurfaceCapabilityClass."
	}
	switch {
	case ann == 1 && !surface:
		b.Enum(cc+"NotACASStatus", 11, 1)
		b.Enum(cc+"CockpitDisplayOfTrafficInformationStatus", 12, 1)
		b.Enum(cc+"AirReferencedVelocityReportCapability", 15, 1)
		b.Enum(cc+"TargetStateReportCapability", 16, 1)
		b.Enum(cc+"TargetChangeReportCapability", 17, 2)
		b.Field("(reserved)", 19, 6)
	case ann == 1:
		b.Enum(cc+"PositionOffsetApplied", 11, 1)
		b.Enum(cc+"CockpitDisplayOfTrafficInformationStatus", 12, 1)
		b.Enum(cc+"B2Low", 15, 1)
		b.Field("(reserved)", 16, 5)
	case !surface:
		b.Enum(cc+"ACASOperational", 11, 1)
		b.Enum(cc+"ExtendedSquitterIn", 12, 1)
		b.Enum(cc+"AirReferencedVelocityReportCapability", 15, 1)
		b.Enum(cc+"TargetStateReportCapability", 16, 1)
		b.Enum(cc+"TargetChangeReportCapability", 17, 2)
		b.Enum(cc+"UniversalAccessTransceiverCapability", 19, 1)
		b.Field("(reserved)", 20, 5)
	default:
		b.Enum(cc+"ExtendedSquitterIn", 12, 1)
		b.Enum(cc+"B2Low", 15, 1)
		b.Enum(cc+"UniversalAccessTransceiverCapability", 16, 1)
		b.Enum(cc+"NavigationAccuracyCategoryVelocity", 17, 3)
		c := drawBool(b, "NIC supplement C", o.C)
		b.Put(20, 1, b2u(c))
		b.Int(cc+"NICSupplementC", int64(b2u(c)))
		m.HasC, m.AnnC = true, c
	}
	if surface {
		b.Enum("LengthAndWidth", 21, 4)
	}
	b.Enum("OperationalMode.ACASResolutionAdvisoryActive", 27, 1)
	b.Enum("OperationalMode.IdentSwitchActive", 28, 1)
	if ann == 1 {
		b.Enum("OperationalMode.ReceivingATCServices", 29, 1)
		b.Field("(reserved)", 30, 11)
	} else {
		b.Field("(reserved)", 29, 1)
		b.Enum("OperationalMode.SingleAntennaFlag", 30, 1)
		b.Enum("OperationalMode.SystemDesignAssurance", 31, 2)
		if surface {
			b.Enum("OperationalMode.GPSAntenna.GPSAntennaLateral", 33, 3)
			b.Enum("OperationalMode.GPSAntenna.GPSAntennaLongitudinal", 36, 5)
		} else {
			b.Field("(reserved)", 33, 8)
		}
	}
	m.AnnA = drawBool(b, "NIC supplement A", o.A)
	b.Put(44, 1, b2u(m.AnnA))
	b.Int(sup, int64(b2u(m.AnnA)))
	b.Enum("NavigationalAccuracyCategoryPosition", 45, 4)
	if ann == 2 && !surface {
		b.Enum("GeometricVerticalAccuracy", 49, 2)
	}
	if ann == 1 {
		b.Enum("SurveillanceIntegrityLevel", 51, 2)
	} else {
		b.Enum("SourceIntegrityLevel", 51, 2)
		b.Enum("SourceIntegrityLevelSupplement", 55, 1)
	}
	if surface {
		b.Enum("TrackAngleHeading", 53, 1)
	} else {
		b.Enum("NICBaro", 53, 1)
	}
	b.Enum("HorizontalReferenceDirection", 54, 1)
	if o.Illegal {
		m.Refuse = true
		m.Kind += " with reserved values"
		switch g.Intn(4) {
		case 0:
			b.Put(41, 3, uint64(g.Range(3, 7)))
		case 1:
			b.Put(6, 3, uint64(g.Range(2, 7)))
		case 2:
			b.Put(25, 2, uint64(g.Range(1, 3)))
		default:
			b.Put(9, 2, uint64(g.Range(1, 3)))
		}
	}
	return m.done(b)
}
