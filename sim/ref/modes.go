package ref

import "vsim/core"

// Frame is a Mode S frame as sent, with what a receiver must read from it.
type Frame struct {
	DF      int
	Kind    string
	Bytes   []byte // with parity
	Exp     []Exp  // on the decoded Mode S message
	Addr    uint32 // what the integrity check must return
	Err     bool   // the decoder must refuse the frame
	NoAlt   bool   // refused, or reported without an altitude
	Either  bool   // refusal is acceptable, otherwise the expectations hold
	Part    []byte // message part carried
	Draws   []Draw
	Alt     int
	AltKind int
	Ident   string
}

// HeaderOpt fixes some of the fields of a header instead of drawing them.
type HeaderOpt struct {
	Alt   *uint64 // 13-bit altitude code
	Ident *[4]int
	Force map[int]uint64
	Seg   *int // ELM segment number
	KE    *int
	CF    *int
}

func (f *Frame) finish(b *B, overlay uint32) *Frame {
	f.Bytes = Seal(b.Bits, overlay)
	f.Exp = b.Exp
	f.Draws = b.Draws
	return f
}

var dfType = map[int]string{0: "MessageDF0", 4: "MessageDF4", 5: "MessageDF5", 11: "MessageDF11", 16: "MessageDF16", 17: "MessageDF17",
	18: "MessageDF18", 19: "MessageDF19", 20: "MessageDF20", 21: "MessageDF21", 24: "MessageDF24"}

// DrawAltCode draws a 13-bit altitude code, covering all classes.
func DrawAltCode(b *B) uint64 {
	switch b.G.Intn(8) {
	case 0, 1, 2:
		return b.rec("altitude code", 13, Alt25(-1000+25*b.G.Intn(2048)))
	case 3, 4, 5:
		return b.rec("altitude code", 13, Gillham(MinGillham+100*b.G.Intn((MaxGillham-MinGillham)/100+1)))
	case 6:
		return b.rec("altitude code", 13, b.G.Uniform(13))
	default:
		return b.Draw("altitude code", 13)
	}
}

func (f *Frame) altitude(b *B, o HeaderOpt) {
	var code uint64
	if o.Alt != nil {
		code = *o.Alt
	} else {
		code = DrawAltCode(b)
	}
	b.Put(20, 13, code)
	f.AltKind, f.Alt = AltOf(code)
	switch f.AltKind {
	case AltNone:
		b.Int("AltitudeReportMethod", 1)
		b.Int("Altitude", 0)
	case AltMetric:
		b.Int("AltitudeReportMethod", 2)
		b.Int("Altitude", 0)
	case Alt100:
		b.Int("AltitudeReportMethod", 3)
		b.Int("Altitude", int64(f.Alt))
	case Alt25ft:
		b.Int("AltitudeReportMethod", 4)
		b.Int("Altitude", int64(f.Alt))
	case AltIllegal:
		f.NoAlt = true
		f.Either = true
		b.Int("AltitudeReportMethod", 1)
		b.Int("Altitude", 0)
	case AltEither:
		f.Either = true
		b.Int("AltitudeReportMethod", 3)
		b.Int("Altitude", int64(f.Alt))
	}
}

func (f *Frame) identity(b *B, o HeaderOpt) {
	var d [4]int
	if o.Ident != nil {
		d = *o.Ident
	} else if b.G.P(0.2) {
		d = [][4]int{{7, 7, 0, 0}, {7, 6, 0, 0}, {7, 5, 0, 0}, {2, 0, 0, 0}, {7, 7, 7, 7}, {0, 0, 0, 0}, {7, 0, 7, 0}, {0, 7, 0, 7}, {0, 0, 7, 7}, {2, 0, 0, 1}, {7, 7, 0, 1}}[b.G.Intn(11)]
		b.rec("identity", 12, uint64(d[0]<<9|d[1]<<6|d[2]<<3|d[3]))
	} else {
		v := b.Draw("identity", 12)
		d = [4]int{int(v >> 9), int(v >> 6 & 7), int(v >> 3 & 7), int(v & 7)}
	}
	b.Put(20, 13, Identity(d[0], d[1], d[2], d[3]))
	f.Ident = Digits(d[0], d[1], d[2], d[3])
	b.Str("Identity.Identity", f.Ident)
	b.Bool("Identity.IsSpecialEmergency()", f.Ident == "7700")
	b.Bool("Identity.IsSpecialRadiocommunicationFailure()", f.Ident == "7600")
	b.Bool("Identity.IsSpecialUnlawfulInterference()", f.Ident == "7500")
	b.Bool("Identity.IsSpecialInstructionNotReceived()", f.Ident == "2000")
}

// ModeS builds one frame of a downlink format. part is the message carried by the long formats (7 bytes; 10 for the
// extended length messages); overlay is the interrogator code of an all-call reply.
func ModeS(g *core.Rng, df int, addr uint32, part []byte, overlay uint32, o HeaderOpt) *Frame {
	f := &Frame{DF: df, Addr: addr, Part: part}
	n := 4
	if df >= 16 {
		n = 11
	}
	b := NewB(g, n)
	b.Force = o.Force
	b.Type("", dfType[df])
	b.Int("GetDownLinkFormat()", int64(df))
	if df < 24 {
		b.Put(1, 5, uint64(df))
	}
	partExp := func(path string) {
		copy(b.Bits[4:], part)
		b.Raw(path, part)
	}
	ov := addr
	switch df {
	case 0, 16:
		f.Kind = "air-air surveillance"
		b.Enum("VerticalStatus", 6, 1)
		if df == 0 {
			b.Enum("CrossLinkCapability", 7, 1)
		} else {
			b.Field("(unassigned)", 7, 1)
		}
		b.Field("(unassigned)", 8, 1)
		b.Enum("SensitivityLevel", 9, 3)
		b.Field("(unassigned)", 12, 2)
		b.Enum("ReplyInformation", 14, 4)
		b.Field("(unassigned)", 18, 2)
		f.altitude(b, o)
		if df == 16 {
			partExp("MessageACAS")
		}
	case 4, 5, 20, 21:
		f.Kind = "surveillance"
		b.Enum("FlightStatus", 6, 3)
		b.Enum("DownlinkRequest", 9, 5)
		b.Enum("UtilityMessage.InterrogatorIdentifier", 14, 4)
		b.Enum("UtilityMessage.IdentifierDesignator", 18, 2)
		if df == 4 || df == 20 {
			f.altitude(b, o)
		} else {
			f.identity(b, o)
		}
		if df >= 20 {
			f.Kind = "comm-b"
			partExp("MessageCommB")
		}
	case 11:
		f.Kind = "all-call reply"
		b.Enum("Capability", 6, 3)
		b.Put(9, 24, uint64(addr))
		b.Int("AddressAnnounced.Address", int64(addr))
		ov, f.Addr = overlay, overlay
	case 17:
		f.Kind = "extended squitter"
		b.Enum("Capability", 6, 3)
		b.Put(9, 24, uint64(addr))
		b.Int("AddressAnnounced.Address", int64(addr))
		partExp("MessageExtendedSquitter")
		ov = 0
	case 18:
		f.Kind = "extended squitter/non transponder"
		if o.CF != nil {
			b.Put(6, 3, uint64(*o.CF))
			b.Int("ControlField", int64(*o.CF))
		} else {
			b.Enum("ControlField", 6, 3)
		}
		b.Put(9, 24, uint64(addr))
		b.Int("AddressAnnounced.Address", int64(addr))
		partExp("MessageExtendedSquitter")
		ov = 0
	case 19:
		f.Kind = "military extended squitter"
		b.Enum("ApplicationField", 6, 3)
		for i := 4; i < 11; i++ {
			b.Bits[i] = byte(g.U64())
		}
	case 24:
		f.Kind = "extended length message"
		// bits 1-2 are the format; bit 3 is unassigned, bit 4 the control, bits 5-8 the segment number
		b.Put(1, 2, 3)
		b.Field("(unassigned)", 3, 1)
		if o.KE != nil {
			b.Put(4, 1, uint64(*o.KE))
			b.Int("ControlELM", int64(*o.KE))
		} else {
			b.Enum("ControlELM", 4, 1)
		}
		if o.Seg != nil {
			b.Put(5, 4, uint64(*o.Seg))
			b.Int("NumberOfDSegment", int64(*o.Seg))
		} else {
			b.Enum("NumberOfDSegment", 5, 4)
		}
		copy(b.Bits[1:], part)
		b.Raw("MessageCommD", part)
	}
	return f.finish(b, ov)
}
