package checks

import (
	"fmt"
	"strings"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// squitters: a fleet puts extended squitters on the air, receivers decode them from the frame up.
type squitters struct {
	gen   func(g *core.Rng, v int) *ref.Msg
	fleet []craft
}

type craft struct {
	addr    uint32
	version int
	df      int
}

func (m *squitters) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := g.Range(1, 8); i > 0; i-- {
		m.fleet = append(m.fleet, craft{uint32(g.Bits(24)), g.Intn(3), 17 + g.Intn(2)})
	}
}

type sqMeta struct {
	c *craft
	m *ref.Msg
	f *ref.Frame
}

func squitter(g *core.Rng, c *craft, m *ref.Msg, at int64) core.Emission {
	cf := 0
	f := ref.ModeS(g, c.df, c.addr, m.Part, 0, ref.HeaderOpt{CF: &cf})
	return core.Emission{At: at, Src: int(c.addr), Kind: fmt.Sprintf("%s, version %d, from %06X", m.Kind, m.Version, c.addr), Frame: f.Bytes, Meta: &sqMeta{c, m, f}}
}

func (m *squitters) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	c := &m.fleet[g.Intn(len(m.fleet))]
	return []core.Emission{squitter(g, c, m.gen(g, c.version), int64(slot)*50*core.Millisecond)}
}

// hear reads an undamaged squitter down to its message part.
func hear(r *core.Run, d *core.Delivery) []byte {
	msg, err, p := sut.ReadMessage(d.Frame)
	if p != "" {
		r.Fail("panic", "reading %X panics: %s", d.Frame, p)
		return nil
	}
	if !d.Clean || d.Em == nil {
		return nil
	}
	if err != nil {
		r.Fail("frame-refused", "the undamaged frame %X (%s) is refused: %v", d.Frame, d.Em.Kind, err)
		return nil
	}
	part := sut.Part(msg)
	if part == nil {
		r.Fail("no-part", "the frame %X (%s) hands on no message part", d.Frame, d.Em.Kind)
	}
	return part
}

// judge compares the decoding of a message part with what was sent.
func judge(r *core.Run, me *ref.Msg, part []byte) (interface{}, bool) {
	a, err, p := sut.ReadADSB(me.Version, me.A, me.C, part)
	what := fmt.Sprintf("%s %X at version %d", me.Kind, part, me.Version)
	if p != "" {
		r.Fail("panic", "%s: reading panics: %s", what, p)
		return nil, false
	}
	r.Distinct(core.HashBytes(uint64(me.Version)*4+b2u(me.A)*2+b2u(me.C), part))
	r.Count("messages " + me.Kind)
	if me.Refuse {
		r.Count("checks")
		if err == nil && !isNilMsg(a) {
			r.Fail("not-refused:"+me.Kind, "%s is accepted as a %s", what, ref.TypeName(a))
		}
		return nil, false
	}
	if err != nil || isNilMsg(a) {
		if me.Either {
			return nil, false
		}
		r.Fail("refused:"+me.Kind, "%s is refused: %v", what, err)
		return nil, false
	}
	if !expect(r, me.Kind, what, a, me.Exp) {
		return a, false
	}
	// The coherency of the content is the one of the message that carries it.
	for _, e := range me.Exp {
		if !strings.HasSuffix(e.Path, "CheckCoherency()") {
			continue
		}
		c, ok := a.(interface{ CheckCoherency() error })
		if !ok {
			break
		}
		var cerr error
		if p := guard(func() { cerr = c.CheckCoherency() }); p != "" || (cerr != nil) != (e.Kind == ref.KErr) {
			r.Fail("coherency:"+me.Kind, "%s: the coherency is not the one of its content: %v%s", what, cerr, p)
			return a, false
		}
	}
	return a, true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *squitters) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	judge(r, d.Em.Meta.(*sqMeta).m, part)
}

func (m *squitters) Restart(r *core.Run, rx int) {}
func (m *squitters) Finish(r *core.Run)          {}

func init() {
	register(&Spec{ID: "C05", New: func() core.Model {
		return &squitters{gen: func(g *core.Rng, v int) *ref.Msg {
			switch g.Intn(12) {
			case 0, 1:
				return ref.Ident(g, v, ref.MsgOpt{})
			case 2, 3, 4:
				return ref.AirPos(g, v, ref.MsgOpt{})
			case 5:
				return ref.AirPos0(g, v, ref.MsgOpt{})
			case 6:
				return ref.NoPos(g, v, ref.MsgOpt{})
			case 7, 8:
				return ref.SurfPos(g, v, ref.MsgOpt{})
			case 9:
				if g.P(0.3) {
					return ref.VelocityReserved(g, v, ref.MsgOpt{})
				}
				if g.P(0.3) {
					return ref.Reserved(g, v, ref.MsgOpt{})
				}
			}
			return ref.Velocity(g, v, ref.MsgOpt{})
		}}
	}, Slots: 200, Quick: 90000, Thorough: 1400000, Unit: "squitter arriving at a receiver",
		Rule:   "A case is one undamaged squitter arriving at a receiver; distinct by message bits, version and supplements; non-trivial as every field is compared with what the reference encoder sent.",
		Real:   []string{"pkg/modes/reader", "pkg/adsb/reader", "pkg/adsb/*", "pkg/bds/bds05", "pkg/bds/bds06", "pkg/bds/bds08", "pkg/bds/bds09"},
		Stub:   []string{"aircraft (reference encoder)", "radio channel"},
		Assume: []string{"message layouts are those of ICAO Doc 9871 and DO-260/A/B"}})
	register(&Spec{ID: "C06", New: func() core.Model {
		return &squitters{gen: func(g *core.Rng, v int) *ref.Msg {
			ill := g.P(0.1)
			switch g.Intn(12) {
			case 0:
				return ref.Emergency(g, v, ref.MsgOpt{Illegal: ill})
			case 1:
				if g.P(0.5) {
					return ref.StatusReserved(g, v, ref.MsgOpt{})
				}
				return ref.StatusNoInfo(g, v, ref.MsgOpt{Illegal: ill})
			case 2:
				if g.P(0.3) {
					return ref.TargetStateReserved(g, v, ref.MsgOpt{})
				}
				return ref.TargetState0(g, v, ref.MsgOpt{Illegal: ill})
			case 3:
				return ref.TargetState0(g, v, ref.MsgOpt{})
			case 4, 5, 6:
				return ref.TargetState1(g, v, ref.MsgOpt{})
			}
			return ref.OpStatus(g, v, v, g.Bool(), ref.MsgOpt{Illegal: ill})
		}}
	}, Slots: 200, Quick: 90000, Thorough: 1400000, Unit: "squitter arriving at a receiver",
		Rule:   "A case is one undamaged squitter arriving at a receiver; distinct by message bits, version and supplements; non-trivial as every field is compared with what the reference encoder sent.",
		Real:   []string{"pkg/modes/reader", "pkg/adsb/reader", "pkg/adsb/aircraft_status", "pkg/adsb/target_state_and_status", "pkg/adsb/aircraft_operational_status", "pkg/bds/bds61", "pkg/bds/bds62", "pkg/bds/bds65"},
		Stub:   []string{"aircraft (reference encoder)", "radio channel"},
		Assume: []string{"message layouts are those of ICAO Doc 9871 and DO-260A/B"}})
}
