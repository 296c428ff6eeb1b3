package checks

import (
	"fmt"
	"strings"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C04: altitude and identity codes through every carrier.
type c04 struct {
	craft []c04craft
}

type c04craft struct {
	addr  uint32
	v     int
	kind  int // how the altitude moves and is encoded
	start int
	rate  int // steps per slot
	ident int
}

type c04meta struct {
	f *ref.Frame
	m *ref.Msg
}

func (m *c04) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	for i := g.Range(1, 4); i > 0; i-- {
		m.craft = append(m.craft, c04craft{uint32(g.Bits(24)), g.Intn(3), g.Intn(4), g.Intn(2048), g.Range(-9, 9), g.Intn(4096)})
	}
}

// aboutCodes tells whether an expectation is about an altitude or an identity.
func aboutCodes(path string) bool {
	return (strings.Contains(path, "Altitude") || strings.Contains(path, "Identity") || strings.Contains(path, "ModeACode")) && path != "AltitudeSource"
}

func mod(a, n int) int { return (a%n + n) % n }

// code is the altitude code an aircraft sends in a slot.
func (c *c04craft) code(g *core.Rng, slot int) uint64 {
	k := c.start + slot*c.rate
	switch c.kind {
	case 0: // a climb or descent in 25-foot increments
		return ref.Alt25(-1000 + 25*mod(k, 2048))
	case 1: // in 100-foot increments
		n := (ref.MaxGillham-ref.MinGillham)/100 + 1
		return ref.Gillham(ref.MinGillham + 100*mod(k, n))
	case 2: // whatever code
		return g.Uniform(13)
	}
	return uint64(mod(k, 8192)) // a defect altimeter runs through all codes
}

func (m *c04) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	c := &m.craft[g.Intn(len(m.craft))]
	at := int64(slot) * 400 * core.Millisecond
	code := c.code(g, slot)
	id := mod(c.ident+slot*c.rate, 4096)
	if g.P(0.3) {
		id = int(g.Uniform(12))
	}
	digits := [4]int{id >> 9 & 7, id >> 6 & 7, id >> 3 & 7, id & 7}
	if g.P(0.1) {
		digits = [][4]int{{7, 7, 0, 0}, {7, 6, 0, 0}, {7, 5, 0, 0}, {2, 0, 0, 0}}[g.Intn(4)]
	}
	var out []core.Emission
	add := func(f *ref.Frame, x *ref.Msg, kind string) {
		f.Exp = only(f.Exp, aboutCodes)
		if x != nil {
			x.Exp = only(x.Exp, aboutCodes)
		}
		out = append(out, core.Emission{At: at, Src: int(c.addr), Kind: fmt.Sprintf("%s from %06X", kind, c.addr), Frame: f.Bytes, Meta: &c04meta{f, x}})
		at += int64(g.Intn(40)) * core.Millisecond
	}
	for _, df := range []int{0, 4, 16, 20} {
		add(ref.ModeS(g, df, c.addr, g.Bytes(7), 0, ref.HeaderOpt{Alt: &code}), nil, fmt.Sprintf("DF%d with altitude code %04X", df, code))
	}
	for _, df := range []int{5, 21} {
		add(ref.ModeS(g, df, c.addr, g.Bytes(7), 0, ref.HeaderOpt{Ident: &digits}), nil, fmt.Sprintf("DF%d with identity %v", df, digits))
	}
	a12 := ref.Alt12(code)
	o := ref.MsgOpt{Alt12: &a12, Ident: &digits}
	for _, x := range []*ref.Msg{ref.AirPos(g, c.v, o), ref.AirPos0(g, c.v, o), ref.NoPos(g, c.v, o), ref.Emergency(g, c.v, o)} {
		cf := 0
		add(ref.ModeS(g, 17+g.Intn(2), c.addr, x.Part, 0, ref.HeaderOpt{CF: &cf}), x, fmt.Sprintf("%s with altitude code %03X, identity %v", x.Kind, a12, digits))
	}
	return out
}

func (m *c04) Deliver(r *core.Run, d *core.Delivery) {
	if d.Em == nil || !d.Clean {
		hear(r, d)
		return
	}
	me := d.Em.Meta.(*c04meta)
	if me.m != nil {
		if part := hear(r, d); part != nil {
			judge(r, me.m, part)
		}
		return
	}
	msg, err, p := sut.ReadMessage(d.Frame)
	if p != "" {
		r.Fail("panic", "reading %X panics: %s", d.Frame, p)
		return
	}
	b := ref.GetBits(d.Frame, 20, 13)
	r.Distinct(core.Mix(uint64(me.f.DF), b))
	if me.f.Ident != "" {
		r.Count("identities decoded")
	} else {
		r.Count("altitudes decoded")
	}
	checkFrame(r, me.f, msg, err)
}

func (m *c04) Restart(r *core.Run, rx int) {}
func (m *c04) Finish(r *core.Run)          {}

func init() {
	register(&Spec{ID: "C04", New: func() core.Model { return &c04{} }, Slots: 100, Quick: 40000, Thorough: 500000, Unit: "frame with an altitude or identity code arriving at a receiver",
		Rule:   "A case is one undamaged frame with an altitude or identity code arriving at a receiver; distinct by carrier and code (by message for squitters); non-trivial as the value is compared with the one encoded, and the absence of a value for codes that have none.",
		Real:   []string{"pkg/modes/reader", "pkg/modes/fields", "pkg/bitutils", "pkg/adsb/reader", "pkg/bds/bds05", "pkg/bds/bds61"},
		Stub:   []string{"altimeters and transponders (reference encoder)", "radio channel"},
		Assume: []string{"codes below -1000 ft may be refused or decoded", "in squitters the identity is the 13-bit code itself"}})
}
