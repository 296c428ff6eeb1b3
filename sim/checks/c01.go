package checks

import (
	"fmt"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C01: integrity and attribution.
type c01 struct {
	addrs []uint32
	iis   []uint32
	lists []c01lists
}

type c01lists struct {
	addr, ii   map[sut.Addr]bool
	addrR, iiR map[uint32]bool // the model's own copy
}

var allDF = []int{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}

func (m *c01) Setup(r *core.Run) {
	g := r.Rng
	switch g.Intn(5) {
	case 0:
		r.Prof = core.Profile{Name: "fault-free"}
	case 1:
		r.Prof = core.Profile{Name: "bit-errors", BitErr: 0.8, MaxBitErr: 5}
	case 2:
		r.Prof = core.Profile{Name: "bursts", Burst: 0.8, BurstHeavyMax: 24}
	case 3:
		r.Prof = core.Profile{Name: "mixed", BitErr: 0.3, MaxBitErr: 5, Burst: 0.4, BurstHeavyMax: 24, Loss: 0.1, Dup: 0.1, Delay: 0.2, MaxDelay: core.Second, Noise: 0.2}
	default:
		r.Prof = core.Profile{Name: "heavy", BitErr: 0.2, MaxBitErr: 40, Burst: 0.2, BurstHeavyMax: 112, Garble: 0.3, Noise: 0.3}
	}
	n := g.Range(1, 12)
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && g.P(0.5): // a neighbour of an earlier address
			m.addrs = append(m.addrs, m.addrs[g.Intn(i)]^(1<<uint(g.Intn(24))))
		default:
			m.addrs = append(m.addrs, uint32(g.Bits(24)))
		}
	}
	for i := 0; i < 4; i++ {
		if g.Bool() {
			m.iis = append(m.iis, uint32(g.Uniform(4))) // II code
		} else {
			m.iis = append(m.iis, uint32(g.Uniform(7))) // CL and IC of an SI code
		}
	}
	r.NRx = 3
	for rx := 0; rx < 3; rx++ {
		l := c01lists{addrR: map[uint32]bool{}, iiR: map[uint32]bool{}}
		if rx == 0 {
			l.addrR, l.iiR = nil, nil
			if g.Bool() {
				l.addr, l.ii = map[sut.Addr]bool{}, map[sut.Addr]bool{}
			}
		} else {
			l.addr, l.ii = map[sut.Addr]bool{}, map[sut.Addr]bool{}
			for _, a := range m.addrs {
				if g.Bool() {
					l.addrR[a] = true
					l.addr[sut.Addr(a)] = true
				}
			}
			for _, a := range m.iis {
				if g.Bool() {
					l.iiR[a] = true
					l.ii[sut.Addr(a)] = true
				}
			}
			if rx == 2 && g.P(0.1) {
				// a receiver that knows many
				for n := 1 << uint(g.Range(4, 12)); n > 0; n-- {
					a := uint32(g.Bits(24))
					l.addrR[a] = true
					l.addr[sut.Addr(a)] = true
				}
				for n := 1 << uint(g.Range(2, 7)); n > 0; n-- {
					a := uint32(g.Uniform(7))
					l.iiR[a] = true
					l.ii[sut.Addr(a)] = true
				}
			}
		}
		m.lists = append(m.lists, l)
	}
}

func (m *c01) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	df := allDF[g.Intn(len(allDF))]
	if g.P(0.4) {
		df = 17 + g.Intn(2)
	}
	n := 7
	if df == 24 {
		n = 10
	}
	a := m.addrs[g.Intn(len(m.addrs))]
	code := Alt()
	f := ref.ModeS(g, df, a, g.Bytes(n), m.iis[g.Intn(len(m.iis))], ref.HeaderOpt{Alt: &code})
	return []core.Emission{{At: int64(slot) * 5 * core.Millisecond, Src: int(a), Kind: fmt.Sprintf("DF%d from %06X", df, a), Frame: f.Bytes, Meta: f}}
}

// Alt is a valid altitude code, for when the altitude does not matter.
func Alt() uint64 { return ref.Alt25(38000) }

func (m *c01) Deliver(r *core.Run, d *core.Delivery) {
	msg, err, p := sut.ReadMessage(d.Frame)
	if p != "" {
		r.Fail("panic", "reading %X panics: %s", d.Frame, p)
		return
	}
	var f *ref.Frame
	if d.Em != nil {
		f = d.Em.Meta.(*ref.Frame)
	}
	if err != nil {
		if d.Clean {
			r.Fail("refused", "the undamaged frame %X (%s) is refused: %v", d.Frame, d.Em.Kind, err)
		}
		r.Count("frames refused by the reader")
		return
	}
	l := m.lists[d.Rx]
	a, err, p := sut.CheckCRC(msg, d.Frame, l.addr, l.ii)
	if p != "" {
		r.Fail("panic", "checking %X panics: %s", d.Frame, p)
		return
	}
	df := msg.GetDownLinkFormat()
	n := len(d.Frame)
	overlay := ref.CRC24(d.Frame[:n-3]) ^ (uint32(d.Frame[n-3])<<16 | uint32(d.Frame[n-2])<<8 | uint32(d.Frame[n-1]))
	st := "damaged"
	if d.Clean {
		st = "undamaged"
	}
	r.Distinct(core.HashBytes(uint64(df)*64+uint64(d.BitErrs), d.Frame))
	ok := true
	var want uint32
	switch df {
	case 17, 18:
		ok = overlay == 0
		want = uint32(d.Frame[1])<<16 | uint32(d.Frame[2])<<8 | uint32(d.Frame[3])
		if f != nil && (f.DF == 17 || f.DF == 18) && !d.Clean && ((d.Damage == core.FBitErr && d.BitErrs <= 5) || (d.Damage == core.FBurst && d.Burst <= 24)) {
			ok = false
			r.Count("damaged extended squitters that must be rejected")
		}
	case 11:
		want = overlay
		if len(l.iiR) > 0 {
			ok = l.iiR[overlay]
		}
	default:
		want = overlay
		if len(l.addrR) > 0 {
			ok = l.addrR[overlay]
		}
	}
	if d.Clean && f != nil {
		if df != f.DF {
			r.Fail("format", "the undamaged frame %X sent as DF%d is read as DF%d", d.Frame, f.DF, df)
			return
		}
		if want != f.Addr {
			r.Fail("oracle", "reference model disagrees with itself on %X", d.Frame)
			return
		}
	}
	if ok && err != nil {
		r.Fail("wrongly-rejected", "the %s frame %X (DF%d, from %06X, list of %d addresses and %d interrogators) is rejected: %v", st, d.Frame, df, want, len(l.addrR), len(l.iiR), err)
		return
	}
	if !ok && err == nil {
		r.Fail("wrongly-accepted", "the %s frame %X (DF%d, %s %d bits, resolves to %06X, list of %d addresses and %d interrogators) passes the integrity check as %06X", st, d.Frame, df, d.Damage, d.BitErrs, overlay, len(l.addrR), len(l.iiR), uint32(a))
		return
	}
	if ok && uint32(a) != want {
		r.Fail("attribution", "the %s frame %X (DF%d) is attributed to %06X, it is from %06X", st, d.Frame, df, uint32(a), want)
		return
	}
	if err == nil {
		r.Count("frames accepted")
	} else {
		r.Count("frames rejected by the integrity check")
	}
	r.Count("checks")
	r.Note(uint64(a))
}

func (m *c01) Restart(r *core.Run, rx int) {}
func (m *c01) Finish(r *core.Run) {
	// the lists still are what they were
	for i, l := range m.lists {
		if i == 0 {
			continue
		}
		if len(l.addr) != len(l.addrR) || len(l.ii) != len(l.iiR) {
			r.Fail("list-changed", "the allow-list of receiver %d was changed by the integrity check", i)
		}
	}
}

func init() {
	register(&Spec{ID: "C01", New: func() core.Model { return &c01{} }, Slots: 200, Quick: 110000, Thorough: 1200000, Unit: "frame arriving at a receiver",
		Rule:   "A case is one frame arriving at a receiver with an allow-list; distinct by bytes, format and damage; non-trivial as the verdict (accepted or rejected, and the address) is computed independently for each.",
		Real:   []string{"pkg/modes/reader (ReadMessage, CheckCRC)", "pkg/modes/messages", "pkg/modes/fields"},
		Stub:   []string{"transponders (reference encoder with independent CRC)", "radio channel", "receivers' allow-lists"},
		Assume: []string{"damage is within the detection guarantee of the Mode S code (<=5 bits or one burst <=24 bits) when rejection is demanded by the damage alone"}})
}
