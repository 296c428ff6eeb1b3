package checks

import (
	"bytes"
	"fmt"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C03: Mode S replies.
type c03 struct {
	addrs []uint32
	elms  []*c03elm
	rx    []map[uint32]*c03asm
}

// c03elm is an extended length message an aircraft delivers by segments.
type c03elm struct {
	addr uint32
	data [][]byte // message parts of 80 bits
}

// c03asm is what a receiver has gathered.
type c03asm struct {
	seg  map[int][]byte
	last map[int]bool // numbers that really arrived, undamaged
}

var refusedDF = []int{1, 2, 3, 6, 7, 8, 9, 10, 12, 13, 14, 15, 22, 23}

func (m *c03) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := 0; i < 12; i++ {
		m.addrs = append(m.addrs, uint32(g.Bits(24)))
	}
	for i := 0; i < 4; i++ {
		e := &c03elm{addr: 0x100000*uint32(i+1) + uint32(g.Uniform(16))}
		n := g.Range(2, 16)
		for k := 0; k < n; k++ {
			e.data = append(e.data, g.Bytes(10))
		}
		m.elms = append(m.elms, e)
	}
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, map[uint32]*c03asm{})
	}
}

type c03meta struct {
	f   *ref.Frame
	elm *c03elm
	seg int
}

func (m *c03) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	at := int64(slot) * 10 * core.Millisecond
	switch g.Intn(10) {
	case 0, 1: // some segments of an extended length message, as requested by the interrogator
		e := m.elms[g.Intn(len(m.elms))]
		var out []core.Emission
		for k := g.Range(1, 4); k > 0; k-- {
			s := g.Intn(len(e.data))
			ke := 0
			f := ref.ModeS(g, 24, e.addr, e.data[s], 0, ref.HeaderOpt{Seg: &s, KE: &ke})
			out = append(out, core.Emission{At: at, Kind: fmt.Sprintf("ELM of %06X, segment %d", e.addr, s), Frame: f.Bytes, Meta: &c03meta{f, e, s}})
			at += 136 * core.Microsecond
		}
		return out
	case 2: // a format or a length that does not exist
		var b []byte
		if g.Bool() {
			df := refusedDF[g.Intn(len(refusedDF))]
			b = g.Bytes([]int{4, 11}[g.Intn(2)])
			b[0] = byte(df)<<3 | b[0]&7
		} else {
			n := []int{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 15, 16, 21, 28}[g.Intn(17)]
			b = g.Bytes(n)
			if g.Bool() && n > 0 {
				b[0] = byte(allDF[g.Intn(len(allDF))])<<3 | b[0]&7
			}
			return []core.Emission{{At: at, Kind: fmt.Sprintf("frame of %d bytes", n), Frame: b, Meta: &c03meta{}}}
		}
		return []core.Emission{{At: at, Kind: fmt.Sprintf("unassigned format DF%d", b[0]>>3), Frame: ref.Seal(b, m.addrs[0]), Meta: &c03meta{}}}
	case 3: // an existing format in a frame of the other length
		df := allDF[g.Intn(len(allDF))]
		n := 11
		if df >= 16 {
			n = 4
		}
		b := g.Bytes(n)
		b[0] = byte(df)<<3 | b[0]&7
		return []core.Emission{{At: at, Kind: fmt.Sprintf("DF%d in %d bytes", df, n+3), Frame: ref.Seal(b, m.addrs[0]), Meta: &c03meta{}}}
	}
	df := allDF[g.Intn(len(allDF))]
	n := 7
	if df == 24 {
		n = 10
	}
	a := m.addrs[g.Intn(len(m.addrs))]
	f := ref.ModeS(g, df, a, g.Bytes(n), uint32(g.Uniform(7)), ref.HeaderOpt{})
	return []core.Emission{{At: at, Src: int(a), Kind: fmt.Sprintf("%s DF%d of %06X", f.Kind, df, a), Frame: f.Bytes, Meta: &c03meta{f: f}}}
}

func (m *c03) Deliver(r *core.Run, d *core.Delivery) {
	msg, err, p := sut.ReadMessage(d.Frame)
	if p != "" {
		r.Fail("panic", "reading %X panics: %s", d.Frame, p)
		return
	}
	if !d.Clean || d.Em == nil {
		return
	}
	me := d.Em.Meta.(*c03meta)
	r.Distinct(core.HashBytes(3, d.Frame))
	if me.f == nil {
		r.Count("checks")
		if err == nil {
			r.Fail("not-refused", "%X (%s) is accepted as a %s", d.Frame, d.Em.Kind, ref.TypeName(msg))
		}
		return
	}
	if !checkFrame(r, me.f, msg, err) {
		return
	}
	r.Count("decoded " + me.f.Kind)
	if me.f.DF != 24 || me.elm == nil {
		return
	}
	// Reassembly from what the decoder says, attributed by the parity.
	a, err, _ := sut.CheckCRC(msg, d.Frame, nil, nil)
	if err != nil {
		r.Fail("elm-attribution", "segment %X is rejected: %v", d.Frame, err)
		return
	}
	seg, part, ok := sut.ELM(msg)
	if !ok {
		r.Abort = "the extended length message has no segment number or data"
		return
	}
	as := m.rx[d.Rx][uint32(a)]
	if as == nil {
		as = &c03asm{seg: map[int][]byte{}, last: map[int]bool{}}
		m.rx[d.Rx][uint32(a)] = as
	}
	as.seg[seg] = part
	as.last[me.seg] = true
	r.Count("extended length segments gathered")
}

func (m *c03) Restart(r *core.Run, rx int) { m.rx[rx] = map[uint32]*c03asm{} }

func (m *c03) Finish(r *core.Run) {
	for rx := range m.rx {
		for _, e := range m.elms {
			as := m.rx[rx][e.addr]
			if as == nil {
				continue
			}
			r.Count("checks")
			if len(as.seg) != len(as.last) {
				r.Fail("elm-segments", "receiver %d gathered %d segments of the message of %06X, %d arrived", rx, len(as.seg), e.addr, len(as.last))
				return
			}
			for k := range e.data {
				if as.last[k] && !bytes.Equal(as.seg[k], e.data[k]) {
					r.Fail("elm-content", "receiver %d reads segment %d of the message of %06X as %X, sent %X", rx, k, e.addr, as.seg[k], e.data[k])
					return
				}
			}
			if len(as.seg) == len(e.data) {
				r.Count("extended length messages complete")
			}
		}
	}
	for rx, as := range m.rx {
		for a := range as {
			known := false
			for _, e := range m.elms {
				known = known || e.addr == a
			}
			if !known {
				r.Fail("elm-stranger", "receiver %d gathered segments from %06X, which sent none", rx, a)
				return
			}
		}
	}
}

func init() {
	register(&Spec{ID: "C03", New: func() core.Model { return &c03{} }, Slots: 200, Quick: 130000, Thorough: 2000000, Unit: "frame arriving at a receiver",
		Rule:   "A case is one undamaged frame arriving at a receiver; distinct by bytes; non-trivial as every header field, the carried part or the refusal is compared with what the reference encoder sent.",
		Real:   []string{"pkg/modes/reader", "pkg/modes/messages", "pkg/modes/fields", "pkg/modes/common"},
		Stub:   []string{"transponders (reference encoder)", "radio channel", "extended length reassembly of the receiver"},
		Assume: []string{"header fields are those of ICAO Annex 10 volume IV"}})
}
