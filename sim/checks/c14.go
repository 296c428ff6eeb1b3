package checks

import (
	"fmt"
	"sort"
	"strings"

	"vsim/core"
	"vsim/sut"
)

// C14: what a decoded message depends on, and whose it is.
type c14 struct {
	addrs []uint32
	calls []*call // what the interrogators and aircraft repeat
	probe []probe
	rx    []*c14rx
	done  []c14done
	// in the other process, the calls are made in the reverse order and nothing else is
	reversed bool
	results  []string
}

type c14done struct {
	c    *call
	b    []byte
	said string
}

type c14rx struct {
	buf  []byte
	kept []c14kept
	said map[string]string
}

type c14kept struct {
	what string
	b    []byte
	obj  interface{}
	said string
}

type c14meta struct {
	c        *call
	scribble bool
	salt     byte
	n        int
	often    int // so many times more the same call is made
}

func (m *c14) Setup(r *core.Run) {
	if !m.reversed {
		m.probe = probes()
	}
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := 0; i < 4; i++ {
		m.addrs = append(m.addrs, uint32(g.Bits(24)))
	}
	for i := 0; i < 20; i++ {
		m.calls = append(m.calls, newCall(g, m.addrs))
	}
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, &c14rx{buf: make([]byte, 64), said: map[string]string{}})
	}
}

func (m *c14) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	c := newCall(g, m.addrs)
	switch g.Intn(10) {
	case 0, 1, 2:
		c = m.calls[g.Intn(len(m.calls))]
	case 3, 4, 5:
		c = sibling(g, m.calls[g.Intn(len(m.calls))])
	}
	b := append([]byte(nil), c.b...)
	if len(b) == 0 {
		b = []byte{0}
	}
	me := &c14meta{c, g.P(0.2), byte(g.U64()), int(g.Uniform(30)), 0}
	if g.Intn(4000) == 0 {
		me.often = []int{300, 1100, 4500, 4500, 70000}[g.Intn(5)]
	}
	return []core.Emission{{At: int64(slot) * 10 * core.Millisecond, Kind: c.what, Frame: b, Meta: me}}
}

func mapText(m map[sut.Addr]bool) string {
	var l []string
	for a, v := range m {
		l = append(l, fmt.Sprintf("%06X:%v", uint32(a), v))
	}
	sort.Strings(l)
	return fmt.Sprint(m == nil, l)
}

func (m *c14) Deliver(r *core.Run, d *core.Delivery) {
	if d.Em == nil {
		return
	}
	me := d.Em.Meta.(*c14meta)
	c := me.c
	if m.reversed {
		m.done = append(m.done, c14done{c: c, b: append([]byte(nil), d.Frame...)})
		return
	}
	rx := m.rx[d.Rx]
	data := append([]byte(nil), d.Frame...)
	reuse := len(d.Frame) <= len(rx.buf) && me.salt&1 == 0 && r.FaultOn(d.Slot, core.FReuse)
	if reuse {
		// one buffer for every frame, with the rest of an earlier one behind it
		data = rx.buf[:len(d.Frame)]
		copy(data, d.Frame)
	}
	maps := mapText(c.addrs) + mapText(c.iis)
	what := c.text(d.Frame)
	// Some messages are asked nothing before their buffer is overwritten.
	late := me.salt&2 != 0 && c.what != "crc" && c.what != "position"
	var obj interface{}
	var said, p string
	if late {
		var err error
		if obj, err, p = c.read(data); err != nil || isNilMsg(obj) {
			obj = nil
		}
		if p == "" {
			said, _, p = c.do(append([]byte(nil), d.Frame...))
		}
	} else {
		said, obj, p = c.do(data)
	}
	r.Count("checks")
	if p != "" {
		r.Fail("panic", "%s: reading panics: %s", what, p)
		return
	}
	r.NoteStr(said)
	m.done = append(m.done, c14done{c, append([]byte(nil), d.Frame...), said})
	if now, _, p := c.do(append([]byte(nil), d.Frame...)); now != said || p != "" {
		r.Fail("repeated:"+c.what, "%s reads otherwise the second time: %s%s", what, diffLine(now, said), p)
		return
	}
	if me.often > 0 && !m.often(r, c, d.Frame, said, me.often) {
		return
	}
	r.Distinct(core.HashBytes(core.HashString(c.what), d.Frame))
	r.Count("calls " + c.what)
	if string(data) != string(d.Frame) {
		r.Fail("data-changed", "%s: reading changes the data of the caller to %X", what, data)
		return
	}
	if now := mapText(c.addrs) + mapText(c.iis); now != maps {
		r.Fail("list-changed", "%s: the check changes the lists of the caller from %s to %s", what, maps, now)
		return
	}
	key := fmt.Sprint(c.what, c.e, c.v, c.a, c.c, c.cpr, c.refLat, c.refLon, c.odd, maps, string(d.Frame))
	if old, ok := rx.said[key]; ok {
		r.Count("messages read again")
		if old != said {
			r.Fail("history:"+c.what, "%s reads otherwise than before: %s", what, diffLine(said, old))
			return
		}
	}
	rx.said[key] = said
	if reuse {
		for i := range rx.buf {
			rx.buf[i] = rx.buf[i]*3 + me.salt + byte(i)
		}
		r.Count("buffers overwritten")
	} else {
		for i := range data {
			data[i] ^= 0xA5
		}
	}
	if obj != nil {
		if late {
			r.Count("messages first asked after the buffer is overwritten")
		}
		if late && me.salt&4 != 0 && !me.scribble && len(rx.kept) < 300 {
			// and some not before the end
			rx.kept = append(rx.kept, c14kept{what, append([]byte(nil), d.Frame...), obj, said})
			obj = nil
		} else if now := describe(obj); now != said {
			r.Fail("buffer:"+c.what, "%s changes when the caller overwrites its buffer: %s", what, diffLine(now, said))
			return
		}
		if obj == nil {
		} else if _, no := obj.(refusal); no && len(rx.kept) < 300 {
			r.Count("errors kept")
			rx.kept = append(rx.kept, c14kept{what, append([]byte(nil), d.Frame...), obj, said})
		} else if me.scribble && !no {
			// the receiver does with its message as it likes
			sut.Scribble(obj)
			r.Count("messages overwritten by their receiver")
			again, _, p := c.do(append([]byte(nil), d.Frame...))
			if p != "" || again != said {
				r.Fail("shared:"+c.what, "%s reads otherwise once the receiver has changed the message it was given: %s%s", what, diffLine(again, said), p)
				return
			}
		} else if len(rx.kept) < 300 {
			rx.kept = append(rx.kept, c14kept{what, append([]byte(nil), d.Frame...), obj, said})
		}
	}
	if len(rx.kept) > 0 {
		rx.still(r, me.n%len(rx.kept))
	}
	p1 := &m.probe[(me.n*31+int(me.salt))%len(m.probe)]
	if p1.obj != nil {
		r.Count("checks")
		if now := describe(p1.obj); now != p1.said {
			r.Fail("changed", "%s, kept since the process began, has changed: %s", p1.c.text(p1.c.b), diffLine(now, p1.said))
			return
		}
	}
	again, _, pn := p1.c.do(append([]byte(nil), p1.c.b...))
	r.Count("checks")
	if pn != "" || again != p1.said {
		r.Fail("history:"+p1.c.what, "%s reads otherwise than when the process began: %s%s", p1.c.text(p1.c.b), diffLine(again, p1.said), pn)
	}
}

// often makes one call many times over: an interrogator that asks for the same register for hours.
func (m *c14) often(r *core.Run, c *call, b []byte, said string, n int) bool {
	r.Count("calls made again many times")
	for k := 0; k < n; k++ {
		if n > 10000 && k < n-200 && c.what != "crc" && c.what != "position" {
			// only whether it is refused
			obj, err, p := c.read(append([]byte(nil), b...))
			if no := err != nil || isNilMsg(obj); no != strings.HasPrefix(said, "refused: ") || p != "" {
				r.Fail("history:"+c.what, "%s, read %d times over, is %v refused, and was %v: %s%s", c.text(b), k, no, !no, errText(err), p)
				return false
			}
			continue
		}
		if now, _, p := c.do(append([]byte(nil), b...)); now != said || p != "" {
			r.Fail("history:"+c.what, "%s, read %d times over, reads otherwise than before: %s%s", c.text(b), k, diffLine(now, said), p)
			return false
		}
	}
	return true
}

// still checks that a message kept by a receiver is what it was.
func (rx *c14rx) still(r *core.Run, i int) {
	k := &rx.kept[i]
	r.Count("checks")
	if now := describe(k.obj); now != k.said {
		r.Fail("changed", "%s, kept by its receiver, has changed: %s", k.what, diffLine(now, k.said))
	}
}

func (m *c14) Restart(r *core.Run, rx int) {
	m.rx[rx] = &c14rx{buf: make([]byte, 64), said: map[string]string{}}
}

func (m *c14) refResults() []string { return m.results }

func (m *c14) Finish(r *core.Run) {
	if m.reversed {
		m.results = make([]string, len(m.done))
		for i := len(m.done) - 1; i >= 0; i-- {
			said, _, p := m.done[i].c.do(m.done[i].b)
			m.results[i] = said + p
		}
		return
	}
	for _, rx := range m.rx {
		for i := range rx.kept {
			rx.still(r, i)
			if r.Viol != nil {
				return
			}
		}
		r.CountN("messages unchanged at the end", int64(len(rx.kept)))
	}
	if r.Viol != nil || len(m.done) == 0 {
		return
	}
	other, err := elsewhere("C14", r.Plan)
	if err != nil || len(other) != len(m.done) {
		r.Abort = fmt.Sprintf("no results from the other process: %v, %d for %d calls", err, len(other), len(m.done))
		return
	}
	for i := range m.done {
		x := &m.done[i]
		r.Count("checks")
		r.Count("results compared with those of the other process")
		if core.HashString(x.said) != other[i] {
			r.Fail("elsewhere:"+x.c.what, "%s reads otherwise than in a process that made the same calls in the reverse order: %s", x.c.text(x.b),
				strings.Replace(diffLine(x.said, detail(i)), "before", "there", 1))
			return
		}
	}
}

func init() {
	refModels["C14"] = func() refModel { return &c14{reversed: true} }
	register(&Spec{ID: "C14", New: func() core.Model { return &c14{} }, Slots: 100, Quick: 5400, Thorough: 120000, Chunk: 200, Unit: "call of the decoder",
		Rule:   "A case is one call of the decoder, benign or with damaged data; distinct by kind and bytes; non-trivial as the data and lists of the caller, the message after the buffer is overwritten and at the end of the run, the same call at other times, at once, in another process in the reverse order, and a call recorded when the process began are compared.",
		Real:   []string{"pkg/modes/reader", "pkg/adsb/reader", "pkg/commb", "pkg/acas/ra", "pkg/geo", "pkg/bds/**"},
		Stub:   []string{"aircraft (reference encoder)", "radio channel", "buffers and lists of the receiver"},
		Assume: []string{"a message is what its exported fields hold and what its methods say"}})
}
