package checks

import (
	"fmt"
	"sort"
	"strings"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C12: resolution advisories by three ways.
type c12 struct {
	enc []c12enc
	rx  []c12rx
}

// c12enc is an encounter: an aircraft whose advisories follow one another.
type c12enc struct {
	addr uint32
	seed uint64
	v    int
}

type c12rx struct {
	text map[string]string // text of an advisory -> meaning
	of   map[string]string // meaning -> text
}

type c12meta struct {
	ra  *ref.RA
	way int
	m   *ref.Msg
	q   *ref.Reg
}

func (m *c12) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := g.Range(1, 4); i > 0; i-- {
		m.enc = append(m.enc, c12enc{uint32(g.Bits(24)), g.U64(), g.Intn(3)})
	}
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, c12rx{map[string]string{}, map[string]string{}})
	}
}

func (m *c12) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	e := &m.enc[g.Intn(len(m.enc))]
	// The advisory of this slot: one of the successive stages of the encounter, or a change of one of its items.
	stage := core.Mix(e.seed, uint64(g.Intn(8)))
	o := ref.RAOpt{}
	base := ref.NewRA(core.NewRng(stage), o)
	a := base
	if g.P(0.6) {
		k := g.Intn(len(base.Draws))
		d := base.Draws[k]
		v := d.V
		if d.N > 0 {
			if d.N <= 3 || g.Bool() {
				v ^= 1 << uint(g.Intn(d.N))
			} else {
				v = g.Bits(d.N)
			}
		}
		o.Force = map[int]uint64{k: v}
		a = ref.NewRA(core.NewRng(stage), o)
	}
	at := int64(slot) * 250 * core.Millisecond
	var out []core.Emission
	// the same advisory goes out by all three ways, in any order
	ways := []int{0, 1, 2}
	for i := 2; i > 0; i-- {
		j := g.Intn(i + 1)
		ways[i], ways[j] = ways[j], ways[i]
	}
	for _, w := range ways {
		me := &c12meta{ra: a, way: w}
		var f *ref.Frame
		switch w {
		case 0:
			part := append([]byte{0x30}, a.Bits...)
			f = ref.ModeS(g, 16, e.addr, part, 0, ref.HeaderOpt{Alt: goodAlt})
		case 1:
			me.q = ref.R30(g, ref.RegOpt{RA: a})
			f = ref.ModeS(g, 20+g.Intn(2), e.addr, me.q.Part, 0, ref.HeaderOpt{Alt: goodAlt})
		default:
			me.m = ref.RABroadcast(g, e.v, ref.MsgOpt{RA: a})
			f = ref.ModeS(g, 17, e.addr, me.m.Part, 0, ref.HeaderOpt{})
		}
		out = append(out, core.Emission{At: at, Src: int(e.addr), Kind: fmt.Sprintf("advisory from %06X by %s", e.addr, c12way[w]), Frame: f.Bytes, Meta: me})
		at += int64(g.Intn(80)) * core.Millisecond
	}
	return out
}

var c12way = [...]string{"coordination reply", "Comm-B register", "squitter"}

func meaning(exps []ref.Exp) string {
	var k []string
	for _, e := range exps {
		k = append(k, e.Key())
	}
	sort.Strings(k)
	return strings.Join(k, ";")
}

func (m *c12) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	me := d.Em.Meta.(*c12meta)
	about := func(path string) bool { return strings.Contains(path, "ResolutionAdvisory") }
	if me.q != nil {
		me.q.Exp = only(me.q.Exp, about)
	}
	if me.m != nil {
		me.m.Exp = only(me.m.Exp, about)
	}
	r.Distinct(core.HashBytes(uint64(me.way), me.ra.Bits))
	r.Count("advisories by " + c12way[me.way])
	what := fmt.Sprintf("advisory %X by %s", me.ra.Bits, c12way[me.way])
	var obj interface{}
	path := "ToString()"
	switch me.way {
	case 0:
		o, err, p := sut.ReadRA(part[1:])
		if p != "" {
			r.Fail("panic", "%s: reading panics: %s", what, p)
			return
		}
		if err != nil || o == nil {
			if !me.ra.Either {
				r.Fail("refused", "%s is refused: %v", what, err)
			}
			return
		}
		obj = o
		if !expect(r, "advisory", what, obj, me.ra.Exp) {
			return
		}
	case 1:
		list, err, p := sut.ReadCommB(part)
		if p != "" {
			r.Fail("panic", "%s: reading panics: %s", what, p)
			return
		}
		for _, o := range list {
			if ref.TypeName(o) == me.q.Type {
				obj = o
			}
		}
		if err != nil || obj == nil {
			if !me.ra.Either {
				r.Fail("not-offered", "%s is not offered as an advisory: %v", what, err)
			}
			return
		}
		if !expect(r, "advisory", what, obj, me.q.Exp) {
			return
		}
		path = "ResolutionAdvisory." + path
	default:
		o, ok := judge(r, me.m, part)
		if !ok {
			return
		}
		obj = o
		path = "AircraftStatus.ResolutionAdvisory." + path
	}
	v, _, miss := ref.Get(obj, path)
	if miss != nil {
		r.Abort = miss.Error()
		return
	}
	text := v.String()
	mean := meaning(me.ra.Exp)
	rx := m.rx[d.Rx]
	r.Count("checks")
	if old, ok := rx.text[text]; ok && old != mean {
		r.Fail("same-text", "%s is reported as another advisory was: %q means both %q and %q", what, text, old, mean)
		return
	}
	if old, ok := rx.of[mean]; ok && old != text {
		r.Fail("other-text", "%s is reported as %q, by another way or before as %q", what, text, old)
		return
	}
	rx.text[text], rx.of[mean] = mean, text
	r.NoteStr(text)
}

func (m *c12) Restart(r *core.Run, rx int) {
	m.rx[rx] = c12rx{map[string]string{}, map[string]string{}}
}
func (m *c12) Finish(r *core.Run) {}

func init() {
	register(&Spec{ID: "C12", New: func() core.Model { return &c12{} }, Slots: 100, Quick: 26000, Thorough: 400000, Unit: "advisory arriving at a receiver",
		Rule:   "A case is one undamaged advisory arriving at a receiver by one of three ways; distinct by content and way; non-trivial as every item is compared with what was issued, and its text with those of all other advisories of the run.",
		Real:   []string{"pkg/modes/reader", "pkg/acas/ra", "pkg/bds/bds30", "pkg/bds/bds61", "pkg/commb", "pkg/adsb/reader", "pkg/adsb/aircraft_status"},
		Stub:   []string{"collision avoidance systems (reference encoder)", "radio channel"},
		Assume: []string{"advisory layout is that of ICAO Annex 10 volume IV, 4.3.8.4.2.2.1"}})
}
