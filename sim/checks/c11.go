package checks

import (
	"fmt"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C11: Comm-B replies.
type c11 struct {
	craft []c11craft
	seen  []map[string]string // what a receiver was told about a content before
}

// c11craft has the current content of its registers; each interrogation reads one of them.
type c11craft struct {
	addr uint32
	regs []*ref.Reg
}

func (m *c11) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := g.Range(1, 6); i > 0; i-- {
		c := c11craft{addr: uint32(g.Bits(24))}
		for k := 0; k < 12; k++ {
			c.regs = append(c.regs, ref.AnyReg(g, ref.RegOpt{}))
		}
		m.craft = append(m.craft, c)
	}
	for i := 0; i < r.NRx; i++ {
		m.seen = append(m.seen, map[string]string{})
	}
}

func (m *c11) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	c := &m.craft[g.Intn(len(m.craft))]
	at := int64(slot) * 20 * core.Millisecond
	var q *ref.Reg
	switch {
	case g.P(0.15):
		q = ref.Broken(g)
	case g.P(0.15): // read again what was read before
		q = c.regs[g.Intn(len(c.regs))]
	default:
		q = ref.AnyReg(g, ref.RegOpt{})
	}
	f := ref.ModeS(g, 20+g.Intn(2), c.addr, q.Part, 0, ref.HeaderOpt{Alt: goodAlt})
	return []core.Emission{{At: at, Src: int(c.addr), Kind: fmt.Sprintf("reply with %s from %06X", q.Kind, c.addr), Frame: f.Bytes, Meta: q}}
}

var goodAlt = func() *uint64 { a := Alt(); return &a }()

func (m *c11) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	q := d.Em.Meta.(*ref.Reg)
	judgeReg(r, q, part, m.seen[d.Rx])
}

// judgeReg compares the interpretations of a Comm-B reply with the register that was read.
func judgeReg(r *core.Run, q *ref.Reg, part []byte, seen map[string]string) {
	what := fmt.Sprintf("%s %X", q.Kind, part)
	r.Distinct(core.HashBytes(11, part))
	r.Count("replies " + q.Kind)
	if q.Direct {
		o, err, p := sut.ReadDirect(q.Type, part)
		if p != "" || err != nil || isNilMsg(o) {
			r.Fail("refused:"+q.Kind, "%s is not read: %v %s", what, err, p)
			return
		}
		if !expect(r, q.Kind, what, o, q.Exp) {
			return
		}
		var cerr error
		if p := guard(func() { cerr = o.(interface{ CheckCoherency() error }).CheckCoherency() }); p != "" {
			r.Fail("panic", "%s: checking the coherency panics: %s", what, p)
			return
		}
		if cerr != nil {
			return // beyond what the recognition takes as plausible
		}
		r.Count("checks")
		// The recognition may take it for another layout of the same register, but must offer it.
		list, err, p := sut.ReadCommB(part)
		if p != "" || err != nil {
			r.Fail("refused:"+q.Kind, "%s is not recognised: %v %s", what, err, p)
			return
		}
		names := ""
		for _, m := range list {
			n := ref.TypeName(m)
			if n == "Status" || n == "AircraftIdentification" || n[:len(n)-1] == q.Type[:len(q.Type)-1] {
				return // the first two are recognised first, and alone
			}
			names += " " + n
		}
		r.Fail("not-offered:"+q.Kind, "%s is not offered as a %s nor in another layout, but as:%s", what, q.Type, names)
		return
	}
	list, err, p := sut.ReadCommB(part)
	if p != "" {
		r.Fail("panic", "%s: reading panics: %s", what, p)
		return
	}
	if err != nil {
		r.Fail("refused:"+q.Kind, "%s is refused: %v", what, err)
		return
	}
	names := ""
	found := -1
	for i, o := range list {
		if isNilMsg(o) {
			r.Fail("nothing", "%s: an interpretation is nothing", what)
			return
		}
		n := ref.TypeName(o)
		names += " " + n
		if n == q.Type {
			found = i
		}
		var cerr error
		if p := guard(func() { cerr = o.CheckCoherency() }); p != "" || cerr != nil {
			r.Fail("incoherent", "%s is offered as a %s, which is not coherent: %v%s", what, n, cerr, p)
			return
		}
	}
	r.Count("checks")
	r.NoteStr(names)
	r.CountN("interpretations offered", int64(len(list)))
	if old, ok := seen[string(part)]; ok && old != names {
		r.Fail("unstable", "%s is interpreted as%s, before as%s", what, names, old)
		return
	}
	if seen != nil {
		seen[string(part)] = names
	}
	if q.Not != "" {
		if found >= 0 {
			r.Fail("not-refused:"+q.Kind, "%s is offered as a %s", what, q.Not)
		}
		return
	}
	if found < 0 {
		if !q.Either {
			r.Fail("not-offered:"+q.Kind, "%s is not offered as a %s, but as:%s", what, q.Type, names)
			return
		}
		// Beyond what the recognition takes as plausible, the reader of the register still gives its values.
		if o, err, p := sut.ReadDirect(q.Type, part); p != "" {
			r.Fail("panic", "%s: reading panics: %s", what, p)
		} else if err == nil && !isNilMsg(o) {
			r.Count("implausible registers read directly")
			expect(r, q.Kind, what, o, q.Exp)
		}
		return
	}
	if q.Only && len(list) != 1 {
		r.Fail("ambiguous:"+q.Kind, "%s is offered as%s", what, names)
		return
	}
	expect(r, q.Kind, what, list[found], q.Exp)
}

func (m *c11) Restart(r *core.Run, rx int) { m.seen[rx] = map[string]string{} }
func (m *c11) Finish(r *core.Run)          {}

func init() {
	register(&Spec{ID: "C11", New: func() core.Model { return &c11{} }, Slots: 200, Quick: 80000, Thorough: 1200000, Unit: "Comm-B reply arriving at a receiver",
		Rule:   "A case is one undamaged Comm-B reply arriving at a receiver; distinct by content; non-trivial as the register read must be among the interpretations with every value equal, or must not be for a content that breaks its reserved bits.",
		Real:   []string{"pkg/modes/reader", "pkg/commb", "pkg/bds/bds00", "pkg/bds/bds07", "pkg/bds/bds10", "pkg/bds/bds17", "pkg/bds/bds20", "pkg/bds/bds30", "pkg/bds/bds40", "pkg/bds/bds44", "pkg/bds/bds45", "pkg/bds/bds50", "pkg/bds/bds60", "pkg/acas/ra"},
		Stub:   []string{"aircraft registers (reference encoder)", "interrogators", "radio channel"},
		Assume: []string{"values are within what the recognition takes as plausible (roll <= 50 degrees, speeds, rates, temperatures)", "a register whose only content is in its first three bits is not told from a status register"}})
}
