package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/twuillemin/modes/pkg/modes/messages"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C16: what the text of a report shows.
type c16 struct {
	fleet []craft
	rx    []c16rx
	seen  map[string]bool // types of which all codes have been read
}

type c16rx struct {
	by map[string]*c16said // kind and text -> the first message so reported
	of map[string]string   // kind, version and bits -> text
}

type c16said struct {
	what string
	exp  map[string]ref.Exp
}

// c16meta is what was sent: a squitter, a register, or a frame reported for itself; and the advisory in a coordination reply.
type c16meta struct {
	kind string
	m    *ref.Msg
	q    *ref.Reg
	f    *ref.Frame
	ra   *ref.RA
}

func (m *c16) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	m.seen = map[string]bool{}
	r.NRx = g.Range(1, 2)
	for i := g.Range(1, 4); i > 0; i-- {
		m.fleet = append(m.fleet, craft{0x10000*uint32(i) + uint32(g.Uniform(16)), g.Intn(3), 17 + g.Intn(2)})
	}
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, c16rx{map[string]*c16said{}, map[string]string{}})
	}
}

func anySquitter(g *core.Rng, v int, o ref.MsgOpt) *ref.Msg {
	switch g.Intn(14) {
	case 0:
		return ref.Ident(g, v, o)
	case 1, 2:
		return ref.AirPos(g, v, o)
	case 3:
		return ref.AirPos0(g, v, o)
	case 4:
		return ref.NoPos(g, v, o)
	case 5:
		return ref.SurfPos(g, v, o)
	case 6:
		return ref.Emergency(g, v, o)
	case 7:
		return ref.StatusNoInfo(g, v, o)
	case 8:
		return ref.RABroadcast(g, v, o)
	case 9:
		return ref.TargetState0(g, v, o)
	case 10:
		return ref.TargetState1(g, v, o)
	case 11:
		return ref.OpStatus(g, v, v, g.Bool(), o)
	}
	return ref.Velocity(g, v, o)
}

// change picks one of the values of a report and another value for it.
func change(g *core.Rng, draws []ref.Draw) map[int]uint64 {
	if len(draws) == 0 {
		return nil
	}
	k := g.Intn(len(draws))
	d := draws[k]
	v := d.V
	switch {
	case d.N < 0:
		v = (v + 1 + uint64(g.Intn(-d.N))) % uint64(-d.N)
	case d.N <= 2 || g.P(0.7):
		v ^= 1 << uint(g.Intn(d.N))
	default:
		v = g.Bits(d.N)
	}
	return map[int]uint64{k: v}
}

func (m *c16) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	c := &m.fleet[g.Intn(len(m.fleet))]
	at := int64(slot) * 100 * core.Millisecond
	seed := g.U64()
	way := g.Intn(12)
	df := allDF[g.Intn(len(allDF))]
	make := func(force map[int]uint64) (core.Emission, []ref.Draw) {
		h := core.NewRng(seed)
		switch {
		case way < 5:
			q := anySquitter(h, c.version, ref.MsgOpt{Force: force})
			f := ref.ModeS(h, c.df, c.addr, q.Part, 0, ref.HeaderOpt{CF: new(int)})
			return core.Emission{Frame: f.Bytes, Meta: &c16meta{kind: q.Kind, m: q}}, q.Draws
		case way < 9:
			q := ref.AnyReg(h, ref.RegOpt{Force: force})
			f := ref.ModeS(h, 20+h.Intn(2), c.addr, q.Part, 0, ref.HeaderOpt{Alt: goodAlt})
			return core.Emission{Frame: f.Bytes, Meta: &c16meta{kind: q.Kind, q: q}}, q.Draws
		case way < 10:
			a := ref.NewRA(h, ref.RAOpt{Force: force})
			f := ref.ModeS(h, 16, c.addr, append([]byte{0x30}, a.Bits...), 0, ref.HeaderOpt{Alt: goodAlt})
			return core.Emission{Frame: f.Bytes, Meta: &c16meta{kind: "advisory", ra: a}}, a.Draws
		}
		n := 7
		if df == 24 {
			n = 10
		}
		part := h.Bytes(n)
		addr := c.addr
		if g.P(0.1) {
			addr = m.fleet[g.Intn(len(m.fleet))].addr
		}
		f := ref.ModeS(h, df, addr, part, 0, ref.HeaderOpt{Force: force})
		return core.Emission{Frame: f.Bytes, Meta: &c16meta{kind: fmt.Sprintf("DF%d", df), f: f}}, f.Draws
	}
	em, draws := make(nil)
	out := []core.Emission{em}
	for k := g.Range(1, 3); k > 0; k-- {
		v, _ := make(change(g, draws))
		out = append(out, v)
	}
	for i := range out {
		out[i].At = at + int64(i)*10*core.Millisecond
		out[i].Src = int(c.addr)
		out[i].Kind = fmt.Sprintf("%s of %06X", out[i].Meta.(*c16meta).kind, c.addr)
	}
	return out
}

func (m *c16) Deliver(r *core.Run, d *core.Delivery) {
	part := []byte(nil)
	me := &c16meta{}
	if d.Em != nil {
		me = d.Em.Meta.(*c16meta)
	}
	var obj interface{}
	var exps []ref.Exp
	id := ""
	if me.f != nil || d.Em == nil || !d.Clean {
		msg, err, p := sut.ReadMessage(d.Frame)
		if p != "" {
			r.Fail("panic", "reading %X panics: %s", d.Frame, p)
			return
		}
		if err != nil || d.Em == nil || !d.Clean {
			return
		}
		obj, exps, id = msg, me.f.Exp, "frame"
		part = d.Frame
	} else if part = hear(r, d); part == nil {
		return
	}
	p, errText := "", ""
	switch {
	case me.m != nil:
		o, err, q := sut.ReadADSB(me.m.Version, me.m.A, me.m.C, part)
		p = q
		if err == nil && !me.m.Refuse {
			obj, exps = o, me.m.Exp
		}
		id = fmt.Sprint("squitter", me.m.Version, me.m.A, me.m.C)
	case me.q != nil && me.q.Direct:
		o, err, q := sut.ReadDirect(me.q.Type, part)
		p = q
		if err == nil {
			obj, exps = o, me.q.Exp
		}
		id = "direct"
	case me.q != nil:
		list, _, q := sut.ReadCommB(part)
		p = q
		for _, o := range list {
			if ref.TypeName(o) == me.q.Type && me.q.Not == "" {
				obj, exps = o, me.q.Exp
			}
		}
		id = "register"
	case me.ra != nil:
		o, err, q := sut.ReadRA(part[1:])
		p = q
		if err == nil && o != nil {
			obj, exps = o, me.ra.Exp
		}
		id = "advisory"
	}
	if p != "" {
		r.Fail("panic", "%s %X: reading panics: %s", me.kind, part, p)
		return
	}
	if obj == nil || isNilMsg(obj) {
		r.Count("reports refused" + errText)
		return
	}
	name := ref.TypeName(obj)
	what := fmt.Sprintf("%s %X", me.kind, part)
	var text string
	t, ok := obj.(interface{ ToString() string })
	if !ok {
		r.Abort = name + " has no text"
		return
	}
	if p := guard(func() { text = t.ToString() }); p != "" {
		r.Fail("panic", "%s: the text of a %s panics: %s", what, name, p)
		return
	}
	r.NoteStr(text)
	r.Distinct(core.HashBytes(core.HashString(name), part))
	r.Count("reports " + name)
	now := c16values(exps)
	shows(r, m.seen, what, name, obj, exps, now, text)
	if me.f != nil {
		m.address(r, me.f, obj, d.Frame)
	}
	rx := &m.rx[d.Rx]
	key := name + "/" + id + "/" + string(part)
	r.Count("checks")
	if old, ok := rx.of[key]; ok && old != text {
		r.Fail("unstable:"+name, "%s is reported as %q, before as %q", what, text, old)
		return
	}
	rx.of[key] = text
	r.Count("checks")
	old, ok := rx.by[name+"\n"+text]
	if !ok {
		rx.by[name+"\n"+text] = &c16said{what, now}
		return
	}
	r.Count("reports with the text of another message")
	for path, e := range now {
		o, ok := old.exp[path]
		if !ok || path == "GetADSBVersion()" || !c16differ(o, e) {
			continue
		}
		r.Fail("same-text:"+name+":"+path, "%s and %s differ (%s and %s), but are reported by the same text: %q", old.what, what, o.Key(), e.Key(), text)
	}
}

// address checks the text of what the integrity check tells: the address, or the code of the interrogator.
func (m *c16) address(r *core.Run, f *ref.Frame, obj interface{}, b []byte) {
	msg, ok := obj.(messages.ModeSMessage)
	if !ok {
		return
	}
	a, err, p := sut.CheckCRC(msg, b, nil, nil)
	if err != nil || p != "" {
		return
	}
	r.Count("checks")
	r.Count("addresses reported")
	s := strings.ToUpper(strings.Join(strings.Fields(a.ToString()), ""))
	if want := fmt.Sprintf("%06X", uint32(a)); !strings.Contains(s, want) {
		r.Fail("address", "the address or interrogator code %s of %X is reported as %q", want, b, a.ToString())
	}
}

// c16values keeps the values that a message declares.
func c16values(exps []ref.Exp) map[string]ref.Exp {
	out := map[string]ref.Exp{}
	none := map[string]bool{}
	for _, e := range exps {
		if e.Kind == ref.KErr || e.Kind == ref.KNil {
			p := e.Path
			if i := strings.LastIndex(p, "."); i >= 0 && strings.HasSuffix(p, "()") {
				p = p[:i]
			}
			none[p] = true
		}
	}
	for _, e := range exps {
		switch e.Kind {
		case ref.KInt, ref.KBool, ref.KStr, ref.KFloat, ref.KBytes, ref.KAngle:
			p := e.Path
			if none[p] {
				continue
			}
			if strings.HasSuffix(p, "()") {
				if i := strings.LastIndex(p, "."); i >= 0 && none[p[:i]] {
					continue
				}
			}
			out[p] = e
		}
	}
	return out
}

// c16differ tells whether two values are surely different.
func c16differ(a, b ref.Exp) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case ref.KInt:
		return a.I != b.I
	case ref.KBool:
		return a.B != b.B
	case ref.KStr:
		return a.S != b.S
	case ref.KFloat:
		return a.Lo > b.Hi || b.Lo > a.Hi
	case ref.KAngle:
		return core.AngDiff(a.Lo, b.Lo) > a.Hi+b.Hi
	case ref.KBytes:
		return !bytes.Equal(a.Raw, b.Raw)
	}
	return false
}

func (m *c16) Restart(r *core.Run, rx int) {
	m.rx[rx] = c16rx{map[string]*c16said{}, map[string]string{}}
}
func (m *c16) Finish(r *core.Run) {}

func init() {
	register(&Spec{ID: "C16", New: func() core.Model { return &c16{} }, Slots: 120, Quick: 16000, Thorough: 600000, Chunk: 120, Unit: "report rendered by a receiver",
		Rule:   "A case is the text of one undamaged message at a receiver; distinct by type and bits; non-trivial as the text is compared with that of every other message of the run and messages sharing a text must not differ in a value both declare; every coded value and every known label of the text is compared with the meaning in the standard (ref/texts.txt) and with the value held (ref/labels.txt).",
		Real:   []string{"ToString of every message and field under pkg/", "pkg/modes/reader", "pkg/adsb/reader", "pkg/commb", "pkg/acas/ra"},
		Stub:   []string{"aircraft (reference encoder)", "radio channel"},
		Assume: []string{"values a message declares not available need not be shown", "other words for the same meaning, other labels and further lines are allowed"}})
}
