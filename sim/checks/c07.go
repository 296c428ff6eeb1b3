package checks

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C07: receivers follow the version and the supplements announced by operational status messages.
type c07 struct {
	fleet []c07craft
	rx    []map[uint32]*c07state
}

type c07craft struct {
	craft
	phases []c07phase // what it declares over time
}

type c07phase struct {
	from    int // slot
	v       int
	surface bool
	a, c    bool
}

// c07state is what a receiver keeps about an aircraft: as it decoded it, and as it was declared.
type c07state struct {
	v       int
	a, c    bool
	wantV   int
	wantA   bool
	wantC   bool
	updates int
}

type c07meta struct {
	addr uint32
	m    *ref.Msg
	surf bool
	stat bool
	ph   c07phase
}

func (m *c07) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := g.Range(1, 5); i > 0; i-- {
		c := c07craft{craft: craft{addr: uint32(g.Bits(24)), df: 17 + g.Intn(2)}}
		for at := 0; at < r.Plan.N; at += g.Range(10, 120) {
			c.phases = append(c.phases, c07phase{at, g.Intn(3), g.Bool(), g.Bool(), g.Bool()})
		}
		m.fleet = append(m.fleet, c)
	}
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, map[uint32]*c07state{})
	}
}

func (m *c07) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	c := &m.fleet[g.Intn(len(m.fleet))]
	var ph c07phase
	for _, p := range c.phases {
		if p.from <= slot {
			ph = p
		}
	}
	at := int64(slot) * 100 * core.Millisecond
	me := &c07meta{addr: c.addr, ph: ph, surf: ph.surface}
	switch {
	case g.P(0.25):
		me.stat = true
		me.m = ref.OpStatus(g, ph.v, ph.v, ph.surface, ref.MsgOpt{A: &ph.a, C: &ph.c})
	case ph.surface != g.P(0.1):
		me.surf = true
		me.m = ref.SurfPos(g, ph.v, ref.MsgOpt{A: &ph.a, C: &ph.c})
	default:
		me.surf = false
		alt := goodAlt12
		me.m = ref.AirPos(g, ph.v, ref.MsgOpt{A: &ph.a, Alt12: &alt})
	}
	cf := 0
	f := ref.ModeS(g, c.df, c.addr, me.m.Part, 0, ref.HeaderOpt{CF: &cf})
	return []core.Emission{{At: at, Src: int(c.addr), Kind: fmt.Sprintf("%s, type %d, version %d, A=%v C=%v, from %06X", me.m.Kind, me.m.TC, ph.v, ph.a, ph.c, c.addr), Frame: f.Bytes, Meta: me}}
}

var goodAlt12 = ref.Alt12(ref.Alt25(30000))

func (m *c07) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	me := d.Em.Meta.(*c07meta)
	st := m.rx[d.Rx][me.addr]
	if st == nil {
		st = &c07state{}
		m.rx[d.Rx][me.addr] = st
	}
	what := fmt.Sprintf("%s %X read at version %d with A=%v C=%v (last heard: version %d, A=%v C=%v)", me.m.Kind, part, st.v, st.a, st.c, st.wantV, st.wantA, st.wantC)
	o, err, p := sut.ReadADSB(st.v, st.a, st.c, part)
	if p != "" {
		r.Fail("panic", "%s: reading panics: %s", what, p)
		return
	}
	if err != nil || isNilMsg(o) {
		r.Fail("refused:"+me.m.Kind, "%s is refused: %v", what, err)
		return
	}
	if me.stat {
		v, ok := asUint(o, "GetADSBVersion()")
		if !ok {
			r.Abort = "no GetADSBVersion()"
			return
		}
		r.Count("checks")
		r.Count("status messages heard")
		st.v, st.wantV = int(v), me.ph.v
		if st.v != st.wantV {
			r.Fail("version", "%s announces version %d, read as %d", what, st.wantV, st.v)
			if st.v > 2 {
				st.v = st.wantV
			}
			return
		}
		if me.ph.v > 0 {
			n := "AircraftOperationalStatus.NICSupplement"
			if me.ph.v == 2 {
				n += "A"
			}
			a, ok := asUint(o, n)
			if !ok {
				r.Abort = "no " + n
				return
			}
			st.a, st.wantA = a == 1, me.ph.a
		}
		if me.ph.v == 2 && me.ph.surface {
			c, ok := asUint(o, "AircraftOperationalStatus.SurfaceCapabilityClass.NICSupplementC")
			if !ok {
				r.Abort = "no supplement C"
				return
			}
			st.c, st.wantC = c == 1, me.ph.c
		}
		st.updates++
		return
	}
	in := ref.IntegrityOf(st.wantV, me.surf, me.m.TC, st.wantA, me.m.BSup, st.wantC)
	r.Distinct(core.Mix(uint64(st.wantV), b2u(me.surf), uint64(me.m.TC), b2u(st.wantA), b2u(me.m.BSup), b2u(st.wantC)))
	exp := []ref.Exp{{Kind: ref.KInt, Path: "GetADSBVersion()", I: int64(st.wantV)}}
	if !expect(r, "layout", what, o, exp) {
		return
	}
	r.Count(fmt.Sprintf("positions read at version %d", st.wantV))
	if !in.Known {
		r.Count("positions with supplements the standard does not define")
		return
	}
	if in.NIC >= 0 {
		if !expect(r, "category", what, o, []ref.Exp{{Kind: ref.KInt, Path: "NavigationIntegrityCategory", I: int64(in.NIC)}}) {
			return
		}
		m.radius(r, what, o, "HorizontalContainmentRadius", in.Rc, in.Also)
		return
	}
	if m.radius(r, what, o, "HorizontalProtectionLimit", in.HPL, nil) && m.radius(r, what, o, "ContainmentRadius", in.CR, nil) && me.surf {
		hi := func(l []float64, open bool) float64 {
			if open {
				return -1
			}
			return l[len(l)-1]
		}
		lo := func(l []float64, open bool) float64 {
			if open {
				return l[0]
			}
			if len(l) > 1 {
				return l[0]
			}
			return -1
		}
		open := me.m.TC == 8
		expect(r, "bounds", what, o, []ref.Exp{
			{Kind: ref.KFloat, Path: "HorizontalProtectionLimit.GetHPLLowerBound()", Lo: lo(in.HPL, open) - 0.01, Hi: lo(in.HPL, open) + 0.01},
			{Kind: ref.KFloat, Path: "HorizontalProtectionLimit.GetHPLHigherBound()", Lo: hi(in.HPL, open) - 0.01, Hi: hi(in.HPL, open) + 0.01},
			{Kind: ref.KFloat, Path: "ContainmentRadius.GetHorizontalContainmentLowerBound()", Lo: lo(in.CR, open) - 0.01, Hi: lo(in.CR, open) + 0.01},
			{Kind: ref.KFloat, Path: "ContainmentRadius.GetHorizontalContainmentHigherBound()", Lo: hi(in.CR, open) - 0.01, Hi: hi(in.CR, open) + 0.01}})
	}
}

func asUint(o interface{}, path string) (uint64, bool) {
	v, _, miss := ref.Get(o, path)
	if miss != nil {
		return 0, false
	}
	switch {
	case v.CanUint():
		return v.Uint(), true
	case v.CanInt():
		return uint64(v.Int()), true
	case v.Kind().String() == "bool":
		return b2u(v.Bool()), true
	}
	return 0, false
}

var lengths = regexp.MustCompile(`([0-9][0-9 ]*(?:\.[0-9]+)?)\s*(km|NM|m)\b`)

// radius checks the lengths that the text of a limit names.
func (m *c07) radius(r *core.Run, what string, o interface{}, path string, want, also []float64) bool {
	v, _, miss := ref.Get(o, path+".ToString()")
	if miss != nil {
		r.Abort = miss.Error()
		return false
	}
	r.Count("checks")
	text := v.String()
	seen := make([]bool, len(want))
	for _, l := range lengths.FindAllStringSubmatch(text, -1) {
		x, err := strconv.ParseFloat(strings.ReplaceAll(l[1], " ", ""), 64)
		if err != nil {
			continue
		}
		x *= map[string]float64{"m": 1, "km": 1000, "NM": 1852}[l[2]]
		ok := false
		for i, w := range want {
			if math.Abs(x-w) <= 0.002*w {
				seen[i], ok = true, true
			}
		}
		for _, w := range also {
			ok = ok || math.Abs(x-w) <= 0.002*w
		}
		if !ok {
			r.Fail("radius:"+path, "%s: %s is reported as %q, which names %.1f m; the bounds are %v m", what, path, text, x, want)
			return false
		}
	}
	for i := range seen {
		if !seen[i] {
			r.Fail("radius:"+path, "%s: %s is reported as %q, which does not name %.1f m", what, path, text, want[i])
			return false
		}
	}
	return true
}

func (m *c07) Restart(r *core.Run, rx int) { m.rx[rx] = map[uint32]*c07state{} }
func (m *c07) Finish(r *core.Run)          {}

func init() {
	register(&Spec{ID: "C07", New: func() core.Model { return &c07{} }, Slots: 400, Quick: 50000, Thorough: 800000, Unit: "position squitter arriving at a receiver that follows operational status messages",
		Rule:   "A case is one undamaged position squitter read with the version and the supplements of the last operational status heard; distinct by version, kind of position, type code and supplements; non-trivial as version, category and radius are compared with the tables of the standard.",
		Real:   []string{"pkg/modes/reader", "pkg/adsb/reader", "pkg/adsb/airborne_position", "pkg/adsb/surface_position", "pkg/adsb/aircraft_operational_status", "pkg/bds/bds05", "pkg/bds/bds06", "pkg/bds/bds65"},
		Stub:   []string{"aircraft (reference encoder)", "radio channel", "the receiver's memory of the last status message"},
		Assume: []string{"integrity tables of DO-260, DO-260A and DO-260B; combinations of supplements that they do not define are only checked for the version"}})
}
