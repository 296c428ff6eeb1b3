package checks

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/adsb"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// C02: damaged and hostile input.
type c02 struct {
	addrs   []uint32
	probe   []probe
	readers [][]probe
}

type c02meta struct {
	c   *call
	geo *c02geo
	v   int
	a   bool
	cc  bool
}

type c02geo struct {
	n    int
	cpr  [4]uint32
	ref  [4]float64
	last bool
}

func (m *c02) Setup(r *core.Run) {
	m.probe = probes()
	m.readers = readerProbes()
	g := r.Rng
	r.Prof = core.StdProfile(g)
	// damage is the matter here: it comes in every run
	r.Prof.Trunc += 0.1
	r.Prof.Garble += 0.2
	r.Prof.Noise += 0.2
	r.Prof.Extend += 0.05
	r.Prof.BitErr += 0.2
	r.Prof.MaxBitErr = max(r.Prof.MaxBitErr, g.Range(1, 12))
	r.NRx = 1
	for i := 0; i < 6; i++ {
		m.addrs = append(m.addrs, uint32(g.Bits(24)))
	}
}

var oddFloats = []float64{0, math.Copysign(0, -1), 90, -90, 180, -180, 360, -360, 90.0000001, 1e9, -1e18, 1e300, -1e308, math.MaxFloat64, math.SmallestNonzeroFloat64,
	math.NaN(), math.Inf(1), math.Inf(-1), 87, -87, 59.95459277, 86.53536998, 179.9999999, 45}

func (m *c02) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	at := int64(slot) * 10 * core.Millisecond
	me := &c02meta{v: g.Intn(3), a: g.Bool(), cc: g.Bool()}
	if g.P(0.1) {
		me.v = int(g.Bits(8))
	}
	em := core.Emission{At: at, Meta: me}
	switch k := g.Intn(20); {
	case k < 6:
		f := anyFrame(g, m.addrs[g.Intn(len(m.addrs))])
		em.Frame, em.Kind = f.Bytes, f.Kind
	case k < 12: // the message of a squitter or register by itself
		me.c = newCall(g, m.addrs)
		em.Frame, em.Kind = append([]byte(nil), me.c.b...), me.c.what
		if len(em.Frame) == 0 {
			em.Frame, em.Kind = g.Bytes(7), "random message"
		}
		if len(em.Frame) == 7 && g.P(0.5) { // the content of one layout under the codes of another
			if bit := g.Intn(11); bit < 8 {
				em.Frame[0] ^= 0x80 >> uint(bit)
			} else {
				em.Frame[5] ^= 0x80 >> uint(bit-8)
			}
			em.Kind += " with another code"
		}
	case k < 14: // type and subtype codes of something, with any content
		b := g.Bytes(7)
		if g.Bool() {
			b[0] = byte(g.Intn(32))<<3 | byte(g.Intn(8))
		} else {
			b[0] = []byte{0x10, 0x20, 0x30, 0, 0xE1, 0xE2, 0xE9, 0xEB, 0xF8, 0xF9}[g.Intn(10)]
		}
		for n := g.Intn(5); n > 0; n-- {
			b[1+g.Intn(6)] = []byte{0, 0xFF, 0x80, 1}[g.Intn(4)]
		}
		em.Frame, em.Kind = b, "random message"
	case k < 17: // anything at all
		n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 14, 15, 28, 112, 1000}[g.Intn(17)]
		em.Frame, em.Kind = g.Bytes(n), fmt.Sprintf("%d random bytes", n)
		if g.P(0.2) {
			for i := range em.Frame {
				em.Frame[i] = em.Frame[0]
			}
		}
	default:
		me.geo = &c02geo{n: g.Intn(5), last: g.Bool()}
		for i := range me.geo.cpr {
			if g.P(0.2) {
				me.geo.cpr[i] = uint32(g.Bits(32))
			} else {
				me.geo.cpr[i] = uint32(g.Bits(17))
			}
		}
		for i := range me.geo.ref {
			if g.P(0.4) {
				me.geo.ref[i] = g.FloatIn(-200, 200)
			} else {
				me.geo.ref[i] = oddFloats[g.Intn(len(oddFloats))]
			}
		}
		em.Frame, em.Kind = g.Bytes(7), "position question"
	}
	return []core.Emission{em}
}

func (m *c02) Deliver(r *core.Run, d *core.Delivery) {
	me := &c02meta{v: len(d.Frame) % 3}
	if d.Em != nil {
		me = d.Em.Meta.(*c02meta)
	}
	if d.Clean && me.geo != nil {
		m.geo(r, me.geo)
	}
	in := sut.In{V: adsb.ADSBVersion(me.v), A: me.a, C: me.cc}
	// The same bytes reach every entry point; of long ones also the places where a message may lie.
	r.Distinct(core.HashBytes(2, d.Frame))
	m.offer(r, in, d.Frame)
	switch {
	case len(d.Frame) >= 11:
		m.offer(r, in, d.Frame[4:11])
		m.offer(r, in, d.Frame[5:11])
	case len(d.Frame) == 7:
		m.offer(r, in, d.Frame[1:7])
	}
	if r.Viol != nil {
		return
	}
	if core.HashBytes(7, d.Frame)%160 == 0 {
		m.jam(r, in, d.Frame)
		if r.Viol != nil {
			return
		}
	}
	// And the messages around it decode as ever.
	for k := 0; k < 2; k++ {
		p := &m.probe[int(core.HashBytes(uint64(k+1), d.Frame)%uint64(len(m.probe)))]
		said, _, pn := p.c.do(append([]byte(nil), p.c.b...))
		r.Count("checks")
		r.Count("probes around damaged input")
		if pn != "" || said != p.said {
			r.Fail("trace-left:"+p.c.what, "after %X the %s %X no longer decodes as before: %s%s", d.Frame, p.c.what, p.c.b, diffLine(said, p.said), pn)
			return
		}
	}
}

// jam gives one of the readers a long row of input that it refuses, then a message.
func (m *c02) jam(r *core.Run, in sut.In, b []byte) {
	h := core.HashBytes(8, b)
	g := core.NewRng(h)
	n := []int{20, 50, 150, 300, 1100, 4200}[g.Intn(6)]
	i := g.Intn(len(sut.Entries))
	whole := g.Bool()
	name := sut.Entries[i].Name
	read := func(b []byte) (obj interface{}, err error, p string) {
		p = guard(func() { obj, err = sut.Entries[i].Call(in, b) })
		return
	}
	var after probe
	if whole {
		// through the readers of any message
		c := call{what: []string{"frame", "squitter", "register", "advisory"}[g.Intn(4)], v: g.Intn(3), a: g.Bool(), c: g.Bool()}
		name = c.what
		read = func(b []byte) (interface{}, error, string) { return c.read(b) }
		for k := range m.probe {
			if after = m.probe[(k+int(h>>33))%len(m.probe)]; after.c.what == c.what {
				break
			}
		}
	} else {
		if len(m.readers[i]) == 0 {
			return
		}
		after = m.readers[i][g.Intn(len(m.readers[i]))]
	}
	bad := append([]byte(nil), b...)
	refused := 0
	for k := 0; k < n; k++ {
		for try := 0; try < 30; try++ {
			if k > 0 && g.Intn(8) > 0 {
				break // as before
			}
			bad = g.Bytes([]int{7, 7, 7, 6, 8, 10, 14}[g.Intn(7)])
			if g.Bool() && len(after.c.b) > 0 {
				bad = append([]byte(nil), after.c.b...)
				for f := g.Range(1, 6); f > 0; f-- {
					bad[g.Intn(len(bad))] = byte(g.U64())
				}
			}
			if obj, err, p := read(append([]byte(nil), bad...)); p != "" || err != nil || isNilMsg(obj) {
				break
			}
		}
		_, err, p := read(append([]byte(nil), bad...))
		if p != "" {
			r.Fail("panic:"+name, "%s of %X panics: %s", name, bad, p)
			return
		}
		if err != nil {
			refused++
		}
	}
	r.Count("long rows of refused input")
	r.CountN("messages refused in long rows", int64(refused))
	said, _, p := after.c.do(append([]byte(nil), after.c.b...))
	r.Count("checks")
	if p != "" || said != after.said {
		r.Fail("trace-left:"+after.c.what, "after %d damaged messages in a row (the last is %X), %s no longer decodes as before: %s%s", n, bad, after.c.text(after.c.b), diffLine(said, after.said), p)
	}
}

// offer gives some bytes to every reader.
func (m *c02) offer(r *core.Run, in sut.In, b []byte) {
	given := string(b)
	for i := range sut.Entries {
		e := &sut.Entries[i]
		var obj interface{}
		var err error
		p := guard(func() { obj, err = e.Call(in, b) })
		m.outcome(r, e.Name, in, b, obj, err, p)
		if r.Viol != nil {
			return
		}
		if h := core.HashBytes(uint64(4+i), b); h%12 == 0 && len(m.readers[i]) > 0 {
			// The reader reads the next message as if this one had never come.
			q := &m.readers[i][(h>>8)%uint64(len(m.readers[i]))]
			said, _, pn := q.c.do(append([]byte(nil), q.c.b...))
			r.Count("checks")
			r.Count("probes of a reader after other input")
			if pn != "" || said != q.said {
				r.Fail("trace-left:"+e.Name, "after %X, %s no longer reads %X as before: %s%s", b, e.Name, q.c.b, diffLine(said, q.said), pn)
				return
			}
		}
	}
	list, err, p := sut.ReadCommB(b)
	r.Count("checks")
	switch {
	case p != "":
		r.Fail("panic:ReadCommBMessage", "commb.ReadCommBMessage of %X panics: %s", b, p)
	case err != nil && len(list) > 0:
		r.Fail("both:ReadCommBMessage", "commb.ReadCommBMessage of %X gives messages and the error %v", b, err)
	default:
		for _, o := range list {
			m.outcome(r, "commb.ReadCommBMessage", in, b, o, nil, "")
		}
	}
	msg, err, p := sut.ReadMessage(b)
	if p == "" && err == nil && !isNilMsg(msg) {
		// The check may be given the bytes that the message was read from, or any others.
		h := core.HashBytes(3, b)
		other := append(append([]byte(nil), b...), byte(h>>8), byte(h>>16), byte(h>>24))
		for i, n := range []int{len(b), int(h % uint64(len(other)+1)), len(b) - 1, 7, 3, 0} {
			if n > len(other) {
				continue
			}
			x := other[:n:n]
			_, err, p := sut.CheckCRC(msg, x, nil, nil)
			r.Count("checks")
			if p != "" {
				r.Fail("panic:CheckCRC", "the integrity check of %X for the message of %X panics: %s", x, b, p)
				return
			}
			if df := msg.GetDownLinkFormat(); err == nil && (n != 7 && n != 14 || n == 7 && (df == 17 || df == 18)) {
				r.Fail("short:CheckCRC", "the integrity check of the message of %X accepts the %d bytes %X", b, n, x)
				return
			}
			if i > 0 {
				r.Count("integrity checks with other bytes")
			}
		}
	}
	if string(b) != given {
		r.Fail("data-changed", "reading changes the data %X to %X", given, b)
	}
}

// layouts tell which bytes may be read by the reader of one kind of message: no other is accepted.
var layouts = map[string]func(b []byte) bool{}

func init() {
	lay := func(ok func(tc, st, ver int) bool, names ...string) {
		for _, n := range names {
			layouts[n] = func(b []byte) bool {
				return len(b) == 7 && ok(int(b[0]>>3), int(b[0]&7), int(b[5]>>5))
			}
		}
	}
	type f = func(tc, st, ver int) bool
	between := func(a, b int) f { return func(tc, st, ver int) bool { return tc >= a && tc <= b } }
	sub := func(t int, sts ...int) f {
		return func(tc, st, ver int) bool {
			for _, x := range sts {
				if tc == t && st == x {
					return true
				}
			}
			return false
		}
	}
	op := func(s, v int) f { return func(tc, st, ver int) bool { return tc == 31 && st == s && ver == v } }
	air := func(tc, st, ver int) bool { return tc >= 9 && tc <= 18 || tc >= 20 && tc <= 22 }
	lay(func(tc, st, ver int) bool { return tc == 0 || air(tc, st, ver) }, "adsb/airborne_position.ReadAirbornePosition")
	lay(air, "adsb/airborne_position.ReadAirbornePositionV0", "adsb/airborne_position.ReadAirbornePositionV1",
		"adsb/airborne_position.ReadAirbornePositionV2", "bds/bds05.ReadAirbornePosition")
	lay(between(5, 8), "adsb/surface_position.ReadSurfacePosition", "adsb/surface_position.ReadSurfacePositionV0", "adsb/surface_position.ReadSurfacePositionV1",
		"adsb/surface_position.ReadSurfacePositionV2", "bds/bds06.ReadSurfacePosition")
	lay(between(0, 0), "adsb/no_position_information.ReadNoPositionInformation", "adsb/airborne_position.ReadAirbornePositionType0")
	lay(between(1, 4), "adsb/aircraft_identification_and_category.ReadAircraftIdentificationAndCategory", "bds/bds08.ReadAircraftIdentificationAndCategory")
	lay(sub(19, 1, 2, 3, 4), "adsb/airborne_velocity.ReadAirborneVelocity", "bds/bds09.ReadAirborneVelocity")
	lay(sub(19, 1), "bds/bds09.ReadAirborneVelocityGroundSpeedNormal")
	lay(sub(19, 2), "bds/bds09.ReadAirborneVelocityGroundSpeedSupersonic")
	lay(sub(19, 3), "bds/bds09.ReadAirborneVelocityAirSpeedNormal")
	lay(sub(19, 4), "bds/bds09.ReadAirborneVelocityAirSpeedSupersonic")
	lay(sub(28, 0, 1, 2), "adsb/aircraft_status.ReadAircraftStatus", "bds/bds61.ReadAircraftStatus")
	lay(sub(28, 0), "bds/bds61.ReadAircraftStatusNoInformation")
	lay(sub(28, 1), "bds/bds61.ReadAircraftStatusEmergency")
	lay(sub(28, 2), "bds/bds61.ReadAircraftStatusACAS")
	lay(sub(29, 0, 1, 2, 3), "adsb/target_state_and_status.ReadTargetStateAndStatus", "bds/bds62.ReadTargetStateAndStatus")
	lay(sub(29, 0, 1), "bds/bds62.ReadTargetStateAndStatus0")
	lay(sub(29, 2, 3), "bds/bds62.ReadTargetStateAndStatus1")
	lay(func(tc, st, ver int) bool { return tc == 31 && st <= 1 && ver <= 2 }, "adsb/aircraft_operational_status.ReadAircraftOperationalStatus",
		"bds/bds65.ReadAircraftOperationalStatus")
	lay(op(0, 0), "bds/bds65.ReadAircraftOperationalStatusADSB0")
	lay(op(0, 1), "bds/bds65.ReadAircraftOperationalStatusAirborneADSB1")
	lay(op(0, 2), "bds/bds65.ReadAircraftOperationalStatusAirborneADSB2")
	lay(op(1, 1), "bds/bds65.ReadAircraftOperationalStatusSurfaceADSB1")
	lay(op(1, 2), "bds/bds65.ReadAircraftOperationalStatusSurfaceADSB2")
	layouts["acas/ra.ReadResolutionAdvisory"] = func(b []byte) bool { return len(b) == 6 }
	layouts["modes/reader.ReadMessage"] = func(b []byte) bool { return len(b) == 7 || len(b) == 14 }
}

// mayRead says whether the bytes may be a message for a reader.
func mayRead(name string, b []byte) bool {
	if ok := layouts[name]; ok != nil {
		return ok(b)
	}
	return len(b) == 7
}

func (m *c02) outcome(r *core.Run, name string, in sut.In, b []byte, obj interface{}, err error, p string) {
	r.Count("checks")
	none := isNilMsg(obj)
	switch {
	case p != "":
		r.Fail("panic:"+name, "%s of %X (version %d) panics: %s", name, b, in.V, p)
		return
	case err == nil && none:
		r.Fail("neither:"+name, "%s of %X (version %d) gives neither a message nor an error", name, b, in.V)
		return
	case err != nil && !none:
		r.Fail("both:"+name, "%s of %X (version %d) gives a message and the error %v", name, b, in.V, err)
		return
	case err != nil:
		r.Count("refusals")
		if guard(func() { _ = err.Error() }) != "" {
			r.Fail("error-text:"+name, "%s of %X gives an error without text", name, b)
		}
		return
	}
	r.Count("messages")
	if !mayRead(name, b) {
		r.Fail("misread:"+name, "%s reads %X (version %d), which is not for it, as a %s", name, b, in.V, ref.TypeName(obj))
		return
	}
	said, calls, p := sut.Query(obj)
	r.CountN("methods called", int64(calls))
	r.Note(core.HashString(said))
	if p != "" {
		r.Fail("query-panic:"+name, "%s of %X (version %d) gives a %s that cannot be queried: %s", name, b, in.V, ref.TypeName(obj), p)
	}
}

func (m *c02) geo(r *core.Run, q *c02geo) {
	r.Count("checks")
	r.Count("position questions")
	var p, what string
	var err error
	var lat, lon float64
	both := false
	switch q.n {
	case 0:
		what, both = "airborne pair", true
		lat, lon, err, p = sut.AirborneGlobal(q.cpr[0], q.cpr[1], q.cpr[2], q.cpr[3], q.last)
	case 1:
		what, both = "surface pair", true
		lat, lon, err, p = sut.SurfaceGlobal(q.cpr[0], q.cpr[1], q.cpr[2], q.cpr[3], q.last, q.ref[0], q.ref[1])
	case 2:
		what = "airborne position"
		lat, lon, p = sut.AirborneLocal(q.cpr[0], q.cpr[1], q.ref[0], q.ref[1], q.last)
	case 3:
		what = "surface position"
		lat, lon, p = sut.SurfaceLocal(q.cpr[0], q.cpr[1], q.ref[0], q.ref[1], q.last)
	case 4:
		what = "distance"
		lat, p = sut.Distance(q.ref[0], q.ref[1], q.ref[2], q.ref[3])
	}
	if p != "" {
		r.Fail("panic:"+what, "%s of %v with %v panics: %s", what, q.cpr, q.ref, p)
		return
	}
	if both && err == nil && (math.IsNaN(lat) || math.IsNaN(lon) || math.IsInf(lat, 0) || math.IsInf(lon, 0)) {
		r.Fail("no-number:"+what, "%s of %v with %v gives %v, %v without an error", what, q.cpr, q.ref, lat, lon)
	}
}

func (m *c02) Restart(r *core.Run, rx int) {}
func (m *c02) Finish(r *core.Run)          {}

func init() {
	register(&Spec{ID: "C02", New: func() core.Model { return &c02{} }, Slots: 60, Quick: 4500, Thorough: 150000, Chunk: 50, Unit: "byte string arriving at a receiver",
		Rule:   "A case is one byte string arriving at a receiver, given to each of the readers; distinct by bytes; non-trivial as every outcome must be a message or an error, every method of every message is called, and two recorded calls are repeated after it.",
		Real:   []string{"pkg/modes/reader", "pkg/adsb/**", "pkg/bds/** (every reader)", "pkg/commb", "pkg/acas/ra", "pkg/geo"},
		Stub:   []string{"transmitters, benign and hostile", "radio channel"},
		Assume: []string{"the integrity check is given the bytes its message was read from"}})
}
