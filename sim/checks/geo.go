package checks

import (
	"fmt"
	"math"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// flight is an aircraft or a vehicle in motion on a great circle.
type flight struct {
	addr    uint32
	course  ref.Course
	surface bool
	v       int
	ghost   bool // a transmitter whose positions make no sense
	odd     int
	stopped bool
}

// somewhere draws a place, with a weight on the places where the encoding changes.
func somewhere(g *core.Rng) (lat, lon float64) {
	lon = g.FloatIn(-180, 180)
	sign := 1.0
	if g.Bool() {
		sign = -1
	}
	switch g.Intn(13) {
	case 0: // poles
		lat = sign * (90 - math.Abs(g.FloatIn(-1, 1))*g.FloatIn(0, 4))
	case 1:
		lat = sign * 90
	case 2: // equator
		lat = g.FloatIn(-0.2, 0.2)
	case 3, 4: // changes of the number of longitude zones
		lat = sign * (ref.NLAt(g.Range(2, 59)) + g.FloatIn(-1, 1)*math.Pow(10, g.FloatIn(-5, -0.5)))
	case 5: // limits of latitude zones
		lat = sign * (float64(g.Intn(16))*[...]float64{6, 360.0 / 59, 1.5, 90.0 / 59, 3}[g.Intn(5)] + g.FloatIn(-1, 1)*math.Pow(10, g.FloatIn(-6, -0.5)))
	case 6, 7:
		lat = math.Asin(g.FloatIn(-1, 1)) * 180 / math.Pi
	default:
		lat = g.FloatIn(-75, 75)
	}
	switch g.Intn(6) {
	case 0: // antimeridian
		lon = sign*180 + g.FloatIn(-1, 1)*math.Pow(10, g.FloatIn(-5, 0.5))
	case 1: // Greenwich
		lon = g.FloatIn(-1, 1) * math.Pow(10, g.FloatIn(-5, 0.5))
	case 2: // limits of longitude zones
		n := g.Range(1, 59)
		lon = 360/float64(n)*float64(g.Intn(n+1)) + g.FloatIn(-1, 1)*math.Pow(10, g.FloatIn(-6, -1))
	case 3: // round values
		lon = float64(g.Range(-12, 12)) * 15
	}
	return math.Max(-90, math.Min(90, lat)), ref.Wrap(lon)
}

func newFlight(g *core.Rng, lat, lon float64, surface bool) flight {
	speed := g.FloatIn(0, 650)
	if surface {
		speed = g.FloatIn(0, 180)
	}
	switch g.Intn(8) {
	case 0:
		speed = 0
	case 1:
		speed *= 10 // a rocket
	}
	h := g.FloatIn(0, 360)
	if g.P(0.4) {
		h = float64(g.Intn(4)) * 90
	}
	return flight{addr: uint32(g.Bits(24)), course: ref.NewCourse(lat, lon, h, speed), surface: surface, v: g.Intn(3), odd: g.Intn(2), stopped: speed == 0}
}

// fix is a position report in flight.
type fix struct {
	fl    *flight
	cpr   ref.CPR
	m     *ref.Msg
	ghost bool
}

// report makes the position squitter of a flight at a time.
func (f *flight) report(g *core.Rng, at int64, odd int) core.Emission {
	lat, lon := f.course.At(float64(at) / 1e9)
	c := ref.EncodeCPR(lat, lon, f.surface, odd)
	if f.ghost {
		c.Lat, c.Lon = uint32(g.Bits(17)), uint32(g.Bits(17))
	}
	o := ref.MsgOpt{Lat: &c.Lat, Lon: &c.Lon, Odd: &odd, Alt12: &goodAlt12}
	var m *ref.Msg
	if f.surface {
		m = ref.SurfPos(g, f.v, o)
	} else {
		m = ref.AirPos(g, f.v, o)
	}
	cf := 0
	fr := ref.ModeS(g, 17, f.addr, m.Part, 0, ref.HeaderOpt{CF: &cf})
	parity := "even"
	if odd == 1 {
		parity = "odd"
	}
	return core.Emission{At: at, Src: int(f.addr), Kind: fmt.Sprintf("%s position of %06X at %.6f,%.6f", parity, f.addr, lat, lon), Frame: fr.Bytes, Meta: &fix{f, c, m, f.ghost}}
}

// read decodes a position squitter and gives what the geometry needs.
func (f *fix) read(r *core.Run, part []byte) (lat, lon uint32, odd bool, ok bool) {
	o, err, p := sut.ReadADSB(f.fl.v, false, false, part)
	if p != "" || err != nil || isNilMsg(o) {
		r.Fail("refused", "the position squitter %X is not read: %v %s", part, err, p)
		return
	}
	a, ok1 := asUint(o, "EncodedLatitude")
	b, ok2 := asUint(o, "EncodedLongitude")
	c, ok3 := asUint(o, "CPRFormat")
	if !ok1 || !ok2 || !ok3 {
		r.Abort = "a position has no encoded coordinates"
		return
	}
	return uint32(a), uint32(b), c == 1, true
}

func inRange(lat, lon float64) bool { return lat >= -90 && lat <= 90 && lon >= -180 && lon <= 180 }

// heard is the last frame of each kind that a receiver has of an aircraft.
type heard struct {
	fix      *fix
	lat, lon uint32
}

// pairs is the simulation behind C08 and C09: receivers pair even and odd frames.
type pairs struct {
	surface bool
	fleet   []flight
	rx      []map[uint32]*[2]*heard
	ref     [][2]float64
}

func (m *pairs) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.Prof.MaxDelay = 4 * core.Second
	r.NRx = g.Range(1, 2)
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, map[uint32]*[2]*heard{})
		lat, lon := somewhere(g)
		m.ref = append(m.ref, [2]float64{lat, lon})
	}
	for i := g.Range(2, 6); i > 0; i-- {
		lat, lon := somewhere(g)
		if m.surface {
			// somewhere around one of the receivers
			q := m.ref[g.Intn(len(m.ref))]
			for k := 0; k < 20; k++ {
				if g.P(0.7) {
					lat, lon = math.Max(-90, math.Min(90, q[0]+g.FloatIn(-44.9, 44.9))), ref.Wrap(q[1]+g.FloatIn(-44.9, 44.9))
				} else {
					lat, lon = somewhere(g)
				}
				if g.P(0.2) {
					lat = g.FloatIn(-1, 1) * math.Pow(10, g.FloatIn(-6, 0)) // the equator
				}
				if math.Abs(lat-q[0]) < 44.9 && math.Abs(ref.Wrap(lon-q[1])) < 44.9 {
					break
				}
			}
		}
		f := newFlight(g, lat, lon, m.surface)
		f.addr = f.addr&^7 | uint32(i)
		f.ghost = g.P(0.1)
		m.fleet = append(m.fleet, f)
	}
}

func (m *pairs) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	f := &m.fleet[g.Intn(len(m.fleet))]
	at := int64(slot)*200*core.Millisecond + int64(g.Intn(100))*core.Millisecond
	return []core.Emission{f.report(g, at, g.Intn(2))}
}

func (m *pairs) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	f := d.Em.Meta.(*fix)
	lat, lon, odd, ok := f.read(r, part)
	if !ok {
		return
	}
	st := m.rx[d.Rx][f.fl.addr]
	if st == nil {
		st = &[2]*heard{}
		m.rx[d.Rx][f.fl.addr] = st
	}
	k := int(b2u(odd))
	st[k] = &heard{f, lat, lon}
	e, o := st[0], st[1]
	if e == nil || o == nil {
		return
	}
	r.Distinct(core.Mix(uint64(e.lat)<<17|uint64(e.lon), uint64(o.lat)<<17|uint64(o.lon), b2u(odd)))
	q := m.ref[d.Rx]
	var gla, glo float64
	var err error
	var p string
	what := fmt.Sprintf("even %d/%d and odd %d/%d, odd last %v", e.lat, e.lon, o.lat, o.lon, odd)
	if m.surface {
		what += fmt.Sprintf(", receiver at %.6f,%.6f", q[0], q[1])
		gla, glo, err, p = sut.SurfaceGlobal(e.lat, e.lon, o.lat, o.lon, !odd, q[0], q[1])
	} else {
		gla, glo, err, p = sut.AirborneGlobal(e.lat, e.lon, o.lat, o.lon, !odd)
	}
	r.Count("checks")
	if p != "" {
		r.Fail("panic", "%s: %s", what, p)
		return
	}
	r.Note(math.Float64bits(gla) ^ math.Float64bits(glo)*3)
	if err == nil && !inRange(gla, glo) {
		r.Fail("range", "%s: the position is %v,%v", what, gla, glo)
		return
	}
	if f.ghost {
		m.ghost(r, what, e, o, err)
		return
	}
	// both frames of the same flight, sent within the pairing time
	c := &f.cpr
	a, b := &e.fix.cpr, &o.fix.cpr
	limit := 2.95 / 60
	if m.surface {
		limit = 0.73 / 60
		for _, x := range []*ref.CPR{a, b} {
			if math.Abs(x.TrueLat-q[0]) > 44.9 || math.Abs(ref.Wrap(x.TrueLon-q[1])) > 44.9 {
				r.Count("pairs too far from the receiver")
				return
			}
		}
	}
	if ref.GreatCircle(a.TrueLat, a.TrueLon, b.TrueLat, b.TrueLon) > limit {
		r.Count("pairs beyond the pairing time")
		return
	}
	what = fmt.Sprintf("aircraft at %.7f,%.7f: %s", c.TrueLat, c.TrueLon, what)
	if a.NL != b.NL && a.Sure && b.Sure {
		r.Count("pairs across longitude zones")
		if err == nil {
			r.Fail("not-refused", "%s: the frames lie in zones %d and %d, but the position is %v,%v", what, a.NL, b.NL, gla, glo)
		}
		return
	}
	if err != nil {
		if a.Sure && b.Sure {
			r.Fail("refused", "%s: refused: %v", what, err)
		}
		return
	}
	r.Count("pairs decoded")
	if !c.Near(gla, glo) && a.Sure && b.Sure {
		r.Fail("position", "%s: the position is %.7f,%.7f, %.3f km away", what, gla, glo, 6371*math.Pi/180*ref.GreatCircle(c.TrueLat, c.TrueLon, gla, glo))
	}
}

// ghost judges a pair with arbitrary coordinates: no latitude beyond the poles.
func (m *pairs) ghost(r *core.Run, what string, e, o *heard, err error) {
	r.Count("pairs of arbitrary coordinates")
	if m.surface {
		return
	}
	le, lo := float64(e.lat)/131072, float64(o.lat)/131072
	j := math.Floor(59*le - 60*lo + 0.5)
	md := func(x, y float64) float64 { return x - y*math.Floor(x/y) }
	a, b := 6*(md(j, 60)+le), 360.0/59*(md(j, 59)+lo)
	if a > 90+1e-9 && a < 270-1e-9 || b > 90+1e-9 && b < 270-1e-9 {
		r.Count("pairs that imply no latitude on earth")
		if err == nil {
			r.Fail("impossible-accepted", "%s: implies the latitudes %.4f and %.4f, but is accepted", what, a, b)
		}
	}
}

func (m *pairs) Restart(r *core.Run, rx int) { m.rx[rx] = map[uint32]*[2]*heard{} }
func (m *pairs) Finish(r *core.Run)          {}

// local is the simulation behind C10: receivers follow each aircraft with its last position as reference.
type local struct {
	fleet []flight
	rx    []map[uint32][2]float64
	g     *core.Rng
}

func (m *local) Setup(r *core.Run) {
	g := r.Rng
	m.g = core.NewRng(core.Mix(r.Plan.Seed, 77))
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := 0; i < r.NRx; i++ {
		m.rx = append(m.rx, map[uint32][2]float64{})
	}
	for i := g.Range(2, 6); i > 0; i-- {
		lat, lon := somewhere(g)
		f := newFlight(g, lat, lon, g.P(0.4))
		f.addr = f.addr&^7 | uint32(i)
		m.fleet = append(m.fleet, f)
	}
}

func (m *local) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	f := &m.fleet[g.Intn(len(m.fleet))]
	return []core.Emission{f.report(g, int64(slot)*300*core.Millisecond+int64(g.Intn(100))*core.Millisecond, g.Intn(2))}
}

func (m *local) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	f := d.Em.Meta.(*fix)
	lat, lon, odd, ok := f.read(r, part)
	if !ok {
		return
	}
	c := &f.cpr
	reach := 2.98
	if f.fl.surface {
		reach = 0.745
	}
	q, tracked := m.rx[d.Rx][f.fl.addr]
	dg := core.NewRng(core.Mix(r.Plan.Seed, 78, uint64(d.Slot), uint64(d.Rx), uint64(d.Copy)))
	far := func() bool {
		return ref.GreatCircle(q[0], q[1], c.TrueLat, c.TrueLon) > reach+1e-9 || f.fl.surface && math.Abs(ref.Wrap(q[1]-c.TrueLon)) > 44.9
	}
	if !tracked || far() {
		// a new reference, anywhere in range
		dist := reach * math.Sqrt(dg.Float())
		if dg.P(0.3) {
			dist = reach
		}
		s := ref.NewCourse(c.TrueLat, c.TrueLon, dg.FloatIn(0, 360), dist*3600*60)
		q[0], q[1] = s.At(1)
		if dg.P(0.1) || far() {
			q[0], q[1] = c.TrueLat, c.TrueLon
		}
		tracked = false
	}
	if dg.P(0.05) {
		q[1] += 360 // also a reference is a place
		if dg.Bool() {
			q[1] -= 720
		}
	}
	r.Distinct(core.Mix(uint64(lat)<<18|uint64(lon)<<1|b2u(odd), uint64(int64(q[0]*1000)), uint64(int64(q[1]*1000)), b2u(f.fl.surface)))
	var gla, glo float64
	var p string
	kind := "airborne"
	if f.fl.surface {
		kind = "surface"
		gla, glo, p = sut.SurfaceLocal(lat, lon, q[0], q[1], odd)
	} else {
		gla, glo, p = sut.AirborneLocal(lat, lon, q[0], q[1], odd)
	}
	what := fmt.Sprintf("%s %d/%d odd %v of %.7f,%.7f with reference %.7f,%.7f", kind, lat, lon, odd, c.TrueLat, c.TrueLon, q[0], q[1])
	r.Count("checks")
	if p != "" {
		r.Fail("panic", "%s: %s", what, p)
		return
	}
	r.Note(math.Float64bits(gla) ^ math.Float64bits(glo)*3)
	if !inRange(gla, glo) {
		r.Fail("range", "%s: the position is %v,%v", what, gla, glo)
		return
	}
	if !c.Sure {
		return
	}
	if tracked {
		r.Count("positions from the position before")
	} else {
		r.Count("positions from a new reference")
	}
	if !c.Near(gla, glo) {
		r.Fail("position", "%s: the position is %.7f,%.7f, %.3f km away", what, gla, glo, 6371*math.Pi/180*ref.GreatCircle(c.TrueLat, c.TrueLon, gla, glo))
		return
	}
	m.rx[d.Rx][f.fl.addr] = [2]float64{gla, glo}
}

func (m *local) Restart(r *core.Run, rx int) { m.rx[rx] = map[uint32][2]float64{} }
func (m *local) Finish(r *core.Run)          {}

// distance is the simulation behind C17: receivers measure how far aircraft go.
type distance struct {
	fleet []flight
	last  []map[uint32]*leg
}

type leg struct {
	at  int64
	len float64
	arc float64
}

func (m *distance) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = g.Range(1, 2)
	for i := 0; i < r.NRx; i++ {
		m.last = append(m.last, map[uint32]*leg{})
	}
	for i := g.Range(2, 6); i > 0; i-- {
		lat, lon := somewhere(g)
		f := newFlight(g, lat, lon, false)
		f.addr = f.addr&^7 | uint32(i)
		// from a few millimetres to once around the earth within the run
		f.course.W = math.Pow(10, g.FloatIn(-9, math.Log10(2*math.Pi))) / (float64(r.Plan.N) * 0.3)
		m.fleet = append(m.fleet, f)
	}
}

func (m *distance) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	f := &m.fleet[g.Intn(len(m.fleet))]
	return []core.Emission{f.report(g, int64(slot)*300*core.Millisecond, g.Intn(2))}
}

const earth = 6371000.0

// want gives the distance and how far rounding may take it.
func want(arc float64) (d, tol float64) {
	d = earth * arc
	c := math.Max(math.Cos(arc/2), 1e-8)
	return d, 1e-9*d + earth*(4e-15+8e-16/c)
}

func (m *distance) Deliver(r *core.Run, d *core.Delivery) {
	part := hear(r, d)
	if part == nil {
		return
	}
	f := d.Em.Meta.(*fix)
	la0, lo0 := f.fl.course.At(0)
	la, lo := f.cpr.TrueLat, f.cpr.TrueLon
	if d.Copy > 0 { // another way to say the same longitude
		lo = ref.Wrap(lo)
	}
	ask := func(what string, a, b, c, e float64) (float64, bool) {
		x, p := sut.Distance(a, b, c, e)
		r.Count("checks")
		r.Distinct(core.Mix(math.Float64bits(a), math.Float64bits(b), math.Float64bits(c), math.Float64bits(e)))
		if p != "" {
			r.Fail("panic", "the distance from %v,%v to %v,%v: %s", a, b, c, e, p)
			return 0, false
		}
		w, tol := want(ref.VecOf(a, b).Angle(ref.VecOf(c, e)))
		if small := haversine(a, b, c, e); w < 1000 {
			w = small
			tol = 1e-9*w + 1e-7
		}
		if !(math.Abs(x-w) <= tol) {
			r.Fail("distance:"+what, "the distance from %v,%v to %v,%v is %v m, not %v m", a, b, c, e, x, w)
			return 0, false
		}
		if !(x >= 0) || x > math.Pi*earth*(1+1e-12) {
			r.Fail("bounds", "the distance from %v,%v to %v,%v is %v m", a, b, c, e, x)
			return 0, false
		}
		return x, true
	}
	x, ok := ask("from the start", la0, lo0, la, lo)
	if !ok {
		return
	}
	y, ok := ask("to the start", la, lo, la0, lo0)
	if !ok {
		return
	}
	if x != y {
		if _, tol := want(ref.VecOf(la0, lo0).Angle(ref.VecOf(la, lo))); math.Abs(x-y) > tol {
			r.Fail("asymmetric", "from %v,%v to %v,%v: %v m one way, %v m the other", la0, lo0, la, lo, x, y)
			return
		}
	}
	if z, ok := ask("to itself", la, lo, la, lo); !ok || z != 0 {
		r.Fail("not-zero", "the distance from %v,%v to itself is %v", la, lo, z)
		return
	}
	if (la != la0 || lo != lo0) && haversine(la0, lo0, la, lo) > 1e-3 && x == 0 {
		r.Fail("zero", "the distance from %v,%v to %v,%v is zero", la0, lo0, la, lo)
		return
	}
	ask("to the antipode", la, lo, -la, ref.Wrap(lo+180))
	// along the course the distance grows until half way round
	arc := f.fl.course.W * float64(d.Em.At) / 1e9
	st := m.last[d.Rx][f.fl.addr]
	if st != nil && arc < math.Pi {
		_, tol := want(arc)
		if at := st.at; at < d.Em.At && x < st.len-2*tol || at > d.Em.At && x > st.len+2*tol {
			r.Fail("shrinks", "along a great circle from %v,%v: %v m after %v, %v m after %v", la0, lo0, st.len, core.T(at), x, core.T(d.Em.At))
			return
		}
		r.Count("distances along a course compared")
	}
	if arc < math.Pi {
		m.last[d.Rx][f.fl.addr] = &leg{d.Em.At, x, arc}
	}
	r.Note(math.Float64bits(x))
}

// haversine for near places, where differences of coordinates are exact.
func haversine(a, b, c, e float64) float64 {
	k := math.Pi / 180
	u, v := math.Sin((c-a)*k/2), math.Sin(ref.Wrap(e-b)*k/2)
	h := math.Hypot(u, v*math.Sqrt(math.Max(0, math.Cos(a*k)*math.Cos(c*k))))
	return 2 * earth * math.Asin(math.Min(1, h))
}

func (m *distance) Restart(r *core.Run, rx int) { m.last[rx] = map[uint32]*leg{} }
func (m *distance) Finish(r *core.Run)          {}

func init() {
	real := []string{"pkg/modes/reader", "pkg/adsb/reader", "pkg/adsb/airborne_position", "pkg/bds/bds05", "pkg/geo"}
	stub := []string{"aircraft (great-circle motion, DO-260B position encoder)", "radio channel", "pairing and tracking of the receiver"}
	register(&Spec{ID: "C08", New: func() core.Model { return &pairs{} }, Slots: 300, Quick: 95000, Thorough: 1500000, Unit: "pair of airborne position frames at a receiver",
		Rule: "A case is the last even and odd frame a receiver has of an aircraft, at each arrival; distinct by coordinates and order; non-trivial as the result is compared with the true position, or must be a refusal.",
		Real: real, Stub: stub, Assume: []string{"the two positions of a pair are less than 2.95 NM apart", "results within 1e-9 degrees of a change of the number of longitude zones are not judged"}})
	register(&Spec{ID: "C09", New: func() core.Model { return &pairs{surface: true} }, Slots: 300, Quick: 95000, Thorough: 1500000, Unit: "pair of surface position frames at a receiver",
		Rule: "A case is the last even and odd frame a receiver has of a vehicle, at each arrival; distinct by coordinates and order; non-trivial as the result is compared with the true position, or must be a refusal.",
		Real: []string{"pkg/modes/reader", "pkg/adsb/reader", "pkg/adsb/surface_position", "pkg/bds/bds06", "pkg/geo"}, Stub: stub, Assume: []string{"the two positions of a pair are less than 0.73 NM apart and less than 44.9 degrees from the receiver in latitude and longitude"}})
	register(&Spec{ID: "C10", New: func() core.Model { return &local{} }, Slots: 300, Quick: 95000, Thorough: 1500000, Unit: "position frame at a receiver with a reference",
		Rule: "A case is one position frame with a reference in range, drawn or the last decoded position; distinct by coordinates and reference (to 0.001 degrees); non-trivial as the result is compared with the true position.",
		Real: append(real, "pkg/adsb/surface_position", "pkg/bds/bds06"), Stub: stub, Assume: []string{"references are within 2.98 degrees of a great circle (178.8 NM), 0.745 and 44.9 degrees of longitude for surface frames"}})
	register(&Spec{ID: "C17", New: func() core.Model { return &distance{} }, Slots: 200, Quick: 110000, Thorough: 1500000, Unit: "position of an aircraft on a known great circle",
		Rule: "A case is a pair of positions: start and current position of a flight both ways, the position itself, and its antipode; distinct by coordinates; non-trivial as the distance is compared with the angle of the vectors.",
		Real: []string{"pkg/geo"}, Stub: stub, Assume: []string{"the earth is a sphere of radius 6371 km, as in the code"}})
}
