package checks

import (
	"fmt"
	"strings"

	"github.com/twuillemin/modes/pkg/adsb"

	"vsim/core"
	"vsim/ref"
	"vsim/sut"
)

// A call of the decoder with everything it was given, so that it can be repeated.
type call struct {
	what   string // "frame", "squitter", "register", "advisory", "crc", "position", "reader"
	e      int    // of a reader of one layout, which
	b      []byte
	v      int
	a, c   bool
	addrs  map[sut.Addr]bool
	iis    map[sut.Addr]bool
	cpr    [4]uint32
	refLat float64
	refLon float64
	odd    bool
}

// read makes a call that gives a message.
func (c *call) read(b []byte) (obj interface{}, err error, p string) {
	switch c.what {
	case "frame":
		m, e, q := sut.ReadMessage(b)
		obj, err, p = m, e, q
	case "squitter":
		m, e, q := sut.ReadADSB(c.v, c.a, c.c, b)
		obj, err, p = m, e, q
	case "register":
		m, e, q := sut.ReadCommB(b)
		obj, err, p = m, e, q
	case "advisory":
		m, e, q := sut.ReadRA(b)
		obj, err, p = m, e, q
	case "reader":
		p = guard(func() { obj, err = sut.Entries[c.e].Call(sut.In{V: adsb.ADSBVersion(c.v), A: c.a, C: c.c}, b) })
	}
	return
}

// text names the call with all its arguments.
func (c *call) text(b []byte) string {
	switch c.what {
	case "position":
		return fmt.Sprintf("%s question %d (even %d/%d, odd %d/%d, reference %v,%v, odd last %v)", c.what, c.v, c.cpr[0], c.cpr[1], c.cpr[2], c.cpr[3], c.refLat, c.refLon, c.odd)
	case "reader":
		return fmt.Sprintf("reader %s %X (version %d, supplements %v %v)", sut.Entries[c.e].Name, b, c.v, c.a, c.c)
	case "squitter":
		return fmt.Sprintf("%s %X (version %d, supplements %v %v)", c.what, b, c.v, c.a, c.c)
	}
	return fmt.Sprintf("%s %X", c.what, b)
}

// do makes the call and describes everything it gave; obj is the message.
func (c *call) do(b []byte) (said string, obj interface{}, p string) {
	switch c.what {
	case "crc":
		m, e, q := sut.ReadMessage(b)
		if q != "" || e != nil {
			return refused("", e, q)
		}
		a, e, q := sut.CheckCRC(m, b, c.addrs, c.iis)
		return refused(fmt.Sprintf("%06X ", uint32(a)), e, q)
	case "position":
		switch c.v {
		case 0:
			lat, lon, e, q := sut.AirborneGlobal(c.cpr[0], c.cpr[1], c.cpr[2], c.cpr[3], c.odd)
			return refused(fmt.Sprint(lat, lon, " "), e, q)
		case 1:
			lat, lon, e, q := sut.SurfaceGlobal(c.cpr[0], c.cpr[1], c.cpr[2], c.cpr[3], c.odd, c.refLat, c.refLon)
			return refused(fmt.Sprint(lat, lon, " "), e, q)
		case 2:
			lat, lon, q := sut.AirborneLocal(c.cpr[0], c.cpr[1], c.refLat, c.refLon, c.odd)
			return fmt.Sprint(lat, lon), nil, q
		case 3:
			lat, lon, q := sut.SurfaceLocal(c.cpr[0], c.cpr[1], c.refLat, c.refLon, c.odd)
			return fmt.Sprint(lat, lon), nil, q
		}
		d, q := sut.Distance(c.refLat, c.refLon, float64(c.cpr[0])/800-80, float64(c.cpr[1])/400-160)
		return fmt.Sprint(d), nil, q
	}
	obj, err, p := c.read(b)
	if p != "" {
		return "", nil, p
	}
	if err != nil || isNilMsg(obj) {
		return refused("refused: ", err, "")
	}
	return describe(obj), obj, ""
}

// refusal is an error that a receiver keeps.
type refusal struct {
	before string
	err    error
}

func refused(before string, err error, p string) (string, interface{}, string) {
	if err == nil || p != "" {
		return before, nil, p
	}
	return before + errText(err), refusal{before, err}, ""
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// describe writes all that a decoded message holds and says.
func describe(obj interface{}) string {
	if x, ok := obj.(refusal); ok {
		return x.before + errText(x.err)
	}
	s := sut.Snap(obj)
	q, _, p := sut.Query(obj)
	return s + "\n" + q + p
}

// newCall draws a call with well-formed arguments.
func newCall(g *core.Rng, addrs []uint32) *call {
	c := &call{v: g.Intn(3)}
	addr := addrs[g.Intn(len(addrs))]
	switch g.Intn(12) {
	case 10, 11:
		c.what = "reader"
		c.e = g.Intn(len(sut.Entries))
		c.a, c.c = g.Bool(), g.Bool()
		c.b = forReader(g, c.e, c.v, addr)
	case 0, 1, 2:
		c.what = "squitter"
		m := anySquitter(g, c.v, ref.MsgOpt{})
		c.b, c.a, c.c = m.Part, m.A, m.C
	case 3, 4:
		c.what = "register"
		c.b = ref.AnyReg(g, ref.RegOpt{}).Part
	case 5:
		c.what = "advisory"
		c.b = ref.NewRA(g, ref.RAOpt{}).Bits
	case 6, 7:
		c.what = "frame"
		c.b = anyFrame(g, addr).Bytes
	case 8:
		c.what = "crc"
		c.b = anyFrame(g, addr).Bytes
		if g.Bool() {
			c.addrs = map[sut.Addr]bool{}
			for k := g.Intn(4); k > 0; k-- {
				c.addrs[sut.Addr(addrs[g.Intn(len(addrs))])] = g.Bool()
			}
		}
		if g.Bool() {
			c.iis = map[sut.Addr]bool{}
			for k := g.Intn(4); k > 0; k-- {
				c.iis[sut.Addr(g.Intn(80))] = g.Bool()
			}
		}
	default:
		c.what = "position"
		c.v = g.Intn(5)
		for i := range c.cpr {
			c.cpr[i] = uint32(g.Uniform(17))
		}
		c.refLat, c.refLon, c.odd = g.FloatIn(-90, 90), g.FloatIn(-180, 180), g.Bool()
		if g.Intn(3) == 0 {
			// Next to where the number of zones changes
			c.refLat = ref.NLAt(2+g.Intn(58)) + g.FloatIn(-0.1, 0.1)
			if g.Bool() {
				c.refLat = -c.refLat
			}
			c.there()
		} else if g.Bool() {
			c.there()
		}
	}
	return c
}

// there makes the frames of a call those of an aircraft at its reference.
func (c *call) there() {
	surface := c.v == 1 || c.v == 3
	e, o := ref.EncodeCPR(c.refLat, c.refLon, surface, 0), ref.EncodeCPR(c.refLat, c.refLon, surface, 1)
	c.cpr = [4]uint32{e.Lat, e.Lon, o.Lat, o.Lon}
}

// sibling draws a call that differs from another one in little.
func sibling(g *core.Rng, o *call) *call {
	c := *o
	c.b = append([]byte(nil), o.b...)
	switch k := g.Intn(8); {
	case k == 0 && c.what == "squitter":
		c.v = g.Intn(3)
	case k == 1 && c.what == "squitter":
		c.a = !c.a
	case k == 2 && c.what == "squitter":
		c.c = !c.c
	case c.what == "position":
		switch g.Intn(6) {
		case 4, 5:
			// A little further on
			c.refLat += g.FloatIn(-0.2, 0.2) * float64(g.Intn(3)) * 0.5
			c.refLon += g.FloatIn(-0.2, 0.2)
			if c.refLat < -90 || c.refLat > 90 {
				c.refLat = 89
			}
			c.there()
		case 0:
			c.odd = !c.odd
		case 1:
			c.cpr[g.Intn(4)] ^= 1 << uint(g.Intn(17))
		case 2:
			c.refLat = g.FloatIn(-90, 90)
		default:
			c.refLon = g.FloatIn(-180, 180)
		}
	case c.what == "crc" && k < 3:
		c.addrs = map[sut.Addr]bool{}
		if g.Bool() {
			c.addrs[sut.Addr(g.Bits(24))] = true
		}
	case len(c.b) > 0 && k < 6:
		n := g.Intn(len(c.b) * 8)
		c.b[n/8] ^= 0x80 >> uint(n%8)
	case len(c.b) > 0:
		c.b[g.Intn(len(c.b))] = byte(g.U64())
	}
	return &c
}

// forReader draws bytes that one of the readers may read.
func forReader(g *core.Rng, e, v int, addr uint32) (b []byte) {
	name := sut.Entries[e].Name
	for i := 0; i < 60; i++ {
		switch {
		case strings.HasPrefix(name, "acas/"):
			b = ref.NewRA(g, ref.RAOpt{}).Bits
		case strings.HasPrefix(name, "modes/"):
			b = anyFrame(g, addr).Bytes
		case layouts[name] != nil || strings.HasPrefix(name, "adsb/"):
			b = anySquitter(g, v, ref.MsgOpt{}).Part
			if i >= 20 {
				b = anySquitter(g, g.Intn(3), ref.MsgOpt{}).Part
			}
		default:
			b = ref.AnyReg(g, ref.RegOpt{}).Part
		}
		if layouts[name] == nil && i < 30 {
			if k := strings.Index(name, "bds/bds"); k >= 0 && (b[0] != (name[k+7]-'0')<<4|(name[k+8]-'0')) && (b[0] == 0x10 || b[0] == 0x20 || b[0] == 0x30) {
				continue
			}
			return b
		}
		if mayRead(name, b) {
			return b
		}
	}
	return b
}

func anyFrame(g *core.Rng, addr uint32) *ref.Frame {
	df := allDF[g.Intn(len(allDF))]
	var part []byte
	switch {
	case df == 24:
		part = g.Bytes(10)
	case df == 17 || df == 18:
		part = anySquitter(g, g.Intn(3), ref.MsgOpt{}).Part
	case df == 20 || df == 21:
		part = ref.AnyReg(g, ref.RegOpt{}).Part
	case df == 16 && g.Bool():
		part = append([]byte{0x30}, ref.NewRA(g, ref.RAOpt{}).Bits...)
	default:
		part = g.Bytes(7)
	}
	return ref.ModeS(g, df, addr, part, uint32(g.Uniform(7)), ref.HeaderOpt{})
}

// probes are calls whose answers were recorded when the process had done nothing else yet.
type probe struct {
	c    *call
	said string
	obj  interface{} // the message itself, kept for the life of the process
}

var probeSet []probe

func probes() []probe {
	if probeSet == nil {
		g := core.NewRng(0x9009)
		var addrs []uint32
		for i := 0; i < 8; i++ {
			addrs = append(addrs, uint32(g.Uniform(24)))
		}
		for i := 0; i < 300; i++ {
			c := newCall(g, addrs)
			said, obj, _ := c.do(append([]byte(nil), c.b...))
			probeSet = append(probeSet, probe{c, said, obj})
		}
	}
	return probeSet
}

// readerProbes are for each reader some calls that it answered when the process had done nothing else yet.
func readerProbes() [][]probe {
	if readerSet == nil {
		g := core.NewRng(0x9010)
		for e := range sut.Entries {
			var l []probe
			for i := 0; i < 40 && len(l) < 6; i++ {
				c := &call{what: "reader", e: e, v: i % 3, a: g.Bool(), c: g.Bool()}
				c.b = forReader(g, e, c.v, uint32(g.Uniform(24)))
				said, obj, p := c.do(append([]byte(nil), c.b...))
				if _, no := obj.(refusal); obj != nil && !no || p != "" || i >= 34 {
					l = append(l, probe{c, said, nil})
				}
			}
			readerSet = append(readerSet, l)
		}
	}
	return readerSet
}

var readerSet [][]probe

// diffLine gives the first line in which two descriptions differ.
func diffLine(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := max(i-30, 0), min(i+40, len(s))
		return s[min(from, len(s)):to]
	}
	return fmt.Sprintf("...%q, before ...%q", cut(a), cut(b))
}
