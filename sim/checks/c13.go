//go:build simsched

package checks

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/twuillemin/modes/pkg/bds"

	"vsim/core"
	"vsim/ref"
	"vsim/sched"
	"vsim/sut"
)

// C13: threads that decode at the same time, one statement of one thread at a time in an order drawn from the seed.
type c13 struct {
	sequential bool
	results    []string
	addrs      []uint32
	allowA     map[sut.Addr]bool
	allowI     map[sut.Addr]bool
	theme      string
	threads    int
	gap        int
	sharing    bool
	shared     [][]byte
	common     []*call
	pool       []*call // calls that recur, in runs that have some
	jobs       []c13job
}

type c13job struct {
	c      *call
	b      []byte
	share  int // index of a message shared by the threads, -1 for none
	query  bool
	thread int
	what   string
}

func (m *c13) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = 1
	for i := 0; i < 4; i++ {
		m.addrs = append(m.addrs, uint32(g.Bits(24)))
	}
	m.allowA, m.allowI = map[sut.Addr]bool{}, map[sut.Addr]bool{}
	for i := g.Intn(4); i > 0; i-- {
		m.allowA[sut.Addr(m.addrs[g.Intn(4)])] = true
		m.allowI[sut.Addr(g.Intn(80))] = true
	}
	if g.P(0.5) {
		m.theme = []string{"frame", "squitter", "register", "advisory", "crc", "position", "reader"}[g.Intn(7)]
	}
	m.threads = g.Range(2, 5)
	m.gap = []int{1, 2, 4, 10, 30, 100, 400}[g.Intn(7)]
	m.sharing = g.P(0.4)
	for i := 0; i < 4; i++ {
		m.shared = append(m.shared, anyFrame(g, m.addrs[i]).Bytes)
	}
	for len(m.common) < 6 {
		c := newCall(g, m.addrs)
		if c.what != "crc" && c.what != "position" && len(c.b) > 0 {
			m.common = append(m.common, c)
		}
	}
	if g.Bool() {
		for n := g.Range(1, 5); len(m.pool) < n; {
			m.pool = append(m.pool, m.draw(g))
		}
	}
}

// draw draws a call of the run.
func (m *c13) draw(g *core.Rng) *call {
	c := newCall(g, m.addrs)
	for i := 0; m.theme != "" && c.what != m.theme && i < 40; i++ {
		c = newCall(g, m.addrs)
	}
	if c.what == "crc" && g.P(0.7) {
		c.addrs, c.iis = m.allowA, m.allowI
	}
	return c
}

type c13meta struct {
	c     *call
	share int
	query bool
}

func (m *c13) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	var c *call
	switch k := g.Intn(8); {
	case m.pool == nil || k == 0:
		c = m.draw(g)
	case k < 6:
		c = m.pool[g.Intn(len(m.pool))]
	default:
		c = sibling(g, m.pool[g.Intn(len(m.pool))])
	}
	b := append([]byte(nil), c.b...)
	if len(b) == 0 {
		b = []byte{0}
	}
	me := &c13meta{c, -1, g.P(0.15)}
	if m.sharing && g.P(0.3) {
		me.share = g.Intn(len(m.common))
	} else if (c.what == "frame" || c.what == "crc") && g.P(0.4) {
		// all threads read the very same bytes
		b = m.shared[g.Intn(len(m.shared))]
	}
	return []core.Emission{{At: int64(slot) * core.Millisecond, Kind: c.what, Frame: b, Meta: me}}
}

func (m *c13) Deliver(r *core.Run, d *core.Delivery) {
	if d.Em == nil {
		return
	}
	me := d.Em.Meta.(*c13meta)
	b := d.Frame
	if d.Clean {
		b = d.Em.Frame
	}
	what := fmt.Sprintf("%s %X", me.c.what, b)
	if me.share >= 0 {
		what = fmt.Sprintf("shared message %d", me.share)
	}
	m.jobs = append(m.jobs, c13job{me.c, b, me.share, me.query, d.Slot % m.threads, what})
}

// c13result is what a thread got; it is described once the threads have ended.
type c13result struct {
	obj   interface{}
	said  string
	panic string
}

type printable interface{ ToString() string }
type coherent interface{ CheckCoherency() error }

func (m *c13) do(j *c13job, shared []interface{}) (res c13result) {
	c := j.c
	if j.share >= 0 {
		o := shared[j.share]
		if isNilMsg(o) {
			return
		}
		if j.query {
			res.said, _, res.panic = sut.Query(o)
			return
		}
		res.panic = guard(func() { res.said = o.(printable).ToString() })
		return
	}
	switch c.what {
	case "crc", "position":
		res.said, _, res.panic = c.do(j.b)
		return
	}
	var err error
	var list []interface{}
	res.obj, err, res.panic = c.read(j.b)
	if l, ok := res.obj.([]bds.Message); ok {
		for i := range l {
			list = append(list, l[i])
		}
	}
	if res.panic != "" {
		return
	}
	if err != nil || isNilMsg(res.obj) {
		res.obj = nil
		res.said = "refused: " + errText(err)
		return
	}
	if list == nil {
		list = []interface{}{res.obj}
	}
	for _, o := range list {
		if res.panic != "" {
			return
		}
		if j.query {
			s, _, p := sut.Query(o)
			res.said += s
			res.panic = p
			continue
		}
		res.panic = guard(func() {
			if t, ok := o.(printable); ok {
				res.said += t.ToString()
			}
			if t, ok := o.(coherent); ok {
				res.said += errText(t.CheckCoherency())
			}
		})
	}
	return
}

func (x *c13result) text() string {
	s := x.said
	if x.panic != "" {
		s += "PANIC " + x.panic
	}
	if x.obj != nil {
		s += "\n" + sut.Snap(x.obj)
	}
	return s
}

func (m *c13) Finish(r *core.Run) {
	if len(m.jobs) == 0 {
		return
	}
	// The messages that all threads have: they were decoded before, and only once.
	shared := make([]interface{}, len(m.common))
	if m.sharing {
		for i, c := range m.common {
			o, err, _ := c.read(append([]byte(nil), c.b...))
			if l, ok := o.([]bds.Message); ok && len(l) > 0 {
				shared[i] = l[i%len(l)]
			} else if err == nil && !ok {
				shared[i] = o
			}
		}
	}
	if m.sequential {
		for i := range m.jobs {
			x := m.do(&m.jobs[i], shared)
			m.results = append(m.results, x.text())
		}
		return
	}
	want, err := elsewhere("C13", r.Plan)
	if err != nil || len(want) != len(m.jobs) {
		r.Abort = fmt.Sprintf("no sequential results: %v, %d for %d calls", err, len(want), len(m.jobs))
		return
	}
	results := make([]c13result, len(m.jobs))
	var wg sync.WaitGroup
	var fns []func()
	for t := 0; t < m.threads; t++ {
		var mine []int
		for i := range m.jobs {
			if m.jobs[i].thread == t {
				mine = append(mine, i)
			}
		}
		if len(mine) == 0 {
			continue
		}
		wg.Add(1)
		fns = append(fns, func() {
			defer wg.Done()
			for _, i := range mine {
				results[i] = m.do(&m.jobs[i], shared)
			}
		})
	}
	before := sched.Races()
	off := map[int]bool{}
	for _, s := range r.Plan.SlotOff {
		var n int
		if k, _ := fmt.Sscanf(s, "%d:preemption", &n); k == 1 && strings.HasSuffix(s, ":preemption") {
			off[n] = true
		}
	}
	noPreempt := false
	for _, s := range r.Plan.Off {
		noPreempt = noPreempt || s == "preemption"
	}
	out := sched.Run(sched.Options{Seed: core.Mix(r.Plan.Seed, 13), Gap: m.gap, MaxSteps: 20000000,
		Skip: func(n int) bool { return noPreempt || off[n] }}, fns)
	r.Note(out.Order)
	r.Distinct(out.Order)
	r.CountN("statements executed under the scheduler", int64(out.Steps))
	r.CountN("fault:preemption", int64(out.Switches))
	r.Count(fmt.Sprintf("runs with %d threads", len(fns)))
	r.Logf("%d threads, %d calls, %d statements, %d preemptions drawn", len(fns), len(m.jobs), out.Steps, out.Switches)
	for i := range m.jobs {
		r.Logf("thread %d: %s", m.jobs[i].thread, m.jobs[i].what)
	}
	if r.Tracing {
		for i, s := range out.Trace {
			at := "its end"
			if s.Site >= 0 && s.Site < len(sched.Sites) {
				at = sched.Sites[s.Site]
			}
			r.Logf("thread %d runs %d statements, to %s", s.Thread, s.Steps, at)
			if i > 400 {
				r.Logf("...")
				break
			}
		}
	}
	r.Count("checks")
	switch out.Verdict {
	case "deadlock":
		r.Fail("deadlock", "%d threads wait for each other for ever; they last ran %s", len(fns), lastSites(out.Trace))
		return
	case "steps":
		r.Fail("no-progress", "%d calls do not end within %d statements", len(m.jobs), out.Steps)
		return
	case "":
	default:
		r.Abort = "the threads do not come back to the scheduler"
		return
	}
	wg.Wait()
	if sched.Races() > before {
		txt, ours := raceReport()
		if !ours {
			r.Abort = "a race outside of the decoder: " + txt
			return
		}
		r.Fail("race", "accesses without ordering between them: %s", txt)
		if r.Viol != nil {
			return
		}
	}
	for i := range results {
		r.Count("checks")
		r.Count("results compared")
		got := results[i].text()
		r.NoteStr(got)
		if core.HashString(got) != want[i] {
			r.Fail("result:"+m.jobs[i].c.what, "%s gives another result than in sequence: %s", m.jobs[i].what, strings.Replace(diffLine(got, detail(i)), "before", "in sequence", 1))
			return
		}
	}
}

func lastSites(tr []sched.Segment) string {
	last := map[int]int{}
	for _, s := range tr {
		last[s.Thread] = s.Site
	}
	var l []string
	for t := 0; t < 64; t++ {
		if s, ok := last[t]; ok && s >= 0 && s < len(sched.Sites) {
			l = append(l, fmt.Sprintf("thread %d to %s", t, sched.Sites[s]))
		}
	}
	return strings.Join(l, ", ")
}

// raceReport reads the first report that the race detector has written since the last time.
func raceReport() (string, bool) {
	path := ""
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(o, "log_path=") {
			path = strings.TrimPrefix(o, "log_path=") + fmt.Sprintf(".%d", os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return "no report: " + err.Error(), true
	}
	var parts []string
	ours := false
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		kind := ""
		for _, k := range []string{"Write", "Read", "Previous write", "Previous read", "Atomic write", "Atomic read", "Previous atomic write", "Previous atomic read"} {
			if strings.HasPrefix(l, k+" at ") {
				kind = strings.ToLower(k)
			}
		}
		if kind == "" {
			continue
		}
		where := ""
		for k := i + 1; k+1 < len(lines) && strings.TrimSpace(lines[k]) != ""; k += 2 {
			fn := strings.TrimSpace(lines[k])
			file := strings.TrimSpace(lines[k+1])
			if at := strings.LastIndex(file, "/"); at >= 0 {
				file = file[at+1:]
			}
			file = strings.SplitN(file, " ", 2)[0]
			file = strings.ReplaceAll(file, "__", "/")
			if strings.Contains(fn, "twuillemin/modes/") {
				where = strings.TrimPrefix(strings.TrimSuffix(fn, "()"), "github.com/twuillemin/modes/") + " (" + file + ")"
				ours = true
				break
			}
			if strings.Contains(fn, "vsim/sched.") {
				return "in the scheduler: " + fn, false
			}
			if where == "" {
				where = fn
			}
		}
		parts = append(parts, kind+" in "+where)
		if len(parts) == 2 {
			break
		}
	}
	return strings.Join(parts, ", "), ours
}

func (m *c13) refResults() []string { return m.results }

func (m *c13) Restart(r *core.Run, rx int) {}

func init() {
	refModels["C13"] = func() refModel { return &c13{sequential: true} }
	_ = ref.TypeName
	register(&Spec{ID: "C13", New: func() core.Model { return &c13{} }, Slots: 20, Quick: 15000, Thorough: 400000, Chunk: 8, Unit: "call made by one of several threads",
		Rule:   "A case is one execution of 2-5 threads under one schedule; distinct by schedule (threads and lengths of their stretches); non-trivial as each result is compared with that of another process which makes the calls in sequence, and every access is watched by the race detector, to which the scheduler is invisible.",
		Real:   []string{"pkg/** with a scheduling point before each statement, compiled with the race detector"},
		Stub:   []string{"thread scheduler (one thread runs at a time, preempted at seeded statements)", "sync primitives (same memory ordering, waiting through the scheduler)", "sync.Pool of the standard library keeps nothing"},
		Assume: []string{"races are those of the Go memory model as the race detector of Go sees them", "statements are the grain of preemption; finer interleavings count only as races"}})
}
