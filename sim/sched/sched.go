// Package sched runs threads one at a time under a seeded scheduler. The instrumented decoder calls Y between any two
// statements; at the points drawn from the seed another thread goes on. Handing over is hidden from the race detector,
// so that it orders nothing: two accesses count as ordered only if the decoder itself orders them.
package sched

import (
	"bytes"
	"os"
	"runtime"
	"strconv"
	"time"
)

const maxThreads = 64

type state byte

const (
	unused state = iota
	runnable
	waiting // for a key
	away    // in an operation of its own, as on a channel
	done
)

type thread struct {
	gate  chan struct{}
	state state
	key   uintptr
	goid  int64
	last  int  // site
	since int  // when it began to wait
	own   bool // one of those of the execution; others are begun by the decoder itself
	leave bool // the execution ends without it
}

// Segment is a stretch in which one thread ran: up to which site, in how many steps.
type Segment struct {
	Thread, Site, Steps int
}

// S is the scheduler; one at a time.
var (
	active   bool
	threads  [maxThreads]thread
	count    int
	cur      int
	left     int
	steps    int
	segSteps int
	next     int
	rng      uint64
	gap      int
	skip     func(n int) bool
	switches int
	maxSteps int
	trace    []Segment
	order    uint64
	fin      chan string
	waitings int
)

//go:norace
func rnd() uint64 {
	rng += 0x9E3779B97F4A7C15
	z := rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Options of one execution.
type Options struct {
	Seed     uint64
	Gap      int              // mean number of statements between preemptions
	Skip     func(n int) bool // preemptions left out
	MaxSteps int
}

// Outcome of one execution.
type Outcome struct {
	Verdict  string // "" when all threads ended; "deadlock"; "steps" or "stuck" when there is no answer
	Steps    int
	Switches int
	Trace    []Segment
	Order    uint64
}

// Run executes the functions as threads. The first to run is drawn too.
//
//go:norace
func Run(o Options, fns []func()) Outcome {
	fin = make(chan string, 1)
	count, left, steps, segSteps, switches = 0, 0, 0, 0, 0
	trace, order = nil, 0
	rng, gap, skip, maxSteps = o.Seed, o.Gap, o.Skip, o.MaxSteps
	waitings = 0
	for _, f := range fns {
		threads[spawn(f)].own = true
	}
	next = draw()
	active = true
	cur = int(rnd() % uint64(count))
	disable()
	threads[cur].gate <- struct{}{}
	enable()
	v := watch()
	if v == "" {
		active = false
	}
	return Outcome{v, steps, switches, trace, order}
}

// watch waits for the end. A thread found waiting in an operation that the scheduler does not know, such as ranging over
// a channel, counts as away.
//
//go:norace
func watch() string {
	tick := time.NewTicker(300 * time.Microsecond)
	defer tick.Stop()
	begin := time.Now()
	seen, seenSteps, times := -1, 0, 0
	for {
		select {
		case v := <-fin:
			return v
		case <-tick.C:
		}
		if time.Since(begin) > 60*time.Second {
			if os.Getenv("VSIM_DEBUG") != "" {
				var b [100000]byte
				os.Stderr.Write(b[:runtime.Stack(b[:], true)])
			}
			return "stuck"
		}
		c, n := cur, steps
		if c < 0 && c == seen && n == seenSteps {
			if times++; times%4 == 0 {
				disable()
				v, over := rest(times > 4000)
				enable()
				if over {
					return v
				}
			}
			continue
		}
		if c < 0 || c != seen || n != seenSteps {
			seen, seenSteps, times = c, n, 0
			continue
		}
		if times++; times < 2 {
			continue
		}
		times = 0
		disable()
		lock <- struct{}{}
		mine := cur == c && steps == n && threads[c].state == runnable && waits(threads[c].goid)
		if mine {
			threads[c].state = away
			left++
			segment(c, threads[c].last)
		}
		<-lock
		if mine {
			handOver(-1)
		}
		enable()
	}
}

// rest decides what becomes of an execution in which no thread can go on: one that was woken from outside goes on; if all
// threads of the execution have ended, those begun by the decoder that wait for the next call are left alone; and if all
// have waited for long for what only another could do, it is a deadlock.
//
//go:norace
func rest(long bool) (string, bool) {
	lock <- struct{}{}
	if cur >= 0 {
		<-lock
		return "", false
	}
	own, gone := 0, 0
	for i := 0; i < count; i++ {
		t := &threads[i]
		if t.state == runnable {
			<-lock
			handOver(-1)
			return "", false
		}
		if t.state == away {
			gone++
		}
		if t.own && t.state != done {
			own++
		}
	}
	var buf []byte
	if own == 0 || long {
		b := make([]byte, 1<<20)
		buf = b[:runtime.Stack(b, true)]
		for i := 0; i < count; i++ {
			if threads[i].state == away && !waitsIn(buf, threads[i].goid) {
				<-lock
				return "", false
			}
		}
	}
	switch {
	case own == 0:
		foreign = true
		active = false
		for i := 0; i < count; i++ {
			if threads[i].state == waiting {
				threads[i].leave = true
				threads[i].gate <- struct{}{}
			}
			threads[i].state = done
		}
		<-lock
		return "", true
	case long && blocked(buf):
		<-lock
		return "deadlock", true
	}
	<-lock
	return "", false
}

// blocked tells whether every thread that is in the decoder waits for another.
//
//go:norace
func blocked(buf []byte) bool {
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if !bytes.Contains(g, []byte("twuillemin/modes/")) {
			continue
		}
		at := bytes.IndexByte(g, '[')
		if at < 0 {
			return false
		}
		ok := false
		for _, w := range []string{"chan ", "select", "sync.", "semacquire"} {
			ok = ok || bytes.HasPrefix(g[at+1:], []byte(w))
		}
		if !ok {
			return false
		}
	}
	return true
}

// waits tells whether a thread waits in an operation of its own.
//
//go:norace
func waits(id int64) bool {
	var buf [65536]byte
	n := runtime.Stack(buf[:], true)
	return waitsIn(buf[:n], id)
}

//go:norace
func waitsIn(buf []byte, id int64) bool {
	h := []byte("goroutine " + strconv.FormatInt(id, 10) + " [")
	at := bytes.Index(buf, h)
	if at < 0 {
		return false
	}
	rest := buf[at+len(h):]
	lines := bytes.SplitN(rest, []byte("\n"), 12)
	for i := 1; i < len(lines) && len(lines[i]) > 0; i += 2 {
		if bytes.HasPrefix(lines[i], []byte("runtime.")) {
			continue
		}
		if bytes.HasPrefix(lines[i], []byte("vsim/sched.")) {
			return false // in the scheduler itself
		}
		break
	}
	for _, w := range []string{"chan ", "select", "sleep", "sync.", "semacquire", "IO wait"} {
		if bytes.HasPrefix(rest, []byte(w)) {
			return true
		}
	}
	return false
}

//go:norace
func draw() int {
	if gap <= 1 {
		return 1
	}
	return 1 + int(rnd()%uint64(2*gap-1))
}

//go:norace
func spawn(f func()) int {
	me := 0
	for me < count && threads[me].state != done {
		me++
	}
	if me >= maxThreads {
		panic("too many threads")
	}
	if me == count {
		count++
	}
	threads[me] = thread{gate: make(chan struct{}, 1), state: runnable}
	go func() {
		enter(me)
		f()
		exit(me)
	}()
	return me
}

//go:norace
func enter(me int) {
	threads[me].goid = goid()
	gate := threads[me].gate
	disable()
	<-gate
	enable()
}

//go:norace
func exit(me int) {
	back()
	finish(me)
}

//go:norace
func finish(me int) {
	threads[me].state = done
	segment(me, threads[me].last)
	disable()
	handOver(me)
	enable()
}

//go:norace
func segment(me, site int) {
	if len(trace) < 100000 {
		trace = append(trace, Segment{me, site, segSteps})
	}
	order = order*1099511628211 ^ uint64(me)<<32 ^ uint64(segSteps)
	segSteps = 0
}

// handOver draws the thread that goes on and wakes it, unless it is me, and tells whether it is. Without one to go on
// the execution is over, or waits for a thread that is away. After a handover nothing of the scheduler may be read:
// another thread has it.
//
//go:norace
func handOver(me int) bool {
	lock <- struct{}{}
	var can [maxThreads]int
	n, alive := 0, 0
	for i := 0; i < count; i++ {
		switch threads[i].state {
		case runnable:
			can[n] = i
			n++
			alive++
		case waiting, away:
			alive++
		}
	}
	if n > 0 {
		to := can[rnd()%uint64(n)]
		cur = to
		gate := threads[to].gate
		<-lock
		if to == me {
			return true
		}
		gate <- struct{}{}
		return false
	}
	cur = -1
	own := 0
	for i := 0; i < count; i++ {
		if threads[i].own && threads[i].state != done {
			own++
		}
	}
	switch {
	case alive == 0:
		fin <- ""
	case own > 0 && left == 0 && !foreign:
		fin <- "deadlock"
	}
	<-lock
	return false
}

// Y lets the scheduler decide whether another thread goes on here.
//
//go:norace
func Y(site int) {
	if !active || (foreign && !mine()) {
		return
	}
	if left > 0 {
		back()
		settle()
	}
	me := cur
	if me < 0 {
		return
	}
	steps++
	segSteps++
	threads[me].last = site
	if steps < next {
		return
	}
	if maxSteps > 0 && steps > maxSteps {
		disable()
		fin <- "steps"
		select {}
	}
	next = steps + draw()
	if len(can2(me)) == 0 {
		return
	}
	n := switches
	switches++
	if skip != nil && skip(n) {
		return
	}
	segment(me, site)
	gate := threads[me].gate
	disable()
	if !handOver(me) {
		<-gate
		settle()
	}
	enable()
}

//go:norace
func can2(me int) []int {
	for i := 0; i < count; i++ {
		if i != me && threads[i].state == runnable {
			return one
		}
	}
	return nil
}

var one = []int{1}

// Block parks the running thread until Wake is called for the key. It returns false outside of an execution.
//
//go:norace
func Block(key uintptr) bool {
	if !active || (foreign && !mine()) {
		return false
	}
	if left > 0 {
		back()
	}
	me := cur
	waitings++
	threads[me].state, threads[me].key, threads[me].since = waiting, key, waitings
	segment(me, threads[me].last)
	t := &threads[me]
	gate := t.gate
	disable()
	if !handOver(me) {
		<-gate
		if t.leave && t.gate == gate {
			enable()
			return false
		}
		settle()
	}
	enable()
	return true
}

// Wake makes the threads waiting for a key runnable.
//
//go:norace
func Wake(key uintptr) {
	if !active {
		return
	}
	for i := 0; i < count; i++ {
		if threads[i].state == waiting && threads[i].key == key {
			threads[i].state = runnable
		}
	}
}

// WakeOne makes the thread that has waited longest for a key runnable, and tells whether there is one.
//
//go:norace
func WakeOne(key uintptr) bool {
	if !active {
		return false
	}
	k := -1
	for i := 0; i < count; i++ {
		if threads[i].state == waiting && threads[i].key == key && (k < 0 || threads[i].since < threads[k].since) {
			k = i
		}
	}
	if k >= 0 {
		threads[k].state = runnable
	}
	return k >= 0
}

// Mine tells whether the calling thread is one that the scheduler runs.
//
//go:norace
func Mine() bool { return active && (!foreign || mine()) }

// L is a Y before a statement that may block in a way the scheduler does not control: the thread leaves, and comes back
// at its next statement.
//
//go:norace
func L(site int) {
	Y(site)
	if !active || (foreign && !mine()) {
		return
	}
	me := cur
	segment(me, site)
	threads[me].goid = goid()
	disable()
	lock <- struct{}{}
	threads[me].state = away
	left++
	<-lock
	handOver(-1)
	enable()
}

var foreign bool

// mine tells whether the calling thread is one of the execution.
//
//go:norace
func mine() bool {
	id := goid()
	for i := 0; i < count; i++ {
		if threads[i].goid == id && threads[i].state != done {
			return true
		}
	}
	return false
}

var lock = make(chan struct{}, 1)

// back brings the calling thread back if it had left.
//
//go:norace
func back() {
	if left == 0 {
		return
	}
	id := goid()
	for i := 0; i < count; i++ {
		if threads[i].state == away && threads[i].goid == id {
			disable()
			lock <- struct{}{}
			gate := threads[i].gate
			threads[i].state = runnable
			left--
			idle := cur < 0
			if idle {
				cur = i
			}
			<-lock
			if !idle {
				<-gate
				settle()
			}
			enable()
			return
		}
	}
}

// settle waits until each thread that is away has come back or waits in its operation, so that what follows does not
// depend on how fast it is.
//
//go:norace
func settle() {
	for try := 0; try < 3000 && left > 0; try++ {
		var buf [65536]byte
		disable()
		n := runtime.Stack(buf[:], true)
		enable()
		moving := false
		for i := 0; i < count; i++ {
			if threads[i].state != away {
				continue
			}
			moving = moving || !waitsIn(buf[:n], threads[i].goid)
		}
		if !moving {
			return
		}
		runtime.Gosched()
	}
}

// Go starts a thread of the decoder itself.
//
//go:norace
func Go(f func()) {
	if !active || (foreign && !mine()) {
		// a thread that outlives the executions; the scheduler leaves it alone
		foreign = true
		go f()
		return
	}
	spawn(f)
	Y(-1)
}

// Active tells whether an execution goes on.
//
//go:norace
func Active() bool { return active }

//go:norace
func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	if i := bytes.IndexByte(s, ' '); i > 0 {
		n, _ := strconv.ParseInt(string(s[:i]), 10, 64)
		return n
	}
	return 0
}
