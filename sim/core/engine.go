package core

import (
	"container/heap"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Nanosecond based simulated time.
const (
	Microsecond int64 = 1000
	Millisecond       = 1000 * Microsecond
	Second            = 1000 * Millisecond
)

// Fault kinds the channel and the receivers can inject.
const (
	FLoss    = "loss"
	FDup     = "duplicate"
	FDelay   = "delay"
	FBitErr  = "bit_errors"
	FBurst   = "burst"
	FTrunc   = "truncate"
	FExtend  = "overlong"
	FGarble  = "garble"
	FNoise   = "noise_frame"
	FRestart = "receiver_restart"
	FStall   = "receiver_stall"
	FSkew    = "clock_skew"
	FJump    = "clock_jump"
	FReuse   = "buffer_reuse"
	FOutage  = "outage"
)

// Emission is a frame put on the air by a simulated transmitter.
type Emission struct {
	At    int64
	Src   int
	Kind  string
	Frame []byte
	Meta  interface{}
}

// Delivery is a frame as it arrives at a receiver.
type Delivery struct {
	At      int64
	RxAt    int64 // receiver's own clock
	Rx      int
	Slot    int
	Idx     int
	Copy    int
	Frame   []byte
	Em      *Emission // nil for pure noise
	Clean   bool      // exactly the emitted bytes
	BitErrs int       // number of flipped bits (bit errors and bursts)
	Burst   int       // length of the burst, if the damage is a single burst
	Damage  string    // kind of damage, "" when clean
	restart bool
	seq     uint64
}

// Violation describes a property broken in a run.
type Violation struct {
	Key string `json:"key"` // class of the violation; stable under minimisation
	Msg string `json:"msg"`
	At  int64  `json:"at_ns"`
}

// Profile is the set of fault probabilities of a run.
type Profile struct {
	Name                                   string
	Loss, Dup, Delay, BitErr, Burst, Trunc float64
	Extend, Garble, Noise                  float64
	MaxDelay                               int64
	BurstHeavyMax                          int // longest burst
	MaxBitErr                              int
	Restarts                               int // number of receiver restarts in the run
	Stalls                                 int
	Outages                                int
	Skew                                   bool
	Jumps                                  int
}

// RunPlan identifies one run exactly.
type RunPlan struct {
	Seed    uint64   `json:"seed"`
	Idx     int      `json:"idx"`
	Slots   []int    `json:"slots"`           // nil: all
	Off     []string `json:"faults_off"`      // fault kinds disabled everywhere, "*" for all
	SlotOff []string `json:"slot_faults_off"` // "slot:kind" disabled
	N       int      `json:"n_slots"`         // number of slots offered to the run
}

// Run is the context of one execution.
type Run struct {
	Plan     RunPlan
	Prof     Profile
	NRx      int
	Rng      *Rng // scenario set-up
	Counts   map[string]int64
	Trace    []string
	Tracing  bool
	Digest   uint64
	Now      int64
	Viol     *Violation
	Abort    string // the check can give no answer
	Known    map[string]bool
	KnownAll bool // survey: every violation is collected and none ends the run
	KnownHit map[string]string
	Distinct func(h uint64)
	off      map[string]bool
	slotOff  map[string]bool
	inter    uint64
	seq      uint64
	q        dq
	skews    []skew
	stalls   [][][2]int64
	outages  [][][2]int64
	MaxAt    int64
}

type skew struct {
	off   int64
	drift float64
	jumps [][2]int64
}

// Model is what a property's simulation provides.
type Model interface {
	// Setup draws the scenario from r.Rng, sets r.Prof and r.NRx.
	Setup(r *Run)
	// Emit returns what goes on the air in a slot; it must depend only on the scenario and the slot.
	Emit(r *Run, slot int, g *Rng) []Emission
	// Deliver is called for each frame arriving at a receiver.
	Deliver(r *Run, d *Delivery)
	// Restart tells that a receiver lost everything it kept in memory.
	Restart(r *Run, rx int)
	// Finish runs the checks over the whole history.
	Finish(r *Run)
}

type dq []*Delivery

func (q dq) Len() int { return len(q) }
func (q dq) Less(i, j int) bool {
	if q[i].At != q[j].At {
		return q[i].At < q[j].At
	}
	return q[i].seq < q[j].seq
}
func (q dq) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *dq) Push(x interface{}) { *q = append(*q, x.(*Delivery)) }
func (q *dq) Pop() interface{} {
	o := *q
	n := len(o)
	x := o[n-1]
	*q = o[:n-1]
	return x
}

// Count adds to a counter of the run.
func (r *Run) Count(name string) { r.Counts[name]++ }

// CountN adds n to a counter of the run.
func (r *Run) CountN(name string, n int64) { r.Counts[name] += n }

// Logf adds a line to the trace.
func (r *Run) Logf(format string, a ...interface{}) {
	if r.Tracing {
		r.Trace = append(r.Trace, fmt.Sprintf(format, a...))
	}
}

// Note folds an observation into the digest of the run.
func (r *Run) Note(h uint64) { r.Digest = r.Digest*1099511628211 ^ h }

// NoteStr folds a text into the digest of the run.
func (r *Run) NoteStr(s string) { r.Note(HashString(s)) }

// Fail records a violation; the first one not known ends the run.
func (r *Run) Fail(key, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if r.KnownAll || r.Known[key] {
		if _, ok := r.KnownHit[key]; !ok {
			r.KnownHit[key] = msg
		}
		return
	}
	if r.Viol == nil {
		r.Viol = &Violation{Key: key, Msg: msg, At: r.Now}
		r.Logf("%s VIOLATION [%s] %s", T(r.Now), key, msg)
	}
}

// T formats simulated time.
func T(ns int64) string { return fmt.Sprintf("t=%.6fs", float64(ns)/1e9) }

func (r *Run) faultOn(slot int, kind string) bool {
	if r.off["*"] || r.off[kind] {
		return false
	}
	if len(r.slotOff) > 0 && r.slotOff[fmt.Sprintf("%d:%s", slot, kind)] {
		return false
	}
	return true
}

// FaultOn tells a model whether a fault of its own may be injected in a slot, and counts it.
func (r *Run) FaultOn(slot int, kind string) bool {
	if !r.faultOn(slot, kind) {
		return false
	}
	r.Counts["fault:"+kind]++
	return true
}

// NewRun prepares a run.
func NewRun(p RunPlan) *Run {
	r := &Run{Plan: p, Counts: map[string]int64{}, KnownHit: map[string]string{}, off: map[string]bool{}, slotOff: map[string]bool{}}
	for _, o := range p.Off {
		r.off[o] = true
	}
	for _, o := range p.SlotOff {
		r.slotOff[o] = true
	}
	r.Rng = NewRng(Mix(p.Seed, 1))
	r.NRx = 1
	return r
}

func flip(b []byte, bit int) { b[bit/8] ^= 0x80 >> uint(bit%8) }

func (r *Run) push(d *Delivery) {
	r.seq++
	d.seq = r.seq
	heap.Push(&r.q, d)
}

// schedule puts one emission through the channel to each receiver.
func (r *Run) schedule(slot, idx int, em *Emission) {
	p := &r.Prof
	for rx := 0; rx < r.NRx; rx++ {
		g := NewRng(Mix(r.Plan.Seed, 2, uint64(slot), uint64(idx), uint64(rx)))
		// All draws are made in a fixed order so that switching one fault off leaves the others as they were.
		loss := g.P(p.Loss)
		dup := g.P(p.Dup)
		if loss && r.FaultOn(slot, FLoss) {
			r.Logf("%s slot %d rx%d: %s LOST", T(em.At), slot, rx, em.Kind)
			r.Note(77)
			continue
		}
		copies := 1
		if dup && r.FaultOn(slot, FDup) {
			copies = 2
		}
		for c := 0; c < copies; c++ {
			h := NewRng(Mix(r.Plan.Seed, 3, uint64(slot), uint64(idx), uint64(rx), uint64(c)))
			delay := h.P(p.Delay)
			delayBy := int64(0)
			if p.MaxDelay > 0 {
				delayBy = int64(h.Float() * float64(p.MaxDelay))
			}
			biterr, nerr := h.P(p.BitErr), 1
			if p.MaxBitErr > 1 {
				nerr = h.Range(1, p.MaxBitErr)
			}
			burst, blen := h.P(p.Burst), 2
			if p.BurstHeavyMax > 2 {
				blen = h.Range(2, p.BurstHeavyMax)
			}
			trunc := h.P(p.Trunc)
			extend := h.P(p.Extend)
			garble := h.P(p.Garble)
			d := &Delivery{At: em.At + int64(20*Microsecond)*int64(1+rx) + int64(c)*3*Millisecond, Rx: rx, Slot: slot, Idx: idx, Copy: c, Em: em, Clean: true}
			d.Frame = append([]byte(nil), em.Frame...)
			if delay && r.FaultOn(slot, FDelay) {
				d.At += delayBy
			}
			n := len(d.Frame) * 8
			switch {
			case n == 0:
			case biterr && r.FaultOn(slot, FBitErr):
				seen := map[int]bool{}
				for len(seen) < nerr && len(seen) < n {
					b := h.Intn(n)
					if !seen[b] {
						seen[b] = true
						flip(d.Frame, b)
					}
				}
				d.Clean, d.BitErrs, d.Damage = false, len(seen), FBitErr
			case burst && r.FaultOn(slot, FBurst):
				if blen > n {
					blen = n
				}
				at := h.Intn(n - blen + 1)
				d.BitErrs = 2
				flip(d.Frame, at)
				if blen > 1 {
					flip(d.Frame, at+blen-1)
				} else {
					d.BitErrs = 1
				}
				for i := 1; i < blen-1; i++ {
					if h.Bool() {
						flip(d.Frame, at+i)
						d.BitErrs++
					}
				}
				d.Clean, d.Burst, d.Damage = false, blen, FBurst
			case trunc && r.FaultOn(slot, FTrunc):
				k := h.Intn(len(d.Frame))
				d.Frame = d.Frame[:k]
				d.Clean, d.Damage = false, FTrunc
			case extend && r.FaultOn(slot, FExtend):
				d.Frame = append(d.Frame, h.Bytes(h.Range(1, 20))...)
				d.Clean, d.Damage = false, FExtend
			case garble && r.FaultOn(slot, FGarble):
				o := h.Bytes(len(d.Frame))
				from := h.Intn(len(o))
				nz := false
				for i := from; i < len(o); i++ {
					d.Frame[i] ^= o[i]
					nz = nz || o[i] != 0
				}
				if nz {
					d.Clean, d.Damage = false, FGarble
				}
			}
			for _, st := range r.stallsOf(rx) {
				if d.At >= st[0] && d.At < st[1] && r.faultOn(-1, FStall) {
					// a stalled receiver handles what piled up when it wakes
					d.At = st[1] + (d.At-st[0])/1000
					r.Counts["fault:"+FStall]++
				}
			}
			lost := false
			for _, st := range r.outagesOf(rx) {
				if d.At >= st[0] && d.At < st[1] && r.faultOn(-1, FOutage) {
					r.Counts["fault:"+FOutage]++
					lost = true
				}
			}
			if lost {
				continue
			}
			d.RxAt = r.rxClock(rx, d.At)
			r.push(d)
		}
		if g.P(p.Noise) {
			l := []int{7, 14, 14, 7, 1, 3, 11, 15, 28}[g.Intn(9)]
			b := g.Bytes(l)
			if r.FaultOn(slot, FNoise) {
				d := &Delivery{At: em.At + 1 + int64(g.Intn(int(Millisecond))), Rx: rx, Slot: slot, Idx: idx, Frame: b, Damage: FNoise}
				d.RxAt = r.rxClock(rx, d.At)
				r.push(d)
			}
		}
	}
}

func (r *Run) stallsOf(rx int) [][2]int64 {
	if rx < len(r.stalls) {
		return r.stalls[rx]
	}
	return nil
}

func (r *Run) outagesOf(rx int) [][2]int64 {
	if rx < len(r.outages) {
		return r.outages[rx]
	}
	return nil
}

// rxClock gives the receiver's own idea of the time.
func (r *Run) rxClock(rx int, at int64) int64 {
	if rx >= len(r.skews) {
		return at
	}
	s := r.skews[rx]
	t := at
	if r.faultOn(-1, FSkew) {
		t += s.off + int64(float64(at)*s.drift)
	}
	if r.faultOn(-1, FJump) {
		for _, j := range s.jumps {
			if at >= j[0] {
				t += j[1]
			}
		}
	}
	return t
}

// Exec executes a run of a model.
func (r *Run) Exec(m Model) {
	m.Setup(r)
	n := r.Plan.N
	slots := r.Plan.Slots
	if slots == nil {
		slots = make([]int, n)
		for i := range slots {
			slots[i] = i
		}
	}
	ems := make([][]Emission, len(slots))
	last := int64(0)
	for i, s := range slots {
		ems[i] = m.Emit(r, s, NewRng(Mix(r.Plan.Seed, 4, uint64(s))))
		for k := range ems[i] {
			if ems[i][k].At > last {
				last = ems[i][k].At
			}
		}
	}
	// receiver-side faults, laid over the nominal span of the run
	g := NewRng(Mix(r.Plan.Seed, 5))
	span := r.MaxAt
	if span == 0 {
		span = last
	}
	r.skews = make([]skew, r.NRx)
	r.stalls = make([][][2]int64, r.NRx)
	r.outages = make([][][2]int64, r.NRx)
	for rx := 0; rx < r.NRx; rx++ {
		if r.Prof.Skew {
			r.skews[rx].off = int64(g.FloatIn(-5, 5) * float64(Second))
			r.skews[rx].drift = g.FloatIn(-100e-6, 100e-6)
			if r.faultOn(-1, FSkew) {
				r.Counts["fault:"+FSkew]++
			}
		}
		for k := 0; k < r.Prof.Jumps; k++ {
			r.skews[rx].jumps = append(r.skews[rx].jumps, [2]int64{int64(g.Float() * float64(span)), int64(g.FloatIn(-30, 30) * float64(Second))})
			if r.faultOn(-1, FJump) {
				r.Counts["fault:"+FJump]++
			}
		}
		for k := 0; k < r.Prof.Stalls; k++ {
			a := int64(g.Float() * float64(span))
			r.stalls[rx] = append(r.stalls[rx], [2]int64{a, a + int64(g.FloatIn(0.2, 8)*float64(Second))})
		}
		for k := 0; k < r.Prof.Outages; k++ {
			a := int64(g.Float() * float64(span))
			r.outages[rx] = append(r.outages[rx], [2]int64{a, a + int64(g.FloatIn(0.2, 20)*float64(Second))})
		}
		for k := 0; k < r.Prof.Restarts; k++ {
			at := int64(g.Float() * float64(span))
			if r.faultOn(-1, FRestart) {
				r.Counts["fault:"+FRestart]++
				r.push(&Delivery{At: at, Rx: rx, restart: true, Slot: -1})
			}
		}
	}
	for i, s := range slots {
		for k := range ems[i] {
			r.schedule(s, k, &ems[i][k])
		}
	}
	for r.q.Len() > 0 && r.Viol == nil && r.Abort == "" {
		d := heap.Pop(&r.q).(*Delivery)
		r.Now = d.At
		if d.restart {
			r.Logf("%s rx%d RESTART (memory lost)", T(d.At), d.Rx)
			m.Restart(r, d.Rx)
			r.Note(99)
			continue
		}
		r.Count("deliveries")
		r.inter = r.inter*31 + uint64(d.Slot*7+d.Rx*3+d.Copy)
		if r.Tracing {
			kind := "noise"
			if d.Em != nil {
				kind = d.Em.Kind
			}
			st := "clean"
			if !d.Clean {
				st = d.Damage
				if d.BitErrs > 0 {
					st += fmt.Sprintf("(%d bits)", d.BitErrs)
				}
			}
			r.Logf("%s slot %d rx%d %s [%s] %s", T(d.At), d.Slot, d.Rx, strings.ToUpper(hex.EncodeToString(d.Frame)), kind, st)
		}
		r.Note(HashBytes(0, d.Frame))
		m.Deliver(r, d)
	}
	if r.Viol == nil && r.Abort == "" {
		m.Finish(r)
	}
	if last > r.Now {
		r.Now = last
	}
	r.Note(r.inter)
}

// Inter is a hash of the order in which frames were delivered.
func (r *Run) Inter() uint64 { return r.inter }

// StdProfile draws a fault profile: a third of the runs are fault free, the others mix faults at different rates.
func StdProfile(g *Rng) Profile {
	switch g.Intn(6) {
	case 0, 1:
		return Profile{Name: "fault-free"}
	case 2:
		return Profile{Name: "lossy", Loss: g.FloatIn(0.05, 0.5), Dup: 0.1, Delay: 0.3, MaxDelay: 2 * Second, Outages: g.Intn(2)}
	case 3:
		return Profile{Name: "noisy", BitErr: 0.3, MaxBitErr: 8, Burst: 0.15, BurstHeavyMax: 60, Noise: 0.1, Garble: 0.1}
	case 4:
		return Profile{Name: "torn", Trunc: 0.2, Extend: 0.1, Garble: 0.1, Noise: 0.2, Loss: 0.05}
	default:
		return Profile{Name: "storm", Loss: 0.1, Dup: 0.1, Delay: 0.3, MaxDelay: 5 * Second, BitErr: 0.15, MaxBitErr: 5, Burst: 0.1,
			BurstHeavyMax: 24, Trunc: 0.05, Extend: 0.03, Garble: 0.05, Noise: 0.1, Restarts: g.Intn(3), Stalls: g.Intn(3), Outages: g.Intn(2), Skew: true, Jumps: g.Intn(2)}
	}
}

// SortedKeys of a counter map.
func SortedKeys(m map[string]int64) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// AngDiff is the absolute difference of two angles in degrees, in [0, 180].
func AngDiff(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), 360)
	if d > 180 {
		d = 360 - d
	}
	return d
}
