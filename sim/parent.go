package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"vsim/checks"
	"vsim/core"
)

// Replay is the file that reproduces a violation exactly.
type Replay struct {
	Property  string         `json:"property"`
	Runs      []core.RunPlan `json:"runs"` // executed in this order in one fresh process; the last one violates
	Crash     bool           `json:"crash"`
	Key       string         `json:"key"`
	Violation string         `json:"violation"`
	Digest    uint64         `json:"digest"`
	Trace     []string       `json:"trace"`
	Minimise  map[string]int `json:"minimised"`
}

type exe struct {
	self, scratch string
	mu            sync.Mutex
	n             int
}

func (x *exe) temp(name string) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.n++
	return filepath.Join(x.scratch, fmt.Sprintf("%s-%d", name, x.n))
}

// exec runs a request in a fresh process. A process that dies or hangs gives a violation with the key "process-died" or
// "hang".
func (x *exe) exec(req Request, stall time.Duration) (*Result, error) {
	req.Out = x.temp("out")
	req.Journal = x.temp("journal")
	reqPath := x.temp("req")
	b, _ := json.Marshal(req)
	if err := os.WriteFile(reqPath, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(reqPath)
	defer os.Remove(req.Out)
	defer os.Remove(req.Journal)
	cmd := exec.Command(x.self, "worker", reqPath)
	race := x.temp("race")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=log_path="+race+" exitcode=0 halt_on_error=0 atexit_sleep_ms=0")
	var errb strings.Builder
	cmd.Stderr = &limited{w: &errb, n: 20000}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	last, lastAt := "", time.Now()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			j, _ := os.ReadFile(req.Journal)
			if string(j) != last {
				last, lastAt = string(j), time.Now()
			} else if time.Since(lastAt) > stall {
				hung = true
				cmd.Process.Kill()
				werr = <-done
				break loop
			}
		}
	}
	if werr == nil {
		var res Result
		b, err := os.ReadFile(req.Out)
		if err == nil {
			err = json.Unmarshal(b, &res)
		}
		if err != nil {
			return nil, err
		}
		return &res, nil
	}
	j, _ := os.ReadFile(req.Journal)
	at := 0
	fmt.Sscanf(string(j), "%d", &at)
	v := &core.Violation{Key: "process-died", Msg: "the process dies: " + firstLine(errb.String())}
	if hung {
		v = &core.Violation{Key: "hang", Msg: "a call into the decoder does not return"}
	}
	return &Result{At: at, Viol: v, Runs: at, Counts: map[string]int64{}}, nil
}

type limited struct {
	w *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return "no message"
}

func planFor(spec *checks.Spec, seed uint64, i int) core.RunPlan {
	return core.RunPlan{Seed: core.Mix(seed, core.HashString(spec.ID), uint64(i)), Idx: i, N: spec.Slots}
}

func readKnown(prop string) (known map[string]string) {
	known = map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		parts := strings.SplitN(rest, " ", 2)
		if strings.HasPrefix(parts[0], "key=") && len(parts) == 2 {
			known[strings.TrimPrefix(parts[0], "key=")] = parts[1]
		}
	}
	return
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func parentCheck(args []string) int {
	spec := checks.All[args[0]]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no such check", args[0])
		return 2
	}
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	seed := envInt("VERIF_SEED", 1)
	runs := spec.Quick
	limit := 110 * time.Second
	if tier == "thorough" {
		runs = spec.Thorough
		limit = 12 * time.Minute
	}
	if v := envInt("VSIM_RUNS", 0); v > 0 {
		runs = int(v)
	}
	self, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	x := &exe{self: self, scratch: scratch}
	bitmap := filepath.Join(scratch, "bitmap")
	if f, err := os.Create(bitmap); err == nil {
		f.Truncate(bitmapBits / 8)
		f.Close()
	}
	known := readKnown(spec.ID)
	var knownKeys []string
	for k := range known {
		knownKeys = append(knownKeys, k)
	}
	sort.Strings(knownKeys)

	chunk := 400
	if spec.Chunk > 0 {
		chunk = spec.Chunk
	}
	nchunks := (runs + chunk - 1) / chunk
	var mu sync.Mutex
	next, best := 0, -1
	var bestRes *Result
	var fail error
	total := Result{Counts: map[string]int64{}, Profiles: map[string]int64{}, KnownHit: map[string]string{}}
	inters := map[uint64]bool{}
	digests := map[int]uint64{}
	capped := false
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= nchunks || fail != nil || best >= 0 {
					mu.Unlock()
					return
				}
				if time.Since(started) > limit {
					capped = true
					mu.Unlock()
					return
				}
				c := next
				next++
				mu.Unlock()
				var plans []core.RunPlan
				for i := c * chunk; i < (c+1)*chunk && i < runs; i++ {
					plans = append(plans, planFor(spec, uint64(seed), i))
				}
				res, err := x.exec(Request{Prop: spec.ID, Plans: plans, Known: knownKeys, Bitmap: bitmap}, 60*time.Second)
				mu.Lock()
				if err != nil {
					fail = err
				} else {
					if res.Abort != "" && fail == nil {
						fail = fmt.Errorf("%s", res.Abort)
					}
					total.Runs += res.Runs
					total.SimNs += res.SimNs
					for k, v := range res.Counts {
						total.Counts[k] += v
					}
					for k, v := range res.Profiles {
						total.Profiles[k] += v
					}
					for k, v := range res.KnownHit {
						if _, ok := total.KnownHit[k]; !ok {
							total.KnownHit[k] = v
						}
					}
					for i, d := range res.Digests {
						digests[c*chunk+i] = d
					}
					for _, h := range res.Inters {
						inters[h] = true
					}
					if res.Viol != nil && (best < 0 || c < best) {
						best, bestRes = c, res
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fail != nil && best < 0 {
		fmt.Fprintf(os.Stderr, "check %s gives no answer: %v\n", spec.ID, fail)
		return 2
	}
	var rep *Replay
	if best >= 0 {
		var plans []core.RunPlan
		for i := best * chunk; i <= best*chunk+bestRes.At; i++ {
			plans = append(plans, planFor(spec, uint64(seed), i))
		}
		rep = minimise(x, spec, plans, bestRes.Viol, knownKeys)
	}
	// Determinism self-check: some runs again, in another process and in reverse order.
	again, differ := 0, 0
	if best < 0 {
		var plans []core.RunPlan
		var idx []int
		for i := min(runs, 12) - 1; i >= 0; i-- {
			plans = append(plans, planFor(spec, uint64(seed), i))
			idx = append(idx, i)
		}
		if res, err := x.exec(Request{Prop: spec.ID, Plans: plans, Known: knownKeys}, 60*time.Second); err == nil && res.Viol == nil {
			for i, d := range res.Digests {
				again++
				if digests[idx[i]] != d {
					differ++
				}
			}
		}
		if differ > 0 {
			fmt.Fprintf(os.Stderr, "warning: %d of %d runs gave another outcome when repeated in another order\n", differ, again)
		}
	}
	sample := sampleRun(x, spec, uint64(seed), knownKeys)
	wall := time.Since(started).Seconds()
	writeEvidence(spec, tier, seed, wall, &total, len(inters), countBits(bitmap), again, differ, sample, rep, capped)
	for _, k := range knownKeys {
		if msg, ok := total.KnownHit[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen: %s)\n", spec.ID, known[k], msg)
		} else {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", spec.ID, known[k])
		}
	}
	fmt.Printf("%s %s: %d runs, %d frames delivered, %.0f s simulated, %d checks, %.1f s\n", spec.ID, tier, total.Runs, total.Counts["deliveries"],
		float64(total.SimNs)/1e9, total.Counts["checks"], wall)
	if rep != nil {
		path := saveReplay(rep)
		fmt.Printf("violated: %s\n", rep.Violation)
		for _, l := range rep.Trace {
			fmt.Println("  ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", spec.ID, path)
		return 1
	}
	return 0
}

func saveReplay(rep *Replay) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", rep.Property, core.Mix(core.HashString(rep.Violation), rep.Digest)&0xFFFFFFFF))
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// minimise shrinks a violating sequence of runs: fewer runs, fewer faults, fewer slots.
func minimise(x *exe, spec *checks.Spec, plans []core.RunPlan, v *core.Violation, known []string) *Replay {
	deadline := time.Now().Add(90 * time.Second)
	execs := 0
	stall := 20 * time.Second
	try := func(ps []core.RunPlan) bool {
		if time.Now().After(deadline) || execs > 600 {
			return false
		}
		execs++
		res, err := x.exec(Request{Prop: spec.ID, Plans: ps, Known: known}, stall)
		return err == nil && res.Viol != nil && res.Viol.Key == v.Key && res.At == len(ps)-1
	}
	before := len(plans)
	last := plans[len(plans)-1]
	cur := []core.RunPlan{last}
	if !try(cur) {
		cur = plans
		// the violation needs what earlier runs in the process left behind: drop what it does not need
		for n := 2; len(cur) > 2; {
			size := (len(cur) - 1) / n
			if size < 1 {
				size = 1
			}
			reduced := false
			for at := 0; at < len(cur)-1; at += size {
				end := at + size
				if end > len(cur)-1 {
					end = len(cur) - 1
				}
				cand := append(append([]core.RunPlan(nil), cur[:at]...), cur[end:]...)
				if try(cand) {
					cur, reduced = cand, true
					break
				}
			}
			if !reduced {
				if size == 1 {
					break
				}
				n *= 2
			}
		}
	}
	for ri := len(cur) - 1; ri >= 0; ri-- {
		with := func(p core.RunPlan) []core.RunPlan {
			c := append([]core.RunPlan(nil), cur...)
			c[ri] = p
			return c
		}
		accept := func(p core.RunPlan) bool {
			if try(with(p)) {
				cur[ri] = p
				return true
			}
			return false
		}
		cur = append([]core.RunPlan(nil), cur...)
		p := cur[ri]
		p.Off = []string{"*"}
		if !accept(p) {
			for _, k := range []string{core.FLoss, core.FDup, core.FDelay, core.FBitErr, core.FBurst, core.FTrunc, core.FExtend, core.FGarble, core.FNoise, core.FRestart, core.FStall, core.FOutage, core.FSkew, core.FJump, core.FReuse, "preemption"} {
				p := cur[ri]
				p.Off = append(append([]string(nil), p.Off...), k)
				accept(p)
			}
		}
		// ddmin over the slots
		p = cur[ri]
		slots := p.Slots
		if slots == nil {
			for i := 0; i < p.N; i++ {
				slots = append(slots, i)
			}
		}
		for n := 2; len(slots) > 0; {
			size := len(slots) / n
			if size < 1 {
				size = 1
			}
			reduced := false
			for at := 0; at < len(slots); at += size {
				end := min(at+size, len(slots))
				cand := append(append([]int{}, slots[:at]...), slots[end:]...)
				p := cur[ri]
				p.Slots = cand
				if accept(p) {
					slots, reduced = cand, true
					n = max(n-1, 2)
					break
				}
			}
			if !reduced {
				if size == 1 {
					break
				}
				n = min(n*2, len(slots))
			}
		}
		if len(slots) <= 40 && !(len(cur[ri].Off) == 1 && cur[ri].Off[0] == "*") {
			for _, s := range slots {
				for _, k := range []string{core.FLoss, core.FDup, core.FDelay, core.FBitErr, core.FBurst, core.FTrunc, core.FExtend, core.FGarble, core.FNoise, core.FReuse, "preemption"} {
					if contains(cur[ri].Off, k) {
						continue
					}
					p := cur[ri]
					p.SlotOff = append(append([]string(nil), p.SlotOff...), fmt.Sprintf("%d:%s", s, k))
					accept(p)
				}
			}
		}
	}
	// The replay as it stands, twice.
	res, err := x.exec(Request{Prop: spec.ID, Plans: cur, Known: known, Trace: true}, stall)
	rep := &Replay{Property: spec.ID, Runs: cur, Key: v.Key, Violation: v.Msg, Minimise: map[string]int{"executions": execs, "runs_before": before, "runs_after": len(cur), "slots_after": len(cur[len(cur)-1].Slots)}}
	if err == nil && res.Viol != nil {
		rep.Key, rep.Violation, rep.Trace = res.Viol.Key, res.Viol.Msg, res.Trace
		if len(res.Digests) > 0 {
			rep.Digest = res.Digests[len(res.Digests)-1]
		} else {
			rep.Crash = true
		}
		res2, err2 := x.exec(Request{Prop: spec.ID, Plans: cur, Known: known}, stall)
		if err2 != nil || res2.Viol == nil || res2.Viol.Msg != res.Viol.Msg {
			rep.Trace = append(rep.Trace, "note: a repetition of the replay gave another outcome")
		}
	} else {
		rep.Trace = append(rep.Trace, "note: the minimised replay did not violate when repeated")
	}
	return rep
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sampleRun(x *exe, spec *checks.Spec, seed uint64, known []string) []string {
	for i := 0; i < 6; i++ {
		p := planFor(spec, seed, i)
		for n := 0; n < min(6, p.N); n++ {
			p.Slots = append(p.Slots, n)
		}
		res, err := x.exec(Request{Prop: spec.ID, Plans: []core.RunPlan{p}, Known: known, Trace: true}, 30*time.Second)
		if err == nil && len(res.Trace) > 2 {
			if len(res.Trace) > 25 {
				res.Trace = res.Trace[:25]
			}
			return append([]string{fmt.Sprintf("run %d, seed %d, first slots only", i, p.Seed)}, res.Trace...)
		}
	}
	return nil
}

func countBits(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0
	}
	n := 0
	for _, c := range b {
		for ; c != 0; c &= c - 1 {
			n++
		}
	}
	return n
}

func writeEvidence(spec *checks.Spec, tier string, seed int64, wall float64, t *Result, inters, distinct, again, differ int, sample []string, rep *Replay, capped bool) {
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.Counts {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
		} else {
			other[k] = v
		}
	}
	viol := 0
	if rep != nil {
		viol = 1
	}
	evals := t.Counts["checks"]
	if evals == 0 {
		evals = t.Counts["deliveries"]
	}
	cov := map[string]interface{}{
		"evaluations":              evals,
		"distinct_nontrivial":      distinct,
		"rule":                     spec.Rule + " Distinct cases are counted in a hashed bitmap of 2^27 buckets (a lower bound).",
		"samples":                  sample,
		"simulated_runs":           t.Runs,
		"seeds":                    t.Runs,
		"runs_per_hour":            int64(float64(t.Runs) / wall * 3600),
		"simulated_seconds":        float64(t.SimNs) / 1e9,
		"distinct_delivery_orders": inters,
		"faults_injected":          faults,
		"fault_profiles_runs":      t.Profiles,
		"counts":                   other,
		"real_components":          spec.Real,
		"stub_components":          spec.Stub,
		"determinism_reruns":       again,
		"determinism_differences":  differ,
		"stopped_by_time_limit":    capped,
		"unit":                     spec.Unit,
	}
	ev := map[string]interface{}{
		"property": spec.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol, "assumptions": spec.Assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, spec.ID+".json"), b, 0o644)
}

func parentReplay(path string) int {
	var rep Replay
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &rep)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	scratch, _ := os.MkdirTemp("", "vsim-")
	defer os.RemoveAll(scratch)
	x := &exe{self: self, scratch: scratch}
	var keys []string
	for k := range readKnown(rep.Property) {
		keys = append(keys, k)
	}
	res, err := x.exec(Request{Prop: rep.Property, Plans: rep.Runs, Trace: true, Known: keys}, 30*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	if res.Viol == nil {
		fmt.Println("the replay does not violate the property on this tree")
		return 0
	}
	same := res.Viol.Msg == rep.Violation && (rep.Crash || len(res.Digests) > 0 && res.Digests[len(res.Digests)-1] == rep.Digest)
	fmt.Printf("violated: %s\nidentical to the recorded violation: %v\nVIOLATION property=%s replay=%s\n", res.Viol.Msg, same, rep.Property, path)
	return 1
}
