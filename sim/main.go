// vsim decides properties of twuillemin/modes by seeded simulation.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"vsim/checks"
	"vsim/core"
)

// Request is what a worker process executes, in order, in one fresh process.
type Request struct {
	Prop    string         `json:"prop"`
	Plans   []core.RunPlan `json:"plans"`
	Trace   bool           `json:"trace"`
	Known   []string       `json:"known"`
	Journal string         `json:"journal"`
	Bitmap  string         `json:"bitmap"`
	Out     string         `json:"out"`
}

// Result is what the worker found.
type Result struct {
	Runs     int               `json:"runs"`
	Counts   map[string]int64  `json:"counts"`
	SimNs    int64             `json:"sim_ns"`
	At       int               `json:"at"` // index of the plan with the violation, -1 if none
	Viol     *core.Violation   `json:"viol"`
	Abort    string            `json:"abort"`
	Trace    []string          `json:"trace"`
	Digests  []uint64          `json:"digests"`
	Inters   []uint64          `json:"inters"`
	Profiles map[string]int64  `json:"profiles"`
	KnownHit map[string]string `json:"known_hit"`
}

const bitmapBits = 1 << 27

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|replay|worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2])
	case "ref":
		checks.RefServer()
	case "check":
		os.Exit(parentCheck(os.Args[2:]))
	case "survey":
		survey(os.Args[2:])
	case "hunt":
		hunt(os.Args[2:])
	case "replay":
		os.Exit(parentReplay(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func worker(reqPath string) {
	debug.SetGCPercent(400)
	var req Request
	data, err := os.ReadFile(reqPath)
	if err == nil {
		err = json.Unmarshal(data, &req)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	spec := checks.All[req.Prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no such check", req.Prop)
		os.Exit(3)
	}
	known := map[string]bool{}
	for _, k := range req.Known {
		known[k] = true
	}
	distinct := func(h uint64) {}
	if req.Bitmap != "" {
		f, err := os.OpenFile(req.Bitmap, os.O_RDWR, 0)
		if err == nil {
			mem, err := syscall.Mmap(int(f.Fd()), 0, bitmapBits/8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				words := unsafe.Slice((*uint32)(unsafe.Pointer(&mem[0])), bitmapBits/32)
				distinct = func(h uint64) {
					h = core.Mix(h) % bitmapBits
					w := &words[h/32]
					bit := uint32(1) << (h % 32)
					for {
						o := atomic.LoadUint32(w)
						if o&bit != 0 || atomic.CompareAndSwapUint32(w, o, o|bit) {
							return
						}
					}
				}
			}
		}
	}
	var jf *os.File
	if req.Journal != "" {
		jf, _ = os.Create(req.Journal)
	}
	res := Result{At: -1, Counts: map[string]int64{}, Profiles: map[string]int64{}, KnownHit: map[string]string{}}
	for i, p := range req.Plans {
		if jf != nil {
			jf.WriteAt([]byte(fmt.Sprintf("%08d", i)), 0)
		}
		run := core.NewRun(p)
		run.Known = known
		run.Distinct = distinct
		run.Tracing = req.Trace && i == len(req.Plans)-1
		run.Exec(spec.New())
		res.Runs++
		for k, v := range run.Counts {
			res.Counts[k] += v
		}
		res.Profiles[run.Prof.Name]++
		res.SimNs += run.Now
		res.Digests = append(res.Digests, run.Digest)
		res.Inters = append(res.Inters, run.Inter())
		for k, v := range run.KnownHit {
			if _, ok := res.KnownHit[k]; !ok {
				res.KnownHit[k] = v
			}
		}
		if run.Tracing {
			res.Trace = run.Trace
		}
		if run.Abort != "" {
			res.Abort = run.Abort
			res.At = i
			break
		}
		if run.Viol != nil {
			res.Viol = run.Viol
			res.At = i
			break
		}
	}
	out, _ := json.Marshal(res)
	if err := os.WriteFile(req.Out, out, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func envInt(name string, def int64) int64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return v
		}
	}
	return def
}

var started = time.Now()

// hunt runs several checks, some runs each, and stops at the first violation; for development.
func hunt(args []string) {
	n, _ := strconv.Atoi(args[0])
	for _, id := range args[1:] {
		spec := checks.All[id]
		for i := 0; i < n*spec.Quick/30000+20; i++ {
			run := core.NewRun(planFor(spec, 1, i))
			run.Distinct = func(uint64) {}
			run.Exec(spec.New())
			if run.Abort != "" || run.Viol != nil {
				fmt.Println("FOUND", id, i, run.Abort)
				if run.Viol != nil {
					fmt.Println(run.Viol.Msg)
				}
				os.Exit(1)
			}
		}
	}
}

// survey runs a check without stopping and lists every class of violation met; for development.
func survey(args []string) {
	spec := checks.All[args[0]]
	n := 300
	if len(args) > 1 {
		n, _ = strconv.Atoi(args[1])
	}
	all := map[string]string{}
	times := map[string]int64{}
	counts := map[string]int64{}
	for i := 0; i < n; i++ {
		run := core.NewRun(core.RunPlan{Seed: core.Mix(uint64(envInt("VERIF_SEED", 1)), uint64(i), 99), Idx: i, N: spec.Slots})
		run.KnownAll = true
		run.Distinct = func(uint64) {}
		run.Exec(spec.New())
		for k, v := range run.KnownHit {
			times[k]++
			if _, ok := all[k]; !ok {
				all[k] = v
			}
		}
		for k, v := range run.Counts {
			counts[k] += v
		}
		if run.Abort != "" {
			fmt.Println("ABORT", run.Abort)
			break
		}
	}
	for _, k := range core.SortedKeys(counts) {
		fmt.Println("   ", k, counts[k])
	}
	for _, k := range core.SortedKeys(times) {
		fmt.Println(times[k], k, "|", all[k])
	}
}
