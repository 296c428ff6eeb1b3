package checks

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"

	"vsim/core"
)

// A refModel is executed in a process of its own, with a history of its own, and gives the results there.
type refModel interface {
	core.Model
	refResults() []string
}

var refModels = map[string]func() refModel{}

type refRequest struct {
	Prop   string       `json:"prop"`
	Plan   core.RunPlan `json:"plan"`
	Detail int          `json:"detail"` // 0, or 1 plus the result of the last plan that is wanted in full
}

type refProcess struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var refProc *refProcess

func refAsk(q refRequest, res interface{}) error {
	if refProc == nil {
		self, err := os.Executable()
		if err != nil {
			return err
		}
		cmd := exec.Command(self, "ref")
		in, err := cmd.StdinPipe()
		if err != nil {
			return err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			return err
		}
		refProc = &refProcess{in, bufio.NewReaderSize(out, 1<<20)}
	}
	b, _ := json.Marshal(q)
	if _, err := refProc.in.Write(append(b, '\n')); err != nil {
		return err
	}
	l, err := refProc.out.ReadBytes('\n')
	if err != nil {
		return err
	}
	return json.Unmarshal(l, res)
}

// elsewhere gives the hashes of the results of the same plan in the other process.
func elsewhere(prop string, p core.RunPlan) ([]uint64, error) {
	var res []uint64
	err := refAsk(refRequest{Prop: prop, Plan: p}, &res)
	return res, err
}

// detail gives a result of the last plan in full.
func detail(i int) string {
	var s string
	_ = refAsk(refRequest{Detail: i + 1}, &s)
	return s
}

// RefServer is the other process.
func RefServer() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	var last []string
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q refRequest
		if json.Unmarshal(l, &q) != nil {
			return
		}
		if q.Detail > 0 {
			b, _ := json.Marshal(last[q.Detail-1])
			os.Stdout.Write(append(b, '\n'))
			continue
		}
		r := core.NewRun(q.Plan)
		r.Distinct = func(uint64) {}
		m := refModels[q.Prop]()
		r.Exec(m)
		last = m.refResults()
		hashes := make([]uint64, len(last))
		for i, s := range last {
			hashes[i] = core.HashString(s)
		}
		b, _ := json.Marshal(hashes)
		os.Stdout.Write(append(b, '\n'))
	}
}
