package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/core"
	"vsim/sut"
)

// C15: the program itself, on a log written by a receiver that meets the usual faults, with scripted system calls.
type c15 struct {
	level   int // -1: not given
	style   int
	addrs   []uint32
	lines   []string
	raw     []byte // the log as it lies on the disk
	crlf    bool
	repeat  int
	tornAt  float64
	upper   bool
	special int // 1: no such file, 2: a directory
	g       *core.Rng
	cut     bool
}

func (m *c15) Setup(r *core.Run) {
	g := r.Rng
	r.Prof = core.StdProfile(g)
	r.NRx = 1
	for i := 0; i < 3; i++ {
		m.addrs = append(m.addrs, uint32(g.Bits(24)))
	}
	m.level = g.Range(-1, 2)
	m.style = g.Intn(8)
	m.crlf = g.P(0.15)
	m.upper = g.P(0.5)
	m.repeat = 1
	if g.P(0.3) {
		m.repeat = []int{2, 5, 20, 100}[g.Intn(4)]
		if g.P(0.02) {
			m.repeat = []int{2000, 2000, 2000, 6000}[g.Intn(4)]
		}
	}
	if g.P(0.04) {
		m.special = g.Range(1, 2)
	}
	m.tornAt = g.Float()
	m.g = core.NewRng(core.Mix(r.Plan.Seed, 15))
}

func (m *c15) Emit(r *core.Run, slot int, g *core.Rng) []core.Emission {
	f := anyFrame(g, m.addrs[g.Intn(len(m.addrs))])
	return []core.Emission{{At: int64(slot) * 10 * core.Millisecond, Kind: fmt.Sprintf("DF%d", f.DF), Frame: f.Bytes}}
}

func (m *c15) nl() string {
	if m.crlf {
		return "\r\n"
	}
	return "\n"
}

func (m *c15) Deliver(r *core.Run, d *core.Delivery) {
	b := d.Frame
	g := core.NewRng(core.Mix(r.Plan.Seed, uint64(d.Slot), uint64(d.Idx), uint64(d.Copy), 1500))
	t := hex.EncodeToString(b)
	if m.upper {
		t = strings.ToUpper(t)
	}
	fault := func(kind string, p float64) bool { return g.P(p) && r.FaultOn(d.Slot, kind) }
	nl := m.nl()
	switch {
	case fault("torn_line", 0.03):
		t = t[:g.Intn(len(t)+1)]
	case fault("garbled_text", 0.03):
		if len(t) > 0 {
			x := []byte(t)
			x[g.Intn(len(x))] = byte(g.U64())
			t = noBreak.Replace(string(x))
		}
	case fault("foreign_line", 0.03):
		t = []string{"", " ", "# log restarted", "*8D4BAB4558AB031C446849B72535;", "8D 4B AB", "%d%s%n", "8D4BAB45 ", "\t", "é", "-1", "--file=x", "0x8D4BAB4558AB031C446849B72535"}[g.Intn(12)]
	case fault("lost_newline", 0.02):
		nl = ""
	case fault("blank_lines", 0.02):
		nl += nl + nl
	case fault("long_line", 0.004):
		t += strings.Repeat("8D", g.Range(1, 50000))
	case fault("binary_garbage", 0.01):
		t = noBreak.Replace(string(g.Bytes(g.Range(1, 60))))
	}
	m.raw = append(m.raw, t...)
	m.raw = append(m.raw, nl...)
	r.Count("lines logged")
}

// A restart of the logger leaves its last line torn, and it goes on in the same line.
func (m *c15) Restart(r *core.Run, rx int) {
	if len(m.raw) > 12 {
		n := 1 + m.g.Intn(11)
		m.raw = m.raw[:len(m.raw)-n]
	}
}

// What a line is called when it holds carriage returns of its own is nobody's promise: only those that
// are half of an end of line appear in a log, and none of them is repeated or left over at the end.
var noBreak = strings.NewReplacer("\n", "?", "\r", "?")

func settle(raw []byte) []byte {
	for bytes.Contains(raw, []byte("\r\r")) {
		raw = bytes.ReplaceAll(raw, []byte("\r\r"), []byte("\r"))
	}
	return bytes.TrimRight(raw, "\r")
}

// split gives the lines of a text: what is between ends of lines, each "\n" or "\r\n".
func split(raw []byte) []string {
	var l []string
	for len(raw) > 0 {
		i := bytes.IndexByte(raw, '\n')
		var x []byte
		if i < 0 {
			x, raw = raw, nil
		} else {
			x, raw = raw[:i], raw[i+1:]
		}
		if len(x) > 0 && x[len(x)-1] == '\r' {
			x = x[:len(x)-1]
		}
		l = append(l, string(x))
	}
	return l
}

type outcome struct {
	out, err string
	code     int
	ops      []byte
	hung     bool
}

func program(args []string, io string, seed uint64, gap int) (o outcome, fail error) {
	cmd := exec.Command(os.Getenv("VSIM_PROG"), args...)
	cmd.Env = []string{"GOMAXPROCS=2", "PATH=/usr/bin:/bin", "HOME=/", "VSIM_SEED=" + strconv.FormatUint(seed, 10), "VSIM_GAP=" + strconv.Itoa(gap)}
	cmd.Dir = os.TempDir()
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	var rd, wr *os.File
	if io != "" {
		cmd.Env = append(cmd.Env, "VSIM_IO="+io)
		rd, wr, fail = os.Pipe()
		if fail != nil {
			return
		}
		cmd.ExtraFiles = []*os.File{wr}
	}
	fail = cmd.Start()
	var ops chan []byte
	if io != "" {
		wr.Close()
		ops = make(chan []byte, 1)
		go func() {
			var b bytes.Buffer
			b.ReadFrom(rd)
			rd.Close()
			ops <- b.Bytes()
		}()
	}
	if fail != nil {
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		o.hung = true
		cmd.Process.Kill()
		<-done
	}
	if ops != nil {
		o.ops = <-ops
	}
	o.out, o.err = so.String(), se.String()
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			return o, err
		}
		o.code = x.ExitCode()
		if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.code = 128 + int(ws.Signal())
		}
	}
	return
}

// levelArgs gives the option for the version, in one of the ways there are.
func (m *c15) levelArgs() []string {
	if m.level < 0 {
		return nil
	}
	n := strconv.Itoa(m.level)
	switch m.style & 3 {
	case 0:
		return []string{"--adsb_reader_level", n}
	case 1:
		return []string{"-adsb_reader_level", n}
	case 2:
		return []string{"--adsb_reader_level=" + n}
	}
	return []string{"-adsb_reader_level=" + n}
}

type soloKey struct {
	line  string
	level int
}

// Reports of single lines that have already been seen in this process.
var solo = map[soloKey]outcome{}

// alone gives the report of a line on its own: as the argument of the program where that is possible.
func (m *c15) alone(r *core.Run, dir, line string) (outcome, bool) {
	k := soloKey{line, m.level}
	if o, ok := solo[k]; ok {
		return o, true
	}
	args := m.levelArgs()
	if line == "" || line[0] == '-' || strings.ContainsRune(line, 0) || len(line) > 100000 {
		p := filepath.Join(dir, "one.log")
		if os.WriteFile(p, []byte(line+"\n"), 0o600) != nil {
			r.Abort = "cannot write " + p
			return outcome{}, false
		}
		args = append(args, "--file", p)
		r.Count("lines reported alone from a file")
	} else {
		if m.style&4 != 0 {
			args = append(args, "--")
		}
		args = append(args, line)
		r.Count("frames given on the command line")
	}
	o, err := program(args, "", 1, 0)
	if err != nil {
		r.Abort = err.Error()
		return o, false
	}
	if len(solo) > 20000 {
		solo = map[soloKey]outcome{}
	}
	solo[k] = o
	return o, m.judgeAlone(r, line, o)
}

// judgeAlone holds a report against what the decoder says.
func (m *c15) judgeAlone(r *core.Run, line string, o outcome) bool {
	r.Count("checks")
	r.Count("single reports")
	short := line
	if len(short) > 80 {
		short = short[:80] + "..."
	}
	if o.hung {
		r.Fail("hang", "the program does not end for the line %q", short)
		return false
	}
	if len(line) >= 65536 && o.code != 0 {
		return true // refused as too long
	}
	if o.code != 0 {
		r.Fail("status", "the program fails with status %d for the line %q: %s", o.code, short, firstOf(o.err))
		return false
	}
	rest := o.out
	want := func(key, what, text string) bool {
		r.Count("checks")
		i := strings.Index(rest, text)
		if i < 0 {
			r.Fail(key, "the report of the line %q lacks %s %q; it is %q", short, what, text, clip(o.out))
			return false
		}
		rest = rest[i+len(text):]
		return true
	}
	if !want("line", "the line itself", line) {
		return false
	}
	b, err := hex.DecodeString(line)
	if err != nil {
		r.Count("checks")
		r.Count("lines that are not hexadecimal")
		if strings.TrimSpace(rest) == "" {
			r.Fail("error", "the report of the line %q says nothing about its form", short)
			return false
		}
		return true
	}
	msg, err, p := sut.ReadMessage(b)
	if p != "" {
		return true
	}
	if err != nil {
		r.Count("lines that are not a frame")
		return want("error", "the error", err.Error())
	}
	addr, err, p := sut.CheckCRC(msg, b, nil, nil)
	if p != "" {
		return true
	}
	if err != nil {
		r.Count("frames with an integrity error")
		if !want("error", "the error", err.Error()) {
			return false
		}
		if t := msg.ToString(); strings.Contains(o.out, t) {
			r.Fail("rejected", "the line %q fails the integrity check and is reported as a message all the same", short)
			return false
		}
		return true
	}
	if !want("address", "the address or interrogator code", addr.ToString()) || !want("message", "the Mode S message", msg.ToString()) {
		return false
	}
	part := sut.Part(msg)
	df := int(b[0] >> 3)
	level := m.level
	if level < 0 {
		level = 0
	}
	switch {
	case df == 17, df == 18 && b[0]&7 <= 1:
		a, err, p := sut.ReadADSB(level, false, false, part)
		if p != "" {
			return true
		}
		if err != nil {
			return want("squitter", "the error", err.Error())
		}
		r.Count(fmt.Sprintf("squitters reported at version %d", level))
		return want("squitter", fmt.Sprintf("the squitter at version %d", level), a.ToString())
	case df == 20 || df == 21:
		l, err, p := sut.ReadCommB(part)
		if p != "" {
			return true
		}
		if err != nil {
			return want("register", "the error", err.Error())
		}
		for _, x := range l {
			r.Count("registers reported")
			if !want("register", "the register", x.ToString()) {
				return false
			}
		}
	case df == 16 && part[0] == 0x30:
		a, err, p := sut.ReadRA(part[1:])
		if p != "" {
			return true
		}
		if err != nil {
			return want("advisory", "the error", err.Error())
		}
		r.Count("advisories reported")
		return want("advisory", "the advisory", a.ToString())
	}
	return true
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func firstOf(s string) string { return strings.SplitN(strings.TrimSpace(s), "\n", 2)[0] }

func (m *c15) Finish(r *core.Run) {
	g := m.g
	raw := bytes.Repeat(m.raw, m.repeat)
	if len(raw) > 4 && g.P(0.3) && r.FaultOn(0, "torn_file") {
		raw = raw[:int(m.tornAt*float64(len(raw)))]
	} else if len(raw) > 0 && g.P(0.3) && r.FaultOn(0, "no_last_newline") {
		raw = bytes.TrimSuffix(raw, []byte("\n"))
	}
	raw = settle(raw)
	dir, err := os.MkdirTemp(os.Getenv("VSIM_BUILD"), "c15-")
	if err != nil {
		r.Abort = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	name := []string{"sim.log", "sim log.txt", "sim-é.log", "-sim.log", "sim=1.log"}[g.Intn(5)]
	path := filepath.Join(dir, name)
	special := m.special
	if special != 0 && !r.FaultOn(0, []string{"", "no_such_file", "is_a_directory"}[special]) {
		special = 0
	}
	switch special {
	case 0:
		err = os.WriteFile(path, raw, 0o600)
	case 2:
		err = os.Mkdir(path, 0o700)
	}
	if err != nil {
		r.Abort = err.Error()
		return
	}
	// The script of the system calls.
	var open, read, write []int
	if g.P(0.1) && r.FaultOn(0, "open_interrupted") {
		open = append(open, -4)
	}
	if g.P(0.06) && r.FaultOn(0, "open_error") {
		open = append(open, -[]int{13, 24, 23, 5, 12, 116, 2}[g.Intn(7)])
	}
	style := g.Intn(4)
	n := g.Range(1, 60)
	for i := 0; i < n; i++ {
		k := 0
		switch style {
		case 1:
			k = g.Range(1, 40)
		case 2:
			k = []int{1, 13, 14, 28, 29, 30, 4095, 4096, 1}[g.Intn(9)]
		case 3:
			k = g.Range(1, 5000)
		}
		if k > 0 && r.FaultOn(i, "short_read") {
			read = append(read, k)
		} else {
			read = append(read, 0)
		}
		if g.P(0.04) && r.FaultOn(i, "read_interrupted") {
			read = append(read, -4)
		}
	}
	if g.P(0.3) && r.FaultOn(0, "read_error") {
		at := g.Intn(len(read) + 1)
		if g.P(0.7) {
			at = g.Intn(min(3, len(read)+1))
		}
		read = append(read[:at:at], -[]int{5, 116, 12, 21, 110}[g.Intn(5)])
	}
	if g.P(0.3) {
		for i := g.Range(1, 20); i > 0; i-- {
			if g.P(0.7) && r.FaultOn(i, "short_write") {
				write = append(write, g.Range(1, 60))
			} else if r.FaultOn(i, "write_interrupted") {
				write = append(write, -4)
			}
		}
	}
	io := name + ":" + join(open) + ":" + join(read) + ":" + join(write)
	args := m.levelArgs()
	file := []string{"--file", path}
	if m.style&1 != 0 {
		file = []string{"-file=" + path}
	}
	if g.P(0.5) {
		args = append(args, file...)
	} else {
		args = append(file, args...)
	}
	gap := []int{0, 1, 3, 20}[g.Intn(4)]
	o, err := program(args, io, r.Plan.Seed, gap)
	if err != nil {
		r.Abort = err.Error()
		return
	}
	lines := split(raw)
	r.Logf("log of %d bytes, %d lines; %s; system calls %s", len(raw), len(lines), strings.Join(args, " "), io)
	if r.Tracing {
		for i, l := range lines {
			if i >= 60 {
				r.Logf("...")
				break
			}
			r.Logf("line %d: %q", i+1, clip(l))
		}
	}
	failed := special != 0
	what := ""
	seenEOF := false
	counts := map[string]int{}
	for i := 0; i+1 < len(o.ops); i += 2 {
		e := int(o.ops[i+1])
		switch {
		case e == 4:
			counts[map[byte]string{'O': "system calls interrupted: open", 'R': "system calls interrupted: read", 'W': "system calls interrupted: write"}[o.ops[i]]]++
		case e != 0:
			failed = true
			what = fmt.Sprintf("%c fails: %v", o.ops[i], syscall.Errno(e))
			counts[map[byte]string{'O': "failures to open met", 'R': "failures to read met", 'W': "failures to write met"}[o.ops[i]]]++
		case o.ops[i] == 'R':
			counts["reads"]++
		case o.ops[i] == 'w':
			counts["partial writes"]++
		case o.ops[i] == 'Z':
			seenEOF = true
		}
	}
	for k, v := range counts {
		r.CountN(k, int64(v))
	}
	r.Note(core.HashString(string(o.ops)))
	r.NoteStr(strings.ReplaceAll(o.out, dir, ""))
	r.Note(uint64(o.code))
	r.Distinct(core.Mix(core.HashString(string(raw)), core.HashString(io), uint64(m.level+1)))
	r.Count("checks")
	r.Count("logs processed")
	if o.hung {
		r.Fail("hang", "the program does not end")
		return
	}
	long := false
	for _, l := range lines {
		long = long || len(l) >= 65535
	}
	var want strings.Builder
	lead := map[int]int{} // where the report of a line begins
	for i, l := range lines {
		s, ok := m.alone(r, dir, l)
		if !ok {
			return
		}
		lead[i] = want.Len()
		if s.code == 0 {
			want.WriteString(s.out)
		}
		if want.Len() > len(o.out)+1<<20 && failed {
			break
		}
	}
	if failed || long && o.code != 0 {
		if long && !failed {
			what = "a line longer than 64 KB"
			r.Count("logs refused for a line beyond 64 KB")
		} else {
			r.Count("logs that cannot be read")
		}
		if o.code == 0 {
			r.Fail("failure", "the log cannot be read to its end (%s) but the program ends with success, having reported %d bytes of %d", what, len(o.out), want.Len())
			return
		}
		if strings.TrimSpace(o.err) == "" && !strings.HasSuffix(strings.TrimSpace(o.out), what) {
			r.Fail("failure", "the log cannot be read (%s) and the program ends with status %d but without a message", what, o.code)
			return
		}
		if !strings.HasPrefix(want.String(), o.out) && special == 0 && !partOf(want.String(), o.out) {
			r.Fail("failure", "the log cannot be read to its end (%s) and what is reported is no report of its lines: %q", what, clip(o.out))
		}
		return
	}
	if o.code != 0 {
		r.Fail("status", "the program fails with status %d over a log of %d lines that can be read: %s", o.code, len(lines), firstOf(o.err))
		return
	}
	_ = seenEOF
	if o.out != want.String() {
		at := 0
		for at < len(o.out) && at < want.Len() && o.out[at] == want.String()[at] {
			at++
		}
		n := 0
		for n+1 < len(lines) && lead[n+1] <= at {
			n++
		}
		r.Fail("lines", "the reports over a log of %d lines are not those of its lines one by one: from line %d on (%q) there is %q instead of %q",
			len(lines), n+1, clip(lines[n]), clip(o.out[at:]), clip(want.String()[at:]))
		return
	}
	r.CountN("lines reported", int64(len(lines)))
}

// partOf tells whether the text is what the program had reported when it met the failure: whole reports, and maybe the
// message after them.
func partOf(want, out string) bool {
	i := strings.LastIndex(strings.TrimRight(out, "\n"), "\n")
	return strings.HasPrefix(want, out[:i+1])
}

func join(l []int) string {
	var s []string
	for _, n := range l {
		s = append(s, strconv.Itoa(n))
	}
	return strings.Join(s, ",")
}

func init() {
	register(&Spec{ID: "C15", New: func() core.Model { return &c15{} }, Slots: 24, Quick: 8000, Thorough: 200000, Chunk: 25, Unit: "line of a log",
		Rule:   "A case is one log given to the program under one script of system calls; distinct by log, script and version. Each line is also given to the program alone, that report is held against the decoder's own text of the message, and the report of the log must be exactly those reports one after the other.",
		Real:   []string{"cmd/main.go as a process of its own: options, reading, reporting", "pkg/**", "bufio, os, log and flag of the standard library above the system calls"},
		Stub:   []string{"open, read, pread and write system calls (scripted: short, interrupted, failing)", "thread scheduler for threads that the program might start", "radio channel and the receiver that writes the log"},
		Assume: []string{"a line ends with \\n or \\r\\n", "a line of 64 KB or more may be refused as a failure to read"}})
}
