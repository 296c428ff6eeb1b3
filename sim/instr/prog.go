package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// system puts a script between the program and the system calls with which it opens and reads the log and writes its
// output. Without VSIM_IO in the environment everything is as in the standard library.
func system(goroot, simDir, out string, replace map[string]string) error {
	patch := func(rel string, pairs ...string) error {
		path := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				return fmt.Errorf("%s is not as expected at %q", rel, pairs[i])
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		replace[path] = dst
		return os.WriteFile(dst, []byte(s), 0o644)
	}
	if err := patch("syscall/syscall_unix.go",
		"\tn, err = read(fd, p)\n", "\tn, err = zzRead(fd, p)\n",
		"\t\tn, err = write(fd, p)\n", "\t\tn, err = zzWrite(fd, p)\n",
		"\tn, err = pread(fd, p, offset)\n", "\tn, err = zzPread(fd, p, offset)\n"); err != nil {
		return err
	}
	if err := patch("syscall/syscall_linux.go",
		"\treturn openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n", "\treturn zzOpen(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n",
		"\treturn openat(dirfd, path, flags|O_LARGEFILE, mode)\n", "\treturn zzOpen(dirfd, path, flags|O_LARGEFILE, mode)\n"); err != nil {
		return err
	}
	dst := filepath.Join(out, "zz_script.go")
	if err := os.WriteFile(dst, []byte(script), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(goroot, "src", "syscall", "zz_script.go")] = dst
	dst = filepath.Join(out, "zz_main.go")
	if err := os.WriteFile(dst, []byte(mainFile), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(simDir, "prog", "zz_main.go")] = dst
	return nil
}

// The script is NAME:OPEN:READ:WRITE. OPEN and READ are about the file with that base name, WRITE about the standard
// output. Each is a list of numbers, one per call: n moves at most n bytes (0: as many as asked for), -e fails with
// errno e. What is done is reported, a letter and a byte per call, on descriptor 3.
const script = `package syscall

var zz struct {
	on                bool
	name              string
	open, read, write []int
	fd                [256]bool
}

func init() {
	s, ok := Getenv("VSIM_IO")
	if !ok {
		return
	}
	zz.on = true
	part := 0
	n, neg, have := 0, false, false
	list := func() *[]int {
		switch part {
		case 1:
			return &zz.open
		case 2:
			return &zz.read
		}
		return &zz.write
	}
	flush := func() {
		if have {
			if neg {
				n = -n
			}
			l := list()
			*l = append(*l, n)
		}
		n, neg, have = 0, false, false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ':':
			flush()
			part++
		case part == 0:
			zz.name += string(c)
		case c == ',':
			flush()
		case c == '-':
			neg = true
		default:
			n = n*10 + int(c-'0')
			have = true
		}
	}
	flush()
}

func zzTell(c byte, n int) {
	b := []byte{c, byte(n)}
	write(3, b)
}

func zzNext(l *[]int) int {
	if len(*l) == 0 {
		return 0
	}
	n := (*l)[0]
	*l = (*l)[1:]
	return n
}

func zzOpen(dirfd int, path string, flags int, mode uint32) (int, error) {
	if !zz.on || len(path) < len(zz.name) || path[len(path)-len(zz.name):] != zz.name {
		return openat(dirfd, path, flags, mode)
	}
	if n := zzNext(&zz.open); n < 0 {
		zzTell('O', -n)
		return -1, Errno(-n)
	}
	fd, err := openat(dirfd, path, flags, mode)
	if err == nil && fd < len(zz.fd) {
		zz.fd[fd] = true
	}
	if e, ok := err.(Errno); ok {
		zzTell('O', int(e))
	} else {
		zzTell('O', 0)
	}
	return fd, err
}

func zzLimit(p []byte) ([]byte, error) {
	n := zzNext(&zz.read)
	if n < 0 {
		zzTell('R', -n)
		return nil, Errno(-n)
	}
	if n > 0 && n < len(p) {
		p = p[:n]
	}
	return p, nil
}

func zzRead(fd int, p []byte) (n int, err error) {
	if !zz.on || fd < 0 || fd >= len(zz.fd) || !zz.fd[fd] {
		return read(fd, p)
	}
	p, err = zzLimit(p)
	if err != nil {
		return -1, err
	}
	n, err = read(fd, p)
	zzDone(n, err)
	return
}

func zzPread(fd int, p []byte, offset int64) (n int, err error) {
	if !zz.on || fd < 0 || fd >= len(zz.fd) || !zz.fd[fd] {
		return pread(fd, p, offset)
	}
	p, err = zzLimit(p)
	if err != nil {
		return -1, err
	}
	n, err = pread(fd, p, offset)
	zzDone(n, err)
	return
}

func zzDone(n int, err error) {
	if e, ok := err.(Errno); ok {
		zzTell('R', int(e))
	} else if n == 0 {
		zzTell('Z', 0)
	} else {
		zzTell('R', 0)
	}
}

func zzWrite(fd int, p []byte) (n int, err error) {
	if !zz.on || fd != 1 {
		return write(fd, p)
	}
	k := zzNext(&zz.write)
	if k < 0 {
		zzTell('W', -k)
		return -1, Errno(-k)
	}
	if k > 0 && k < len(p) {
		p = p[:k]
		zzTell('w', 0)
	}
	return write(fd, p)
}
`

// The program runs as a thread under the scheduler, with those it starts itself, and ends with its main function.
const mainFile = `package main

import (
	"os"
	"strconv"

	zzsched "vsim/sched"
)

func main() {
	seed, _ := strconv.ParseUint(os.Getenv("VSIM_SEED"), 10, 64)
	gap, _ := strconv.Atoi(os.Getenv("VSIM_GAP"))
	out := zzsched.Run(zzsched.Options{Seed: seed, Gap: gap}, []func(){func() {
		zzmain()
		os.Exit(0)
	}})
	os.Stderr.WriteString("the program does not end: " + out.Verdict + "\n")
	os.Exit(97)
}
`
