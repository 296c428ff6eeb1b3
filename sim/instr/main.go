// instr writes an overlay of the decoder in which every statement is a scheduling point.
//
//	instr <repo> <sim directory> <out directory> <GOROOT> [prog]
//
// With prog it is the command line program that is instrumented, as the package vsim/prog, and the system calls for
// files go through a script (see prog.go).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

type edit struct {
	at, end int
	text    string
	n       int
}

func main() {
	repo, simDir, out := os.Args[1], os.Args[2], os.Args[3]
	repo, _ = filepath.Abs(repo)
	replace := map[string]string{}
	var sites []string
	prog := len(os.Args) > 5
	root := filepath.Join(repo, "pkg")
	if prog {
		root = filepath.Join(repo, "cmd")
	}
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if prog && info.IsDir() && path != root {
			return filepath.SkipDir
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		var edits []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(at, end int, text string) { edits = append(edits, edit{at, end, text, len(edits)}) }
		used := false
		point := func(s ast.Stmt) {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				return
			}
			fn := "Y"
			if leaves(s) {
				fn = "L"
			}
			used = true
			add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzsched.%s(%d); ", fn, len(sites)))
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(s.Pos()).Line))
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.BlockStmt:
				for _, s := range t.List {
					point(s)
				}
			case *ast.CaseClause:
				for _, s := range t.Body {
					point(s)
				}
			case *ast.CommClause:
				for _, s := range t.Body {
					point(s)
				}
			case *ast.GoStmt:
				used = true
				c := t.Call
				// The function and the values are taken now, what is a constant stays where it is.
				given := []string{}
				text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
				fn := "zzf"
				if i, ok := c.Fun.(*ast.Ident); ok && builtin[i.Name] && i.Obj == nil {
					fn = i.Name
					add(off(t.Pos()), off(c.Lparen)+1, "{ ")
				} else {
					add(off(t.Pos()), off(t.Pos())+2, "{ zzf := ")
					add(off(c.Lparen), off(c.Lparen)+1, "; ")
				}
				last := c.Lparen + 1
				for i, a := range c.Args {
					if constant(a) {
						given = append(given, text(a))
						add(off(last), off(a.End()), "")
					} else {
						n := fmt.Sprintf("zz%d", i)
						given = append(given, n)
						add(off(last), off(a.Pos()), n+" := ")
						add(off(a.End()), off(a.End()), "; ")
					}
					last = a.End()
				}
				dots := ""
				if c.Ellipsis.IsValid() {
					dots = "..."
				}
				add(off(last), off(c.Rparen)+1, "zzsched.Go(func() { "+fn+"("+strings.Join(given, ", ")+dots+") }) }")
			case *ast.FuncDecl:
				if prog && t.Recv == nil && t.Name.Name == "main" {
					add(off(t.Name.Pos()), off(t.Name.End()), "zzmain")
				}
			case *ast.ImportSpec:
				if t.Path.Value == `"sync"` {
					add(off(t.Path.Pos()), off(t.Path.End()), `"vsim/simsync"`)
				}
			}
			return true
		})
		if used {
			add(off(f.Name.End()), off(f.Name.End()), `; import zzsched "vsim/sched"`)
		}
		if len(edits) == 0 && !prog {
			return nil
		}
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].at != edits[j].at {
				return edits[i].at < edits[j].at
			}
			return edits[i].n < edits[j].n
		})
		var b strings.Builder
		pos := 0
		for _, e := range edits {
			b.Write(src[pos:e.at])
			b.WriteString(e.text)
			pos = e.end
		}
		b.Write(src[pos:])
		dst := filepath.Join(out, "pkg", strings.ReplaceAll(rel, "/", "__"))
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if prog {
			path = filepath.Join(simDir, "prog", filepath.Base(path))
		}
		replace[path] = dst
		return os.WriteFile(dst, []byte(b.String()), 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var b strings.Builder
	b.WriteString("package sched\n\n// Sites are the places of the instrumented statements.\nvar Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	dst := filepath.Join(out, "sites.go")
	os.WriteFile(dst, []byte(b.String()), 0o644)
	replace[filepath.Join(simDir, "sched", "sites.go")] = dst
	goroot := runtime.GOROOT()
	if len(os.Args) > 4 {
		goroot = os.Args[4]
	}
	if prog {
		if err := system(goroot, simDir, out, replace); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	// The standard pool drops and keeps values at random when races are looked for; here it keeps none.
	pool := filepath.Join(goroot, "src", "sync", "pool.go")
	if src, err := os.ReadFile(pool); err == nil {
		s := string(src)
		g := strings.Replace(s, "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif x != nil {\n\t\treturn\n\t}\n", 1)
		if g != s {
			dst := filepath.Join(out, "pool.go")
			os.WriteFile(dst, []byte(g), 0o644)
			replace[pool] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(len(sites), "scheduling points in", len(replace), "files")
}

var builtin = map[string]bool{"close": true, "print": true, "println": true, "panic": true, "copy": true, "delete": true, "clear": true}

// constant tells whether an argument is a constant by its form.
func constant(e ast.Expr) bool {
	switch t := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return t.Name == "nil" || t.Name == "true" || t.Name == "false"
	case *ast.UnaryExpr:
		return constant(t.X)
	case *ast.BinaryExpr:
		return constant(t.X) && constant(t.Y)
	case *ast.ParenExpr:
		return constant(t.X)
	}
	return false
}

// leaves tells whether a statement itself may wait on a channel.
func leaves(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if t.Op == token.ARROW {
				found = true
			}
		case *ast.SelectStmt:
			for _, c := range t.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					return false
				}
			}
			found = true
			return false
		}
		return true
	})
	return found
}
