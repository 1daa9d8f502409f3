// instr DIR OUTDIR writes an overlay that inserts a call of verifYield before
// every statement of the library in DIR, and adds the file defining it. The
// insertion is textual (at statement offsets), so nothing else changes.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

// VerifHook is called before every statement when set (C17's scheduler).
var VerifHook func()

func verifYield() {
	if VerifHook != nil {
		VerifHook()
	}
}
`

func main() {
	dir, out := os.Args[1], os.Args[2]
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		fail(err)
	}
	rep := map[string]string{}
	pkg := ""
	points := 0
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			fail(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		pkg = f.Name.Name
		var at []int
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "init" && x.Recv == nil {
					return false
				}
			case *ast.SwitchStmt: // its body holds clauses, not statements
				clauses(x.Body, list)
			case *ast.TypeSwitchStmt:
				clauses(x.Body, list)
			case *ast.SelectStmt:
				clauses(x.Body, list)
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			b.Write(src[last:o])
			b.WriteString("verifYield();")
			last = o
			points++
		}
		b.Write(src[last:])
		p := filepath.Join(out, filepath.Base(n))
		if err := os.WriteFile(p, []byte(b.String()), 0o644); err != nil {
			fail(err)
		}
		rep[n] = p
	}
	p := filepath.Join(out, "zz_verif_sched.go")
	if err := os.WriteFile(p, []byte(fmt.Sprintf(hook, pkg)), 0o644); err != nil {
		fail(err)
	}
	rep[filepath.Join(dir, "zz_verif_sched.go")] = p
	j, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fail(err)
	}
	fmt.Println(points)
}

func clauses(b *ast.BlockStmt, list func([]ast.Stmt)) {
	for _, s := range b.List {
		switch c := s.(type) {
		case *ast.CaseClause:
			list(c.Body)
		case *ast.CommClause:
			list(c.Body)
		}
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}
