package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// Schedules found by the executor are reproduced with yield points: the sources of the repository
// are built through an overlay in which every statement is preceded by a call that sometimes gives
// the processor to another goroutine. Nothing else is changed.

const yieldSrc = `package %s

import (
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
)

var verifSched struct {
	sync.Mutex
	r *rand.Rand
}

func init() {
	if n, err := strconv.Atoi(os.Getenv("VERIF_JITTER")); err == nil {
		verifSched.r = rand.New(rand.NewSource(int64(n)))
	}
}

func verifPoint() {
	if verifSched.r == nil {
		return
	}
	verifSched.Lock()
	k := verifSched.r.Intn(12)
	verifSched.Unlock()
	for ; k > 8; k-- {
		runtime.Gosched()
	}
}
`

// instrument writes the overlay into dir and returns its path.
func instrument(repo, dir string, srcs map[string][]byte) (string, error) {
	replace := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		if strings.HasPrefix(fi.Name(), ".") && p != repo {
			return filepath.SkipDir
		}
		pkg, err := build.Default.ImportDir(p, 0)
		if err != nil || pkg.Name == "main" {
			return nil
		}
		for _, f := range pkg.GoFiles {
			src := filepath.Join(p, f)
			fset := token.NewFileSet()
			var text interface{}
			if b, ok := srcs[src]; ok {
				text = b
			}
			a, err := parser.ParseFile(fset, src, text, 0)
			if err != nil {
				return err
			}
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					x.List = yields(x.List)
				case *ast.CaseClause:
					x.Body = yields(x.Body)
				case *ast.CommClause:
					x.Body = yields(x.Body)
				}
				return true
			})
			var b bytes.Buffer
			if err := printer.Fprint(&b, fset, a); err != nil {
				return err
			}
			n++
			out := filepath.Join(dir, fmt.Sprintf("instr%d.go", n))
			if err := os.WriteFile(out, b.Bytes(), 0o644); err != nil {
				return err
			}
			replace[src] = out
		}
		n++
		out := filepath.Join(dir, fmt.Sprintf("instr%d.go", n))
		if err := os.WriteFile(out, []byte(fmt.Sprintf(yieldSrc, pkg.Name)), 0o644); err != nil {
			return err
		}
		replace[filepath.Join(p, "verif_yield_points.go")] = out
		return nil
	})
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	out := filepath.Join(dir, "overlay.json")
	return out, os.WriteFile(out, b, 0o644)
}

func yields(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return l
		}
		// built without positions so that the printer keeps them apart
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifPoint")}}, s)
	}
	return out
}
