// Command instr writes yield-instrumented copies of packages of the tracker and
// an overlay file for "go build -overlay". Before statements it inserts calls
// that now and then hand the processor to another goroutine, so that more of
// the interleavings the code allows are observed. Nothing else is changed and
// line numbers stay the same.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const yieldSrc = `// Package vyield is added by the verification overlay.
package vyield

import (
	"math/rand/v2"
	"runtime"
	"syscall"
)

//go:norace
func P() {
	// neither creates synchronisation the race detector would see, and the
	// clock is the real one even in a bubble with virtual time
	switch x := rand.Uint32(); {
	case x&15 == 0:
		runtime.Gosched()
	case x&1023 == 1:
		ts := syscall.Timespec{Nsec: int64(10000 + (x>>26)*1000)}
		syscall.Nanosleep(&ts, nil)
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	for _, extra := range os.Args[3:] { // dst=src pairs and package directories
		if dst, src, ok := strings.Cut(extra, "="); ok {
			overlay[filepath.Join(repo, dst)] = src
			continue
		}
		files, _ := filepath.Glob(filepath.Join(repo, extra, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			res, n, err := instrument(f, src)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			if n == 0 {
				continue
			}
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, repo+"/"), "/", "__"))
			if err := os.WriteFile(dst, res, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			overlay[f] = dst
		}
	}
	y := filepath.Join(out, "vyield.go")
	os.WriteFile(y, []byte(yieldSrc), 0644)
	overlay[filepath.Join(repo, "tracker/utils/vyield/vyield.go")] = y
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				continue
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		// the clauses of switch and select are statements of a block as well
		// and must not be separated
	}
	if len(at) == 0 {
		return src, 0, nil
	}
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			clause[fset.Position(n.Pos()).Offset] = true
		case *ast.CommClause:
			clause[fset.Position(n.Pos()).Offset] = true
		}
		return true
	})
	sort.Ints(at)
	imp := fset.Position(f.Name.End()).Offset
	var out bytes.Buffer
	out.Write(src[:imp])
	out.WriteString(`; import vyield "github.com/crimist/trakx/tracker/utils/vyield"`)
	pos, n := imp, 0
	last := -1
	for _, o := range at {
		if clause[o] || o == last || o < imp {
			continue
		}
		last = o
		out.Write(src[pos:o])
		out.WriteString("vyield.P();")
		pos = o
		n++
	}
	out.Write(src[pos:])
	return out.Bytes(), n, nil
}
