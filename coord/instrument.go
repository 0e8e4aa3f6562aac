package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument writes copies of the repository's source files in which every
// statement is preceded by a call of yield.Y, and prints an overlay map.  The
// insertions stay on their lines, so that positions do not change.
func instrument(repo, out string) {
	m := map[string]string{}
	site := 0
	names := map[string]int{}
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "edwards25519") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			return nil // the compiler will say so
		}
		var at []int
		add := func(l []ast.Stmt) {
			for _, s := range l {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					at = append(at, fs.Position(s.Pos()).Offset)
				}
			}
		}
		cgo := false
		for _, i := range f.Imports {
			cgo = cgo || i.Path.Value == `"C"`
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if !clauses(n) {
					add(n.List)
				}
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		if len(at) == 0 || cgo {
			return nil
		}
		sort.Ints(at)
		var b strings.Builder
		head := fs.Position(f.Name.End()).Offset
		b.Write(src[:head])
		b.WriteString(`; import zzyield "verif/sim/yield"`)
		last := head
		for _, o := range at {
			b.Write(src[last:o])
			fmt.Fprintf(&b, "zzyield.Y(%d); ", site)
			site++
			last = o
		}
		b.Write(src[last:])
		rel, _ := filepath.Rel(repo, path)
		names[rel] = len(at)
		dst := filepath.Join(out, "stmt__"+strings.Replace(rel, "/", "__", -1))
		if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
			return err
		}
		m[path] = dst
		return nil
	})
	if err != nil {
		die("instrument: %v", err)
	}
	json.NewEncoder(os.Stdout).Encode(m)
}

func clauses(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}
