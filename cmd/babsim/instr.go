package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument returns src with a preemption point in front of every statement.
// Line numbers are kept.
func instrument(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	if ast.IsGenerated(f) {
		return src, 0, nil
	}
	var offs []int
	addList := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.DeclStmt:
				if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
					continue
				}
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			offs = append(offs, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			addList(x.List)
		case *ast.CaseClause:
			addList(x.Body)
		case *ast.CommClause:
			addList(x.Body)
		}
		return true
	})
	if len(offs) == 0 {
		return src, 0, nil
	}
	sort.Ints(offs)
	var b strings.Builder
	last := 0
	pkgEnd := fset.Position(f.Name.End()).Offset
	b.Write(src[:pkgEnd])
	b.WriteString("; import zzsimrt \"runtime\"")
	last = pkgEnd
	for _, o := range offs {
		b.Write(src[last:o])
		b.WriteString("zzsimrt.SimYield(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), len(offs), nil
}

// repoFiles lists the non-test Go files of the program under test.
func repoFiles(repo string) ([]string, error) {
	var out []string
	err := filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			n := info.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "node_modules") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

func addInstrumented(o *overlayBuilder, repo string) (int, error) {
	files, err := repoFiles(repo)
	if err != nil {
		return 0, err
	}
	total := 0
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return 0, err
		}
		out, n, err := instrument(f, src)
		if err != nil {
			return 0, fmt.Errorf("%s: %w", f, err)
		}
		if n == 0 {
			continue
		}
		total += n
		if err := o.put(f, out); err != nil {
			return 0, err
		}
	}
	return total, o.put(filepath.Join(repo, "zz_simversion.go"), []byte(versionFile))
}

// versionFile lets a simulation say which version of bab it runs.
const versionFile = `package main

import "runtime"

func init() {
	if v := runtime.SimVersion(); v != "" {
		version = v
	}
}
`
