package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// yieldSrc is the file added to an instrumented package.
const yieldSrc = `package PKG

// VerifYield runs before synchronisation operations (verification overlay).
var VerifYield func()

func verifYield() {
	if VerifYield != nil {
		VerifYield()
	}
}
`

var syncCalls = map[string]bool{
	"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true,
	"Wait": true, "Done": true, "Add": true, "Broadcast": true, "Signal": true, "Do": true,
	"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true,
}

// syncStmt reports whether executing s itself (not its nested blocks) synchronises.
func syncStmt(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
		return true
	case *ast.LabeledStmt, *ast.DeclStmt, *ast.DeferStmt, *ast.CaseClause, *ast.CommClause, *ast.BlockStmt:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.RangeStmt:
			return true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if syncCalls[se.Sel.Name] || strings.HasPrefix(se.Sel.Name, "cancel") {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// instrument copies the package in dir with a yield before every statement that
// synchronises and at the start of every function; the result extends an overlay.
func instrument(dir, out string, rep map[string]string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pkg := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		pkg = af.Name.Name
		var at []int
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if syncStmt(s) {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var b strings.Builder
		prev := 0
		for _, i := range at {
			if i < prev {
				continue
			}
			b.Write(src[prev:i])
			b.WriteString("verifYield(); ")
			prev = i
		}
		b.Write(src[prev:])
		if _, err := parser.ParseFile(token.NewFileSet(), f, b.String(), parser.SkipObjectResolution); err != nil {
			continue
		}
		to := filepath.Join(out, "instr_"+filepath.Base(f)+".txt")
		if err := os.WriteFile(to, []byte(b.String()), 0o644); err != nil {
			return err
		}
		rep[f] = to
	}
	if pkg == "" {
		return nil
	}
	to := filepath.Join(out, "instr_yield.txt")
	rep[filepath.Join(dir, "zz_verif_yield.go")] = to
	return os.WriteFile(to, []byte(strings.Replace(yieldSrc, "PKG", pkg, 1)), 0o644)
}
