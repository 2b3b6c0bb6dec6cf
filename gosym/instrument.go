package main

// Native copies of the repository's sources with a yield before every statement, used to reproduce schedules.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var instrumentDirs = []string{"pkg/concurrency", "pkg/types", "pkg/util", "pkg/network", "pkg/db", "pkg/log"}

func instrument(work, name string) (map[string]string, error) {
	out := map[string]string{}
	for _, d := range instrumentDirs {
		ents, err := os.ReadDir(filepath.Join(repoDir, d))
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") {
				continue
			}
			p := filepath.Join(repoDir, d, n)
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, nil, 0)
			if err != nil {
				return nil, err
			}
			cnt := 0
			yield := func() ast.Stmt {
				cnt++
				return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzyield"), Sel: ast.NewIdent("Y")}}}
			}
			var fix func(l []ast.Stmt) []ast.Stmt
			fix = func(l []ast.Stmt) []ast.Stmt {
				var r []ast.Stmt
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt:
						// labels must stay in front of their loop
						if _, ok := s.(*ast.LabeledStmt); ok {
							r = append(r, yield())
						}
						r = append(r, s)
						continue
					}
					r = append(r, yield(), s)
				}
				return r
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					isCases := false
					for _, s := range x.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							isCases = true
						}
					}
					if !isCases {
						x.List = fix(x.List)
					}
				case *ast.CaseClause:
					x.Body = fix(x.Body)
				case *ast.CommClause:
					x.Body = fix(x.Body)
				}
				return true
			})
			if cnt == 0 {
				continue
			}
			// add the import
			imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzyield"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + zzPkg + `/zzyield"`}}}}
			f.Decls = append([]ast.Decl{imp}, f.Decls...)
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fset, f); err != nil {
				return nil, err
			}
			dst := filepath.Join(work, fmt.Sprintf("%s_%s_%s", name, strings.ReplaceAll(d, "/", "_"), n))
			if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
				return nil, err
			}
			out[p] = dst
		}
	}
	return out, nil
}
