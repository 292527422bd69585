// instr inserts scheduling points between the statements of Go files, keeping
// line numbers: instr OUT FILE...  (OUT is a directory). Used on a copy of
// package crand; the copy takes the original's place through -overlay.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

type edit struct {
	off, end int
	text     string
}

func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return plain(x.X)
	case *ast.StarExpr:
		return plain(x.X)
	case *ast.ParenExpr:
		return plain(x.X)
	}
	return false
}

func main() {
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		out := filepath.Join(os.Args[1], "crand__"+filepath.Base(f))
		if err != nil {
			// the compiler will say what is wrong with it
			os.WriteFile(out, src, 0644)
			continue
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		var eds []edit
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				a := pos(s.Pos())
				eds = append(eds, edit{a, a, "zzsim.ZzYield(); "})
				switch x := s.(type) {
				case *ast.IncDecStmt:
					if plain(x.X) {
						t := string(src[pos(x.X.Pos()):pos(x.X.End())])
						op := "+"
						if x.Tok == token.DEC {
							op = "-"
						}
						eds = append(eds, edit{a, pos(s.End()), "{ zzt := " + t + "; zzsim.ZzYield(); " + t + " = zzt " + op + " 1 }"})
					}
				case *ast.AssignStmt:
					if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && len(x.Lhs) == 1 && plain(x.Lhs[0]) {
						t := string(src[pos(x.Lhs[0].Pos()):pos(x.Lhs[0].End())])
						op := x.Tok.String()
						op = op[:len(op)-1]
						eds = append(eds, edit{pos(x.Pos()), pos(x.Rhs[0].Pos()), "{ zzt := " + t + "; zzsim.ZzYield(); " + t + " = zzt " + op + " ("})
						e := pos(x.Rhs[0].End())
						eds = append(eds, edit{e, e, ") }"})
					}
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		// The clauses of a switch or select are themselves in a block: no calls
		// between them.
		drop := map[int]bool{}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				drop[pos(n.Pos())] = true
			}
			return true
		})
		i := pos(file.Name.End())
		eds = append(eds, edit{i, i, "; import zzsim \"sync\""})
		eds = append(eds, edit{len(src), len(src), "\nvar _ = zzsim.ZzYield\n"})
		sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
		var b []byte
		at := 0
		for _, e := range eds {
			if e.text == "zzsim.ZzYield(); " && drop[e.off] {
				continue
			}
			if e.off < at {
				continue
			}
			b = append(b, src[at:e.off]...)
			b = append(b, e.text...)
			at = e.end
		}
		b = append(b, src[at:]...)
		if err := os.WriteFile(out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}
