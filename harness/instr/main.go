// Command instr writes copies of Go files with a scheduling point before every statement and
// prints the overlay entries: instr OUTDIR IMPORTPATH FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	out, imp := os.Args[1], os.Args[2]
	m := map[string]string{}
	for i, name := range os.Args[3:] {
		src, err := os.ReadFile(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var b []byte
		p := fset.Position(f.Name.End()).Offset
		b = append(b, src[:p]...)
		b = append(b, "; import zzsched \""+imp+"\""...)
		for j, o := range at {
			b = append(b, src[p:o]...)
			b = append(b, fmt.Sprintf("zzsched.P(%d); ", i<<16|j)...)
			p = o
		}
		b = append(b, src[p:]...)
		dst := filepath.Join(out, fmt.Sprintf("i%d_%s", i, filepath.Base(name)))
		if err := os.WriteFile(dst, b, 0o600); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		m[name] = dst
	}
	_ = json.NewEncoder(os.Stdout).Encode(m)
}
