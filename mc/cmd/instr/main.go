// Command instr writes copies of Go source files in which every statement is
// preceded by a call of sched.Yield, and an overlay which puts them in place.
//
//	instr DIR OUT
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	var files []string
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return err
	})
	check(err)
	sort.Strings(files)
	check(os.MkdirAll(out, 0o755))
	replace := map[string]string{}
	var sites []string
	for n, f := range files {
		src, err := os.ReadFile(f)
		check(err)
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			continue // the build says so
		}
		at := map[int]bool{}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause:
				default:
					at[fs.PositionFor(s.Pos(), false).Offset] = true
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		var offs []int
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var sb strings.Builder
		last := 0
		put := func(o int, s string) {
			sb.Write(src[last:o])
			sb.WriteString(s)
			last = o
		}
		// after the package clause
		put(fs.PositionFor(tree.Name.End(), false).Offset, `; import zzsched "verif/mc/sched"`)
		rel, _ := filepath.Rel(filepath.Dir(dir), f)
		line := 1
		prev := 0
		for _, o := range offs {
			line += strings.Count(string(src[prev:o]), "\n")
			prev = o
			put(o, fmt.Sprintf("zzsched.Yield(%d); ", len(sites)))
			sites = append(sites, fmt.Sprintf("%s:%d", rel, line))
		}
		sb.Write(src[last:])
		to := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(f)))
		check(os.WriteFile(to, []byte(sb.String()), 0o644))
		abs, err := filepath.Abs(to)
		check(err)
		replace[f] = abs
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(sites)
	check(os.WriteFile(filepath.Join(out, "sites.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
