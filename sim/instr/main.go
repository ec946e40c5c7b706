// instr copies Go files, putting a possible context switch of the simulated
// scheduler before every statement. Line numbers do not change.
package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	sc := bufio.NewScanner(os.Stdin) // lines: src TAB dst
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		p := strings.SplitN(sc.Text(), "\t", 2)
		if len(p) != 2 {
			continue
		}
		if err := instrument(p[0], p[1]); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
	}
}

func instrument(src, dst string) error {
	text, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, text, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	type ins struct {
		off int
		s   string
	}
	var list []ins
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			list = append(list, ins{fset.Position(s.Pos()).Offset, "simrt_.SimStmt();"})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.ForStmt:
			list = append(list, ins{fset.Position(n.Body.Lbrace).Offset + 1, "simrt_.SimStmt();"})
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	if len(list) > 0 {
		list = append(list, ins{fset.Position(f.Name.End()).Offset, `; import simrt_ "runtime"`})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	last := 0
	for _, i := range list {
		b.Write(text[last:i.off])
		b.WriteString(i.s)
		last = i.off
	}
	b.Write(text[last:])
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	if old, err := os.ReadFile(dst); err == nil && string(old) == b.String() {
		return nil
	}
	return os.WriteFile(dst, []byte(b.String()), 0o644)
}
