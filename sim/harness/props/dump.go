//go:build go1.22

// Package props holds the properties' workloads and oracles.
package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
)

// dumpCol shows everything observable about a column.
func dumpCol(b *strings.Builder, c model.TableColumn) {
	fmt.Fprintf(b, "  col %q type=%v tbl=%q null=%v", c.Name(), c.Type(), c.TableID(), c.NullState())
	if c.HasLength() {
		fmt.Fprintf(b, " len=%s", c.Length().Length())
		if c.Length().HasDecimal() {
			fmt.Fprintf(b, ",%s", c.Length().Decimal())
		}
	}
	if c.HasCharacterSet() {
		fmt.Fprintf(b, " cs=%q", c.CharacterSet())
	}
	if c.HasCollation() {
		fmt.Fprintf(b, " coll=%q", c.Collation())
	}
	if c.HasDefault() {
		fmt.Fprintf(b, " def=%q/%v", c.Default(), c.IsQuotedDefault())
	}
	if c.HasComment() {
		fmt.Fprintf(b, " comment=%q", c.Comment())
	}
	if c.HasAutoUpdate() {
		fmt.Fprintf(b, " upd=%q", c.AutoUpdate())
	}
	for v := range c.EnumValues() {
		fmt.Fprintf(b, " enum=%q", v)
	}
	for v := range c.SetValues() {
		fmt.Fprintf(b, " set=%q", v)
	}
	fmt.Fprintf(b, " ai=%v bin=%v key=%v pri=%v uniq=%v uns=%v zf=%v\n", c.IsAutoIncrement(), c.IsBinary(), c.IsKey(), c.IsPrimary(), c.IsUnique(), c.IsUnsigned(), c.IsZeroFill())
}

func dumpIdxCols(b *strings.Builder, l chan model.IndexColumn) {
	for c := range l {
		fmt.Fprintf(b, " (%q", c.Name())
		if c.HasLength() {
			fmt.Fprintf(b, " %s", c.Length())
		}
		if c.HasSortDirection() {
			fmt.Fprintf(b, " asc=%v desc=%v", c.IsAscending(), c.IsDescending())
		}
		b.WriteString(")")
	}
}

// dumpTable shows everything observable about a table.
func dumpTable(b *strings.Builder, t model.Table) {
	fmt.Fprintf(b, "table %q temp=%v ine=%v like=%v/%q\n", t.Name(), t.IsTemporary(), t.IsIfNotExists(), t.HasLikeTable(), t.LikeTable())
	for c := range t.Columns() {
		dumpCol(b, c)
	}
	for x := range t.Indexes() {
		fmt.Fprintf(b, "  idx name=%v/%q sym=%v/%q pk=%v n=%v u=%v ft=%v sp=%v fk=%v bt=%v h=%v", x.HasName(), x.Name(), x.HasSymbol(), x.Symbol(), x.IsPrimaryKey(), x.IsNormal(), x.IsUnique(), x.IsFullText(), x.IsSpatial(), x.IsForeignKey(), x.IsBtree(), x.IsHash())
		dumpIdxCols(b, x.Columns())
		if r := x.Reference(); r != nil {
			fmt.Fprintf(b, " ref=%q %v/%v m=%v%v%v", r.TableName(), r.OnDelete(), r.OnUpdate(), r.MatchFull(), r.MatchPartial(), r.MatchSimple())
			dumpIdxCols(b, r.Columns())
		}
		for o := range x.Options() {
			fmt.Fprintf(b, " opt=%q=%q/%v", o.Key(), o.Value(), o.NeedQuotes())
		}
		b.WriteString("\n")
	}
	for o := range t.Options() {
		fmt.Fprintf(b, "  opt %q=%q/%v\n", o.Key(), o.Value(), o.NeedQuotes())
	}
}

// dumpStmts shows everything observable about parsed statements.
func dumpStmts(l model.Stmts) string {
	var b strings.Builder
	for _, s := range l {
		switch s := s.(type) {
		case model.Table:
			dumpTable(&b, s)
		default:
			fmt.Fprintf(&b, "stmt %T %s\n", s, s.ID())
		}
	}
	return b.String()
}

// dumpParse is the observable result of parsing.
func dumpParse(l model.Stmts, err error) string {
	if err != nil {
		s := "error: " + err.Error()
		if pe, ok := err.(schemalex.ParseError); ok {
			s += fmt.Sprintf(" [%s %d:%d eof=%v %q]", pe.File(), pe.Line(), pe.Col(), pe.EOF(), pe.Message())
		}
		if len(l) > 0 {
			s += fmt.Sprintf(" with %d statements", len(l))
		}
		return s
	}
	return dumpStmts(l)
}

// formatAll formats all statements.
func formatAll(l model.Stmts, opts ...format.Option) string {
	var b bytes.Buffer
	for _, s := range l {
		if err := format.SQL(&b, s, opts...); err != nil {
			fmt.Fprintf(&b, "<error %v>", err)
		}
		b.WriteString(";\n")
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// firstDiff describes where two texts differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n   %s\n   %s", i+1, clip(x, 300), clip(y, 300))
		}
	}
	return "equal"
}
