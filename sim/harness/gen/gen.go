//go:build go1.22

// Package gen generates schemas: as abstract models, as SQL text in many
// spellings, and as damaged text.
package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Col is a column.
type Col struct {
	Name     string `json:"n"`
	Type     string `json:"t"`           // with length and attributes
	Null     string `json:"u,omitempty"` // "", "NULL", "NOT NULL"
	Default  string `json:"d,omitempty"` // SQL, without DEFAULT
	OnUpdate string `json:"o,omitempty"`
	AutoInc  bool   `json:"a,omitempty"`
	Key      string `json:"k,omitempty"` // inline "PRIMARY KEY", "UNIQUE"
	Comment  string `json:"c,omitempty"` // SQL literal
	Charset  string `json:"s,omitempty"`
	Collate  string `json:"l,omitempty"`
}

// IdxCol is an indexed column.
type IdxCol struct {
	Name string `json:"n"`
	Len  int    `json:"l,omitempty"`
	Dir  string `json:"d,omitempty"`
}

// Idx is an index.
type Idx struct {
	Kind  string   `json:"k"` // PRIMARY KEY, UNIQUE KEY, KEY, FULLTEXT KEY, SPATIAL KEY
	Name  string   `json:"n,omitempty"`
	Cols  []IdxCol `json:"c"`
	Using string   `json:"u,omitempty"`
	With  string   `json:"w,omitempty"`
	Sym   string   `json:"s,omitempty"` // CONSTRAINT name
}

// FK is a foreign key.
type FK struct {
	Symbol   string   `json:"s,omitempty"`
	Name     string   `json:"n,omitempty"`
	Cols     []string `json:"c"`
	Ref      string   `json:"r"`
	RefCols  []string `json:"rc"`
	OnDelete string   `json:"d,omitempty"`
	OnUpdate string   `json:"u,omitempty"`
	Match    string   `json:"m,omitempty"`
}

// Table is a table.
type Table struct {
	Name string   `json:"n"`
	Like string   `json:"like,omitempty"`
	Cols []Col    `json:"cols,omitempty"`
	Idx  []Idx    `json:"idx,omitempty"`
	FKs  []FK     `json:"fks,omitempty"`
	Opts []string `json:"opts,omitempty"`
	INE  bool     `json:"ine,omitempty"`
}

// Schema is a list of tables.
type Schema struct {
	Tables []Table `json:"tables"`
}

// Q quotes an identifier.
func Q(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

// SQL renders a column definition.
func (c Col) SQL() string {
	s := Q(c.Name) + " " + c.Type
	if c.Charset != "" {
		s += " CHARACTER SET " + c.Charset
	}
	if c.Collate != "" {
		s += " COLLATE " + c.Collate
	}
	if c.Null != "" {
		s += " " + c.Null
	}
	if c.Default != "" {
		s += " DEFAULT " + c.Default
	}
	if c.OnUpdate != "" {
		s += " ON UPDATE " + c.OnUpdate
	}
	if c.AutoInc {
		s += " AUTO_INCREMENT"
	}
	if c.Key != "" {
		s += " " + c.Key
	}
	if c.Comment != "" {
		s += " COMMENT " + c.Comment
	}
	return s
}

// SQL renders an index definition.
func (x Idx) SQL() string {
	s := x.Kind
	if x.Sym != "" {
		s = "CONSTRAINT " + Q(x.Sym) + " " + s
	}
	if x.Name != "" {
		s += " " + Q(x.Name)
	}
	s += " ("
	for i, c := range x.Cols {
		if i > 0 {
			s += ","
		}
		s += Q(c.Name)
		if c.Len > 0 {
			s += fmt.Sprintf("(%d)", c.Len)
		}
		if c.Dir != "" {
			s += " " + c.Dir
		}
	}
	s += ")"
	if x.Using != "" {
		s += " USING " + x.Using
	}
	if x.With != "" {
		s += " WITH PARSER " + x.With
	}
	return s
}

func qlist(l []string) string {
	var o []string
	for _, s := range l {
		o = append(o, Q(s))
	}
	return strings.Join(o, ",")
}

// SQL renders a foreign key definition.
func (f FK) SQL() string {
	s := ""
	if f.Symbol != "" {
		s = "CONSTRAINT " + Q(f.Symbol) + " "
	}
	s += "FOREIGN KEY "
	if f.Name != "" {
		s += Q(f.Name) + " "
	}
	s += "(" + qlist(f.Cols) + ") REFERENCES " + Q(f.Ref) + " (" + qlist(f.RefCols) + ")"
	if f.Match != "" {
		s += " MATCH " + f.Match
	}
	if f.OnDelete != "" {
		s += " ON DELETE " + f.OnDelete
	}
	if f.OnUpdate != "" {
		s += " ON UPDATE " + f.OnUpdate
	}
	return s
}

// SQL renders a CREATE TABLE statement without the semicolon.
func (t Table) SQL() string {
	ine := ""
	if t.INE {
		ine = "IF NOT EXISTS "
	}
	if t.Like != "" {
		return "CREATE TABLE " + ine + Q(t.Name) + " LIKE " + Q(t.Like)
	}
	var l []string
	for _, c := range t.Cols {
		l = append(l, "  "+c.SQL())
	}
	for _, x := range t.Idx {
		l = append(l, "  "+x.SQL())
	}
	for _, f := range t.FKs {
		l = append(l, "  "+f.SQL())
	}
	s := "CREATE TABLE " + ine + Q(t.Name) + " (\n" + strings.Join(l, ",\n") + "\n)"
	for _, o := range t.Opts {
		s += " " + o
	}
	return s
}

// SQL renders the schema.
func (s Schema) SQL() string {
	var b strings.Builder
	for i, t := range s.Tables {
		if i > 0 {
			b.WriteString("\n")
		}
		b.WriteString(t.SQL())
		b.WriteString(";\n")
	}
	return b.String()
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func chance(r *rand.Rand, n int) bool { return r.Intn(n) == 0 }

var names = []string{"id", "user", "name", "email", "age", "title", "body", "status", "created", "updated", "price", "qty", "ref", "parent", "kind", "flag", "lat", "lng", "note", "score"}

// Name makes a name.
func Name(r *rand.Rand, prefix string) string {
	n := prefix + names[r.Intn(len(names))]
	switch r.Intn(8) {
	case 0:
		n += fmt.Sprint(r.Intn(5))
	case 1:
		n = strings.ToUpper(n[:1]) + n[1:]
	case 2:
		n += "_x"
	}
	return n
}

// AnyCol makes a column of any supported type.
func AnyCol(r *rand.Rand, name string) Col {
	c := Col{Name: name}
	num := func(t string) string {
		if chance(r, 2) {
			t += fmt.Sprintf("(%d)", 1+r.Intn(20))
		}
		if chance(r, 3) {
			t += " UNSIGNED"
		}
		if chance(r, 8) {
			t += " ZEROFILL"
		}
		return t
	}
	if chance(r, 2) {
		c.Null = pick(r, "NULL", "NOT NULL", "NOT NULL")
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		c.Type = num(pick(r, "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT"))
		if chance(r, 3) {
			c.Default = pick(r, "0", "1", "'7'", "-1", "NULL")
		}
	case 3, 4:
		c.Type = fmt.Sprintf("%s(%d)", pick(r, "CHAR", "VARCHAR"), 1+r.Intn(255))
		if chance(r, 6) {
			c.Type += " BINARY"
		}
		if chance(r, 5) {
			c.Charset = pick(r, "utf8", "utf8mb4", "latin1")
		}
		if chance(r, 5) {
			c.Collate = pick(r, "utf8_bin", "utf8mb4_general_ci", "latin1_bin")
		}
		if chance(r, 3) {
			c.Default = pick(r, "''", "'a'", "'hello world'", "NULL", "'a;b'", "'it''s'", "'x(y)'", "\"dq\"")
		}
	case 5:
		c.Type = pick(r, "TEXT", "MEDIUMTEXT", "LONGTEXT", "TINYTEXT", "BLOB", "TINYBLOB", "MEDIUMBLOB", "LONGBLOB", "JSON", "GEOMETRY")
	case 6:
		c.Type = pick(r, "DECIMAL", "NUMERIC", "DECIMAL(10)", "DECIMAL(10,2)", "NUMERIC(5, 1)", "FLOAT", "DOUBLE", "REAL", "FLOAT(7,3)", "DOUBLE(9,4) UNSIGNED", "REAL(6,2)")
		if chance(r, 3) {
			c.Default = pick(r, "0", "1.5", "'0.00'", "-2.5e3", ".5")
		}
	case 7:
		c.Type = pick(r, "DATE", "TIME", "YEAR", "DATETIME", "TIMESTAMP", "DATETIME(6)", "TIMESTAMP(3)", "TIME(2)")
		if strings.HasPrefix(c.Type, "DATETIME") || strings.HasPrefix(c.Type, "TIMESTAMP") {
			if chance(r, 2) {
				c.Default = pick(r, "CURRENT_TIMESTAMP", "NOW()", "'2000-01-01 00:00:00'", "NULL")
			}
			if chance(r, 4) {
				c.OnUpdate = "CURRENT_TIMESTAMP"
			}
		}
	case 8:
		var v []string
		for i := 0; i <= r.Intn(5); i++ {
			v = append(v, pick(r, "'a'", "'b'", "'c d'", "'e''f'", "\"g\"", "'x,y'", "')'"))
		}
		c.Type = pick(r, "ENUM", "SET") + "(" + strings.Join(v, pick(r, ",", ", ", " , ")) + ")"
	case 9:
		c.Type = pick(r, "BOOL", "BOOLEAN")
		if chance(r, 2) {
			c.Default = pick(r, "TRUE", "FALSE", "true", "0", "1", "NULL")
		}
	case 10:
		c.Type = pick(r, "BIT", "BIT(8)", "BINARY(16)", "VARBINARY(64)", "BINARY")
	case 11:
		c.Type = num("INT")
		if chance(r, 2) {
			c.AutoInc = true
		}
		c.Key = pick(r, "", "PRIMARY KEY", "UNIQUE KEY", "UNIQUE", "KEY")
	}
	if chance(r, 6) {
		c.Comment = pick(r, "'c'", "'some comment'", "'it''s; tricky'", "''", "'multi\nline'", "'日本語'")
	}
	return c
}

// Any makes a schema using everything the parser supports.
func Any(r *rand.Rand, maxTables, maxCols int) Schema {
	var s Schema
	nt := 1 + r.Intn(maxTables)
	used := map[string]bool{}
	for i := 0; i < nt; i++ {
		n := Name(r, pick(r, "t_", "", "tbl", "T"))
		if used[n] {
			n = fmt.Sprintf("%s%d", n, i)
		}
		used[n] = true
		t := Table{Name: n, INE: chance(r, 6)}
		if chance(r, 12) && len(s.Tables) > 0 {
			t.Like = s.Tables[r.Intn(len(s.Tables))].Name
			s.Tables = append(s.Tables, t)
			continue
		}
		cu := map[string]bool{}
		for j := 0; j <= r.Intn(maxCols); j++ {
			cn := Name(r, "")
			if cu[cn] {
				cn = fmt.Sprintf("%s_%d", cn, j)
			}
			cu[cn] = true
			t.Cols = append(t.Cols, AnyCol(r, cn))
		}
		idxCols := func() (l []IdxCol) {
			for j := 0; j <= r.Intn(3); j++ {
				c := IdxCol{Name: t.Cols[r.Intn(len(t.Cols))].Name}
				if chance(r, 5) {
					c.Len = 1 + r.Intn(100)
				}
				if c.Len == 0 && chance(r, 6) || chance(r, 60) {
					c.Dir = pick(r, "ASC", "DESC")
				}
				l = append(l, c)
			}
			return
		}
		if chance(r, 3) {
			x := Idx{Kind: "PRIMARY KEY", Cols: idxCols(), Using: pick(r, "", "", "", "BTREE")}
			if chance(r, 6) {
				x.Sym = "pk_" + t.Name
			}
			t.Idx = append(t.Idx, x)
		}
		for j := r.Intn(4); j > 0; j-- {
			x := Idx{Kind: pick(r, "KEY", "INDEX", "UNIQUE KEY", "UNIQUE", "UNIQUE INDEX", "KEY", "FULLTEXT KEY", "FULLTEXT INDEX", "SPATIAL INDEX", "FULLTEXT"), Cols: idxCols()}
			if !chance(r, 6) {
				x.Name = fmt.Sprintf("idx_%s%d", names[r.Intn(len(names))], j)
			}
			if strings.HasPrefix(x.Kind, "FULL") {
				if chance(r, 3) {
					x.With = "ngram"
				}
			} else if !strings.HasPrefix(x.Kind, "SPA") && chance(r, 5) {
				x.Using = pick(r, "BTREE", "HASH")
			}
			if strings.HasPrefix(x.Kind, "UNIQUE") && chance(r, 5) {
				x.Sym = fmt.Sprintf("uq_%s%d", names[r.Intn(len(names))], j)
			}
			t.Idx = append(t.Idx, x)
		}
		for j := r.Intn(3); j > 0; j-- {
			f := FK{Cols: []string{t.Cols[r.Intn(len(t.Cols))].Name}, Ref: Name(r, "t_"), RefCols: []string{Name(r, "")}}
			if !chance(r, 3) {
				f.Symbol = fmt.Sprintf("fk_%s%d", names[r.Intn(len(names))], j)
			}
			if chance(r, 3) {
				f.Name = fmt.Sprintf("fkn_%d", j)
			}
			if chance(r, 5) {
				f.Match = pick(r, "FULL", "PARTIAL", "SIMPLE")
			}
			if chance(r, 3) {
				f.OnDelete = pick(r, "CASCADE", "SET NULL", "RESTRICT", "NO ACTION")
			}
			if chance(r, 3) {
				f.OnUpdate = pick(r, "CASCADE", "SET NULL", "RESTRICT", "NO ACTION")
			}
			t.FKs = append(t.FKs, f)
		}
		for j := r.Intn(4); j > 0; j-- {
			t.Opts = append(t.Opts, pick(r, "ENGINE=InnoDB", "ENGINE = MyISAM", "AUTO_INCREMENT=10", "DEFAULT CHARSET=utf8mb4", "DEFAULT CHARACTER SET utf8", "COLLATE=utf8_bin", "DEFAULT COLLATE utf8mb4_bin", "COMMENT='tbl; comment'", "ROW_FORMAT=DYNAMIC", "KEY_BLOCK_SIZE=8", "MAX_ROWS=100", "CHECKSUM=1", "CHARACTER SET = latin1", "STATS_PERSISTENT=DEFAULT", "PACK_KEYS=1", "AVG_ROW_LENGTH=10", "DATA DIRECTORY='/x'", "CONNECTION='c'", "DELAY_KEY_WRITE=1", "STATS_SAMPLE_PAGES=5"))
		}
		s.Tables = append(s.Tables, t)
	}
	return s
}

// Evolve derives a changed schema.
func Evolve(r *rand.Rand, s Schema) Schema {
	d := s.Clone()
	for n := 1 + r.Intn(6); n > 0; n-- {
		if len(d.Tables) == 0 {
			d.Tables = append(d.Tables, Any(r, 1, 5).Tables...)
			continue
		}
		i := r.Intn(len(d.Tables))
		t := &d.Tables[i]
		switch r.Intn(9) {
		case 0:
			d.Tables = append(d.Tables[:i], d.Tables[i+1:]...)
		case 1:
			x := Any(r, 1, 5).Tables[0]
			x.Name += fmt.Sprint("_n", n)
			j := r.Intn(len(d.Tables) + 1)
			d.Tables = append(d.Tables[:j], append([]Table{x}, d.Tables[j:]...)...)
		case 2, 3, 4:
			if t.Like == "" {
				j := r.Intn(len(t.Cols) + 1)
				for k := 1 + r.Intn(3); k > 0; k-- {
					t.Cols = append(t.Cols[:j], append([]Col{AnyCol(r, fmt.Sprintf("add%d_%d_%d", n, k, len(t.Cols)))}, t.Cols[j:]...)...)
				}
			}
		case 5:
			if len(t.Cols) > 1 {
				j := r.Intn(len(t.Cols))
				t.Cols = append(t.Cols[:j], t.Cols[j+1:]...)
			}
		case 6:
			if len(t.Cols) > 0 {
				j := r.Intn(len(t.Cols))
				t.Cols[j] = AnyCol(r, t.Cols[j].Name)
			}
		case 7:
			if len(t.Idx) > 0 {
				j := r.Intn(len(t.Idx))
				t.Idx = append(t.Idx[:j], t.Idx[j+1:]...)
			}
		case 8:
			if len(t.Cols) > 0 {
				t.Idx = append(t.Idx, Idx{Kind: pick(r, "KEY", "UNIQUE KEY"), Name: fmt.Sprintf("nidx%d", n), Cols: []IdxCol{{Name: t.Cols[r.Intn(len(t.Cols))].Name}}})
			}
		}
	}
	r.Shuffle(len(d.Tables), func(i, j int) {
		if chance(r, 3) {
			d.Tables[i], d.Tables[j] = d.Tables[j], d.Tables[i]
		}
	})
	return d
}

// Wide is a schema with more of something than any fixed limit or buffer is
// likely to allow for.
func Wide(r *rand.Rand) Schema {
	n := []int{9, 17, 33, 65, 101, 129, 257}[r.Intn(7)] + r.Intn(8)
	t := Table{Name: "wide", Cols: []Col{{Name: "id", Type: "INT", Null: "NOT NULL"}}}
	var s Schema
	switch r.Intn(7) {
	case 0:
		for i := 0; i < n; i++ {
			t.Cols = append(t.Cols, Col{Name: fmt.Sprintf("c%d", i), Type: pick(r, "INT", "TEXT", "BOOL", "CHAR(3)")})
		}
	case 1:
		for i := 0; i < n/2; i++ {
			t.Idx = append(t.Idx, Idx{Kind: pick(r, "KEY", "UNIQUE KEY"), Name: fmt.Sprintf("x%d", i), Cols: []IdxCol{{Name: "id"}}})
		}
	case 2:
		for i := 0; i < n/2; i++ {
			s.Tables = append(s.Tables, Table{Name: fmt.Sprintf("t%d", i), Cols: t.Cols})
		}
	case 3:
		var v []string
		for i := 0; i < 2*n; i++ {
			v = append(v, fmt.Sprintf("'v%d'", i))
		}
		t.Cols = append(t.Cols, Col{Name: "e", Type: pick(r, "ENUM", "SET") + "(" + strings.Join(v, ",") + ")"})
	case 4:
		l := strings.Repeat(pick(r, "x", "ü", "``", "a b"), 20*n)
		if chance(r, 2) {
			t.Name = l[:n/2*2]
		}
		t.Cols = append(t.Cols, Col{Name: strings.ToValidUTF8(l[:n/2*2], ""), Type: "INT", Comment: "'" + l + "'"})
	case 5:
		x := Idx{Kind: pick(r, "KEY", "PRIMARY KEY", "UNIQUE KEY"), Name: "x"}
		if x.Kind == "PRIMARY KEY" {
			x.Name = ""
		}
		for i := 0; i < n/2; i++ {
			t.Cols = append(t.Cols, Col{Name: fmt.Sprintf("c%d", i), Type: "INT", Null: "NOT NULL"})
			x.Cols = append(x.Cols, IdxCol{Name: fmt.Sprintf("c%d", i)})
		}
		t.Idx = append(t.Idx, x)
	case 6:
		for i := 0; i < n/3; i++ {
			t.FKs = append(t.FKs, FK{Symbol: fmt.Sprintf("fk%d", i), Cols: []string{"id"}, Ref: "other", RefCols: []string{"id"}})
		}
	}
	s.Tables = append(s.Tables, t)
	return s
}

// WideEvolve changes many things of a wide schema at once.
func WideEvolve(r *rand.Rand, s Schema) Schema {
	d := s.Clone()
	p := []int{1, 2, 2, 10}[r.Intn(4)] // one in p goes
	k := 0
	for i := range d.Tables {
		t := &d.Tables[i]
		if len(t.Cols) > 3 {
			var l []Col
			for j, c := range t.Cols {
				if j > 0 && chance(r, p) {
					c.Name = fmt.Sprintf("n%d", j)
					if chance(r, 2) {
						continue
					}
				}
				l = append(l, c)
			}
			t.Cols = l
		}
		if len(t.Idx) > 3 {
			var l []Idx
			for j, x := range t.Idx {
				if chance(r, p) {
					x.Name = fmt.Sprintf("n%d", j)
					if chance(r, 2) {
						continue
					}
				}
				l = append(l, x)
			}
			t.Idx = l
		}
		if len(t.FKs) > 3 && chance(r, 2) {
			t.FKs = t.FKs[:r.Intn(len(t.FKs))]
		}
		if len(d.Tables) > 3 && chance(r, p) {
			continue
		}
		d.Tables[k] = *t
		k++
	}
	if k > 0 {
		d.Tables = d.Tables[:k]
	}
	return d
}

// Clone copies a schema.
func (s Schema) Clone() Schema {
	var d Schema
	for _, t := range s.Tables {
		u := t
		u.Cols = append([]Col(nil), t.Cols...)
		u.Idx = nil
		for _, x := range t.Idx {
			x.Cols = append([]IdxCol(nil), x.Cols...)
			u.Idx = append(u.Idx, x)
		}
		u.FKs = append([]FK(nil), t.FKs...)
		u.Opts = append([]string(nil), t.Opts...)
		d.Tables = append(d.Tables, u)
	}
	return d
}

var comments = []string{"-- a comment\n", "# hash ; comment\n", "/* block ; comment */", "/* multi\nline */", "-- \n", "/*!40101 x */"}
var fillers = []string{"SET NAMES utf8;\n", "DROP TABLE IF EXISTS `zzz`;\n", "USE `db`;\n", "CREATE DATABASE foo;\n", "CREATE DATABASE IF NOT EXISTS `foo bar`;\n", ";\n", "SET @x = 'a;b';\n", "\n\n"}

// respace replaces the blanks outside of quotes and comments.
func respace(sql, by string) string {
	if strings.ContainsAny(sql, "#\\") || strings.Contains(sql, "--") || strings.Contains(sql, "/*") {
		return sql
	}
	var b strings.Builder
	q := byte(0)
	for i := 0; i < len(sql); i++ {
		switch c := sql[i]; {
		case q != 0:
			b.WriteByte(c)
			if c == q {
				q = 0
			}
		case c == ' ':
			b.WriteString(by)
		default:
			if c == '\'' || c == '"' || c == '`' {
				q = c
			}
			b.WriteByte(c)
		}
	}
	return b.String()
}

// Noisy spells SQL text differently: comments, white space, case of keywords,
// unquoted identifiers and statements that are skipped.
func Noisy(r *rand.Rand, sql string) string {
	var b strings.Builder
	inQ := byte(0)
	lvl := r.Intn(4)
	lower := chance(r, 3)
	mixed := chance(r, 5)
	for i := 0; i < len(sql); i++ {
		c := sql[i]
		if inQ != 0 {
			b.WriteByte(c)
			if c == inQ {
				inQ = 0
			}
			continue
		}
		switch c {
		case '\'', '"', '`':
			inQ = c
			b.WriteByte(c)
		case ' ', '\n':
			b.WriteByte(c)
			if lvl > 0 && chance(r, 12) {
				b.WriteString(pick(r, " ", "\n", "\t", "\r\n", "  "))
			}
			if lvl > 1 && chance(r, 20) {
				b.WriteString(comments[r.Intn(len(comments))])
			}
		case ';':
			b.WriteByte(c)
			if lvl > 0 && chance(r, 3) {
				b.WriteString(fillers[r.Intn(len(fillers))])
			}
		default:
			if (lower || mixed && r.Intn(2) == 0) && c >= 'A' && c <= 'Z' {
				c += 32
			}
			b.WriteByte(c)
		}
	}
	s := b.String()
	if chance(r, 10) {
		// other white space, or hardly any
		s = respace(s, pick(r, "\n", "\t", "\r", "/**/", " \n "))
	}
	if lvl > 1 && chance(r, 2) {
		s = fillers[r.Intn(len(fillers))] + s
	}
	if chance(r, 6) {
		s = strings.TrimRight(s, "; \n")
	}
	return s
}

var tokens = []string{"CREATE", "TABLE", "(", ")", ",", ";", "`", "'", "\"", "IF NOT EXISTS", "PRIMARY KEY", "KEY", "UNIQUE", "CONSTRAINT", "FOREIGN KEY", "REFERENCES", "INT", "VARCHAR(10)", "ENUM", "SET", "DROP", "USE", "LIKE", "DEFAULT", "NULL", "NOT", "ON UPDATE", "ON DELETE", "CURRENT_TIMESTAMP", "NOW(", "COMMENT", "'x'", "--", "-- ", "/*", "*/", "#", "\\", "\\'", "''", "1", "-1", "1e", "1.", ".", "+", "=", "\x00", "\xff", "\xc3", "é", "日", "USING BTREE", "WITH PARSER", "INDEX", "FULLTEXT", "SPATIAL", "CHECK", "MATCH FULL", "ENGINE=", "AUTO_INCREMENT", "UNSIGNED", "BINARY", "CHARACTER SET", "COLLATE", "TEMPORARY", "DATABASE", "CASCADE", "DECIMAL(1,", "\n", " ", "\t", "%s", "%!d", "TABLESPACE", "DATA DIRECTORY", "DESC", "ASC", "TRUE"}

// Damage breaks text in up to n places.
var numbers = []string{"1.", "-1", "+1", ".5", "1e", "1e-", "1e5", "1E+5", "-", "0", "00", "007", "0x1F", "1_000", "99999999999999999999999", "1.5", "-0", "1..2", "--1", "1-", "4294967296"}

func Damage(r *rand.Rand, s string, n int) string {
	b := []byte(s)
	for ; n > 0; n-- {
		if len(b) == 0 {
			b = []byte(tokens[r.Intn(len(tokens))])
		}
		i := r.Intn(len(b) + 1)
		j := i + r.Intn(20)
		if j > len(b) {
			j = len(b)
		}
		switch r.Intn(9) {
		case 8:
			// another number
			var l [][2]int
			for i := 0; i < len(b); i++ {
				j := i
				for j < len(b) && b[j] >= '0' && b[j] <= '9' {
					j++
				}
				if j > i {
					l = append(l, [2]int{i, j})
					i = j
				}
			}
			if len(l) > 0 {
				x := l[r.Intn(len(l))]
				b = append(append(append([]byte(nil), b[:x[0]]...), numbers[r.Intn(len(numbers))]...), b[x[1]:]...)
			}
		case 0:
			b = b[:i]
		case 1:
			b = append(append([]byte(nil), b[:i]...), b[j:]...)
		case 2, 3:
			t := tokens[r.Intn(len(tokens))]
			b = append(append(append([]byte(nil), b[:i]...), t...), b[i:]...)
		case 4:
			b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
		case 5:
			if i < len(b) {
				b[i] = byte(r.Intn(256))
			}
		case 6:
			t := tokens[r.Intn(len(tokens))]
			b = append(append(append([]byte(nil), b[:i]...), t...), b[j:]...)
		case 7:
			k := r.Intn(len(b) + 1)
			b = append(append([]byte(nil), b[k:]...), b[:k]...)
		}
	}
	return string(b)
}

var phrases = []string{"IF NOT", "IF", "IF NOT EXISTS", "IF EXISTS", "CONSTRAINT", "CONSTRAINT `x`", "CONSTRAINT UNIQUE", "CONSTRAINT PRIMARY", "MATCH", "MATCH FULL", "WITH", "WITH PARSER", "ON", "ON UPDATE", "ON DELETE", "ON DELETE SET", "ON UPDATE NO", "NOT", "NULL", "NOT NULL", "DEFAULT", "DEFAULT CHARACTER", "CHARACTER", "CHARACTER SET", "PRIMARY", "PRIMARY KEY", "KEY", "UNIQUE", "UNIQUE KEY", "FOREIGN", "FOREIGN KEY", "REFERENCES", "REFERENCES x", "USING", "USING BTREE", "COMMENT", "COMMENT 'x'", "LIKE", "CREATE", "CREATE TABLE", "TABLE", "TEMPORARY", "DATABASE", "DATA", "DATA DIRECTORY", "UNION", "UNION =", "TABLESPACE", "TABLESPACE a STORAGE", "STORAGE", "ENGINE", "=", "DROP", "USE", "SET", "(", ")", ",", ";", "1", "'v'", "`q`", "x", ".", "CURRENT_TIMESTAMP", "NOW()", "AUTO_INCREMENT", "COLLATE", "INDEX", "FULLTEXT", "SPATIAL", "CHECK", "ASC", "UNSIGNED", "ZEROFILL", "BINARY", "ENUM", "INT", "INT(", "DECIMAL(1,", "DECIMAL(1,2"}

// Lex splits SQL text into words, quoted strings, comments, white space and
// single characters.
func Lex(s string) (l []string) {
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			for j < len(s) && (s[j] == ' ' || s[j] == '\n' || s[j] == '\t' || s[j] == '\r') {
				j++
			}
		case c == '\'' || c == '"' || c == '`':
			for j < len(s) && s[j] != c {
				j++
			}
			if j < len(s) {
				j++
			}
		}
		l = append(l, s[i:j])
		i = j
	}
	return
}

// Misspell makes n changes to the tokens of a text: phrases of the grammar put
// where they do not belong, tokens dropped, doubled and exchanged. The result
// is then written with an arbitrary number of comments between the tokens.
func Misspell(r *rand.Rand, s string, n int) string {
	l := Lex(s)
	for ; n > 0 && len(l) > 0; n-- {
		i := r.Intn(len(l))
		switch r.Intn(8) {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			l = append(l[:i+1:i+1], append([]string{" ", l[i]}, l[i+1:]...)...)
		case 2:
			j := r.Intn(len(l))
			l[i], l[j] = l[j], l[i]
		case 3:
			l[i] = " " + phrases[r.Intn(len(phrases))] + " "
		default:
			l = append(l[:i:i], append([]string{" " + phrases[r.Intn(len(phrases))] + " "}, l[i:]...)...)
		}
	}
	if k := r.Intn(4); k > 0 {
		for i := range l {
			if strings.TrimSpace(l[i]) == "" && chance(r, []int{1, 3, 8, 30}[k]) {
				for j := 1 + r.Intn(2*k); j > 0; j-- {
					l[i] += pick(r, "/* x */", " ", "\n", "-- y\n", "# z\n", "/**/")
				}
			}
		}
	}
	return strings.Join(l, "")
}

// What MySQL knows and schemas contain, but the library may not.
var (
	exoticFields  = []string{"CHECK (`a` > 0)", "CHECK (f(`a`, ')') = 1)", "CONSTRAINT `c` CHECK (`a` IN (1,(2)))", "CONSTRAINT CHECK ((`a` > 0) AND (`b` < 1))", "KEY `k` ((lower(`a`)))", "KEY `k` (`a`) COMMENT 'x'", "KEY `k` (`a`) KEY_BLOCK_SIZE=8", "UNIQUE KEY (`a`) INVISIBLE", "INDEX ((`a` + `b`), `c` DESC)", "FULLTEXT KEY `f` (`a`) /*!50100 WITH PARSER `ngram` */", "FOREIGN KEY (a) REFERENCES b.c (d) ON DELETE SET DEFAULT", "FOREIGN KEY (`a`) REFERENCES `b` (`c`) MATCH FULL ON UPDATE CASCADE ON DELETE NO ACTION", "`v` INT GENERATED ALWAYS AS (`a` + 1) VIRTUAL", "`v` INT AS (concat(`a`,')')) STORED", "`p` POINT NOT NULL SRID 4326", "`f` FLOAT(7)", "`x` INT DEFAULT (1 + (2))", "`n` NATIONAL VARCHAR(10)", "`s` SERIAL", "`d` DOUBLE PRECISION", "`l` LONG VARCHAR", "`t` TIMESTAMP(6) NULL DEFAULT CURRENT_TIMESTAMP(6) ON UPDATE CURRENT_TIMESTAMP(6)", "`e` ENUM('a','b','c') CHARACTER SET utf8", "`e` SET('x'", "PERIOD FOR SYSTEM_TIME (`a`, `b`)", "LIKE `x`", "PRIMARY KEY (`a`(10) ASC, `b` DESC) USING BTREE"}
	exoticOptions = []string{"CHECK (`x` > 0)", "CHECK (`x` IN ('a',')')) NOT ENFORCED", "REFERENCES `t` (`a`) ON DELETE CASCADE", "GENERATED ALWAYS AS (`a`) STORED", "AS (1)", "COLUMN_FORMAT DYNAMIC", "STORAGE DISK", "VISIBLE", "DEFAULT (uuid())", "DEFAULT CURRENT_TIMESTAMP(6)", "DEFAULT NOW(3)", "DEFAULT b'0'", "DEFAULT X'00'", "DEFAULT 0x41", "DEFAULT -1.5e3", "DEFAULT _utf8'x'", "COMMENT \"x\"", "COLLATE utf8_bin", "ON UPDATE NOW()", "SERIAL DEFAULT VALUE", "CHARACTER SET latin1 BINARY", "NOT NULL NULL"}
	exoticTable   = []string{"PARTITION BY RANGE (`a`) (PARTITION p0 VALUES LESS THAN (10) ENGINE = InnoDB, PARTITION p1 VALUES LESS THAN MAXVALUE)", "/*!50100 PARTITION BY HASH (`a`) PARTITIONS 4 */", "PARTITION BY LIST (f(a)) SUBPARTITION BY KEY (b) (PARTITION p VALUES IN (1,(2)))", "UNION=(`a`,`b`)", "TABLESPACE ts STORAGE DISK", "AS SELECT 1", "IGNORE SELECT (1)", "ENCRYPTION='Y'", "COMPRESSION=\"zlib\"", "DEFAULT COLLATE = x", "DEFAULT CHARACTER SET = 'utf8'", "DATA DIRECTORY='/x' INDEX DIRECTORY = '/y'", "START TRANSACTION", "WITH SYSTEM VERSIONING", "PACK_KEYS=DEFAULT ROW_FORMAT=DYNAMIC"}
	exoticStmts   = []string{"CREATE TABLE x LIKE y;", "CREATE TABLE x (LIKE y);", "CREATE TABLE `d`.`t` (`a` INT);", "CREATE TEMPORARY TABLE t (a INT);", "CREATE TABLE TEMPORARY t (a INT);", "CREATE INDEX i ON t (a);", "ALTER TABLE t ADD CHECK (a);", "CREATE VIEW v AS SELECT (1);", "DELIMITER ;;", "CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN SET @a = 1; END;", "INSERT INTO t VALUES (1,'x;y'),(2,'\\'');", "LOCK TABLES `t` WRITE;", "UNLOCK TABLES;", "CREATE OR REPLACE TABLE t (a INT);", "/*!50003 CREATE PROCEDURE p() BEGIN END */;", "BEGIN;", "COMMIT;", "SET @a := (SELECT ';');", "DROP TABLE `a;b`, 'c';", "USE `x", "CREATE DATABASE d DEFAULT CHARACTER SET utf8;", "CREATE DATABASE /*!32312 IF NOT EXISTS*/ `d` /*!40100 DEFAULT CHARACTER SET utf8 */;", "CREATE SCHEMA s;"}
)

// Exotic puts things that the library may not know where they are allowed,
// and may then cut the text amid or after one of them.
func Exotic(r *rand.Rand, s string) string {
	cut := -1
	for n := 1 + r.Intn(2); n > 0; n-- {
		type place struct{ at, kind int }
		var l []place
		depth, pos := 0, 0
		for _, t := range Lex(s) {
			switch t {
			case "(":
				depth++
				if depth == 1 {
					l = append(l, place{pos + 1, 0})
				}
			case ")":
				if depth == 1 {
					l = append(l, place{pos, 1}, place{pos, 2}, place{pos + 1, 3})
				}
				depth--
			case ",":
				if depth == 1 {
					l = append(l, place{pos, 1}, place{pos + 1, 0})
				}
			case ";":
				if depth == 0 {
					l = append(l, place{pos, 3}, place{pos + 1, 4})
				}
			}
			pos += len(t)
		}
		if len(l) == 0 {
			return s
		}
		p := l[r.Intn(len(l))]
		var x string
		switch p.kind {
		case 0:
			x = " " + exoticFields[r.Intn(len(exoticFields))] + ","
		case 1:
			x = " " + exoticOptions[r.Intn(len(exoticOptions))]
		case 2:
			x = ", " + exoticFields[r.Intn(len(exoticFields))]
		case 3:
			x = " " + exoticTable[r.Intn(len(exoticTable))]
		case 4:
			x = "\n" + exoticStmts[r.Intn(len(exoticStmts))] + "\n"
		}
		s = s[:p.at] + x + s[p.at:]
		cut = p.at + r.Intn(len(x)+10)
	}
	switch r.Intn(5) {
	case 0, 1:
		if cut < len(s) {
			s = s[:cut]
		}
	case 2:
		s = Misspell(r, s, 1)
	case 3:
		s = Damage(r, s, 1)
	}
	return s
}

// Soup makes random token text.
func Soup(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(tokens[r.Intn(len(tokens))])
		if chance(r, 2) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// Text makes parser input: valid, noisy, damaged or random.
func Text(r *rand.Rand) (string, string) {
	max := []int{1, 2, 4, 8}[r.Intn(4)]
	s := Any(r, max, []int{2, 6, 15}[r.Intn(3)]).SQL()
	switch r.Intn(14) {
	case 11, 12, 13:
		return Exotic(r, s), "exotic"
	case 8, 9:
		return Misspell(r, s, 1), "misspelt"
	case 10:
		return Misspell(r, s, 1+r.Intn(4)), "misspelt"
	case 0, 1:
		return s, "valid"
	case 2, 3:
		return Noisy(r, s), "noisy"
	case 4:
		return Damage(r, s, 1), "damaged"
	case 5:
		return Damage(r, Noisy(r, s), 1+r.Intn(3)), "damaged"
	case 6:
		return Soup(r, 1+r.Intn(40)), "soup"
	}
	// the beginning of a valid text
	s = Noisy(r, s)
	return s[:r.Intn(len(s)+1)], "cut"
}

// ShrinkText proposes smaller texts.
func ShrinkText(s string) (l []string) {
	if s == "" {
		return nil
	}
	n := len(s)
	for _, k := range []int{n / 2, n / 4, n / 8, n / 16, 16, 4, 1} {
		if k <= 0 || k >= n {
			continue
		}
		for i := 0; i+k <= n && len(l) < 120; i += k {
			l = append(l, s[:i]+s[i+k:])
		}
	}
	return l
}

// ShrinkSchema proposes smaller schemas.
func ShrinkSchema(s Schema) (l []Schema) {
	for i := range s.Tables {
		d := s.Clone()
		d.Tables = append(d.Tables[:i], d.Tables[i+1:]...)
		l = append(l, d)
	}
	for i, t := range s.Tables {
		for j := range t.FKs {
			d := s.Clone()
			d.Tables[i].FKs = append(d.Tables[i].FKs[:j], d.Tables[i].FKs[j+1:]...)
			l = append(l, d)
		}
		for j := range t.Idx {
			d := s.Clone()
			d.Tables[i].Idx = append(d.Tables[i].Idx[:j], d.Tables[i].Idx[j+1:]...)
			l = append(l, d)
		}
		if len(t.Cols) > 1 {
			for j := range t.Cols {
				used := false
				for _, x := range t.Idx {
					for _, c := range x.Cols {
						used = used || c.Name == t.Cols[j].Name
					}
				}
				for _, f := range t.FKs {
					for _, c := range f.Cols {
						used = used || c == t.Cols[j].Name
					}
				}
				if used {
					continue
				}
				d := s.Clone()
				d.Tables[i].Cols = append(d.Tables[i].Cols[:j], d.Tables[i].Cols[j+1:]...)
				l = append(l, d)
			}
		}
		if len(t.Opts) > 0 {
			d := s.Clone()
			d.Tables[i].Opts = nil
			l = append(l, d)
		}
	}
	return l
}
