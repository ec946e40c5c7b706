//go:build go1.22

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/simgit"
	"github.com/schemalex/schemalex/verifsim/simk"
	"github.com/schemalex/schemalex/verifsim/simsql"
)

func init() {
	meta := func(rule string) core.Meta {
		return core.Meta{
			Rule:   rule,
			Real:   []string{"schemalex sources, parser, normalization, diff, format", "database/sql", "go-sql-driver/mysql"},
			Stub:   []string{"MySQL 5.7 data definition engine and wire protocol", "TCP (in-memory)", "files, git", "goroutine scheduler decisions", "clock and timers"},
			Assume: []string{"the simulated server's rendering of definitions and its checks are MySQL 5.7's with explicit_defaults_for_timestamp=ON"},
		}
	}
	core.Register("C11", migrate{})
	core.Describe("C11", meta("A simulated MySQL server holds a drawn schema; the target is an edited one, given as a hand-written file, a git revision or another live server. The diff is computed over the simulated network and applied statement by statement; the server must accept each, end with the target's tables, columns (definition and position) and indexes, having kept the identity of every table and column that is in both, and a second diff must be empty."))
	core.Register("C12", resume{})
	core.Describe("C12", meta("As C11, but the first rounds are disturbed: the fetch fails, the operator crashes after k statements, the server fails statement k or loses the session with the statement done or not done, two operators migrate at the same time, or the target is changed back. After the disturbance one undisturbed round must reach the target, keeping the identity of all tables and columns in both schemas, and the next diff must be empty."))
}

// ---- workload ---------------------------------------------------------------

// mCol is a column: alternatives of each part mean the same to MySQL.
type mCol struct {
	N    string `json:"n"`
	Typ  int    `json:"t"`           // index into mTypes
	Nul  int    `json:"nul"`         // 0 nullable, 1 NOT NULL, 2 default, 3 NOT NULL and default
	Def  int    `json:"d,omitempty"` // which default
	Auto bool   `json:"auto,omitempty"`
	Cmt  int    `json:"c,omitempty"`
	OnU  bool   `json:"onu,omitempty"`
}

type mKey struct {
	Kind string   `json:"k"` // PRIMARY, UNIQUE, KEY, FULLTEXT
	N    string   `json:"n,omitempty"`
	Cols []string `json:"cols"`
	BT   bool     `json:"btree,omitempty"`
	Hash bool     `json:"hash,omitempty"`
}

type mFK struct {
	N    string `json:"n"`
	Col  string `json:"col"`
	Ref  string `json:"ref"`
	RefC string `json:"refc,omitempty"` // a unique column, or the key when empty
	Col2 string `json:"col2,omitempty"` // of two columns
	Ref2 string `json:"refc2,omitempty"`
	OnD  int    `json:"ond,omitempty"`
	OnU  int    `json:"onu,omitempty"`
	Expl bool   `json:"explicit_index,omitempty"`
}

type mTable struct {
	N    string `json:"n"`
	Cols []mCol `json:"cols"`
	Keys []mKey `json:"keys,omitempty"`
	FKs  []mFK  `json:"fks,omitempty"`
	Opt  int    `json:"opt,omitempty"`
	Like string `json:"like,omitempty"`
}

type mType struct {
	spell []string
	kind  byte     // i int, d decimal, f float, s string, t text/blob without default, T datetime, M timestamp, D date, e enum, S set, x nothing, b bool, y binary
	defs  []string // canonical defaults; spelled with or without quotes when numeric
}

var mTypes = []mType{
	{[]string{"INT", "INT(11)", "INTEGER", "int", "int(11)", "INT (11)"}, 'i', []string{"0", "5", "-1"}},
	{[]string{"INT UNSIGNED", "INT(10) UNSIGNED", "INTEGER UNSIGNED", "int(10) unsigned"}, 'i', []string{"0", "7"}},
	{[]string{"TINYINT", "TINYINT(4)"}, 'i', []string{"0", "1"}},
	{[]string{"TINYINT UNSIGNED", "TINYINT(3) UNSIGNED"}, 'i', []string{"0", "1"}},
	{[]string{"BOOL", "BOOLEAN", "TINYINT(1)", "bool"}, 'b', []string{"0", "1"}},
	{[]string{"SMALLINT", "SMALLINT(6)"}, 'i', []string{"0"}},
	{[]string{"SMALLINT UNSIGNED", "SMALLINT(5) UNSIGNED"}, 'i', []string{"0"}},
	{[]string{"MEDIUMINT", "MEDIUMINT(9)"}, 'i', []string{"0"}},
	{[]string{"MEDIUMINT UNSIGNED", "MEDIUMINT(8) UNSIGNED"}, 'i', []string{"0"}},
	{[]string{"BIGINT", "BIGINT(20)"}, 'i', []string{"0", "-9"}},
	{[]string{"BIGINT UNSIGNED", "BIGINT(20) UNSIGNED"}, 'i', []string{"0", "18446744073709551615"}},
	{[]string{"INT(5)", "INTEGER(5)"}, 'i', []string{"3"}},
	{[]string{"INT(8) UNSIGNED ZEROFILL", "INT(8) ZEROFILL"}, 'i', nil},
	{[]string{"INT UNSIGNED ZEROFILL", "INT ZEROFILL", "INT(10) ZEROFILL"}, 'i', nil},
	{[]string{"DECIMAL", "DECIMAL(10,0)", "NUMERIC", "NUMERIC(10, 0)", "DECIMAL(10)", "NUMERIC(10)"}, 'd', []string{"0", "12"}},
	{[]string{"DECIMAL(12,3)", "NUMERIC(12,3)", "DECIMAL(12, 3)"}, 'd', []string{"0.000", "1.500"}},
	{[]string{"DECIMAL(6,2) UNSIGNED", "NUMERIC(6,2) UNSIGNED"}, 'd', []string{"0.00"}},
	{[]string{"DOUBLE", "REAL"}, 'f', []string{"0", "1.5"}},
	{[]string{"DOUBLE(7,3)", "REAL(7,3)"}, 'f', []string{"0.000"}},
	{[]string{"FLOAT"}, 'f', []string{"0"}},
	{[]string{"FLOAT(5,2)"}, 'f', []string{"2.50"}},
	{[]string{"DATE"}, 'D', []string{"2000-01-01"}},
	{[]string{"TIME"}, 'D', []string{"12:00:00"}},
	{[]string{"DATETIME"}, 'T', []string{"2000-01-01 00:00:00", "CURRENT_TIMESTAMP"}},
	{[]string{"DATETIME(6)"}, 'D', []string{"2000-01-01 00:00:00.000000"}},
	{[]string{"TIMESTAMP"}, 'T', []string{"2000-01-01 00:00:00", "CURRENT_TIMESTAMP"}},
	{[]string{"CHAR(3)"}, 's', []string{"abc", "ABC", ""}},
	{[]string{"CHAR(1)", "CHAR"}, 's', []string{"a", "A"}},
	{[]string{"VARCHAR(20)"}, 's', []string{"", "it's", "a\"b", "x;y", "`q`", "-- no", "日本", "CURRENT_TIMESTAMP", "NULL", "null"}},
	{[]string{"VARCHAR(255)"}, 's', []string{"hoge", "Hoge", "a,b", " a,b", "a, b", "(", "/* c */", "back\\slash", "end\\", "a\nb"}},
	{[]string{"VARCHAR(40) CHARACTER SET latin1"}, 's', []string{"l"}},
	{[]string{"VARCHAR(40) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin", "VARCHAR(40) CHARACTER SET `utf8mb4` COLLATE `utf8mb4_bin`"}, 's', []string{"b"}},
	{[]string{"BINARY(16)"}, 'y', nil},
	{[]string{"BINARY(1)", "BINARY"}, 'y', nil},
	{[]string{"VARBINARY(32)"}, 'y', []string{"v"}},
	{[]string{"BIT(1)", "BIT"}, 'x', nil},
	{[]string{"BIT(7)"}, 'x', nil},
	{[]string{"TINYTEXT"}, 't', nil},
	{[]string{"TEXT"}, 't', nil},
	{[]string{"MEDIUMTEXT"}, 't', nil},
	{[]string{"LONGTEXT"}, 't', nil},
	{[]string{"TINYBLOB"}, 'B', nil},
	{[]string{"BLOB"}, 'B', nil},
	{[]string{"MEDIUMBLOB"}, 'B', nil},
	{[]string{"LONGBLOB"}, 'B', nil},
	{[]string{"ENUM('a','b')", "ENUM ( 'a' , 'b' )", "enum(\"a\",\"b\")"}, 'e', []string{"a", "b"}},
	{[]string{"ENUM('a','b','it''s')", "ENUM('a','b','it\\'s')", "ENUM('a','b',\"it's\")"}, 'e', []string{"a", "it's"}},
	{[]string{"ENUM('A','b')"}, 'e', []string{"A", "b"}},
	{[]string{"ENUM('b','a')"}, 'e', []string{"a", "b"}},
	{[]string{"ENUM('a ,b','c')"}, 'e', []string{"c"}},
	{[]string{"ENUM('a',' b','c')"}, 'e', []string{"c"}},
	{[]string{"SET('x','y')"}, 'S', []string{"x", "x,y"}},
	{[]string{"SET('x','y','Z')"}, 'S', []string{"x", "x,y"}},
	{[]string{"SET('x','y','z')"}, 'S', []string{"x", "x,y"}},
	{[]string{"JSON"}, 'x', nil},
	{[]string{"GEOMETRY"}, 'x', nil},
	{[]string{"YEAR", "YEAR(4)"}, 'D', []string{"2000"}},
	{[]string{"TIME(3)"}, 'D', []string{"12:00:00.000"}},
	{[]string{"FLOAT UNSIGNED"}, 'f', []string{"0"}},
	{[]string{"DOUBLE UNSIGNED", "REAL UNSIGNED"}, 'f', []string{"0"}},
	{[]string{"DECIMAL UNSIGNED", "DECIMAL(10) UNSIGNED", "NUMERIC(10,0) UNSIGNED"}, 'd', []string{"3"}},
	{[]string{"DECIMAL(5) ZEROFILL", "DECIMAL(5,0) UNSIGNED ZEROFILL"}, 'd', nil},
	{[]string{"DOUBLE(9,2) ZEROFILL", "REAL(9,2) UNSIGNED ZEROFILL"}, 'f', nil},
	{[]string{"TINYINT(2) UNSIGNED ZEROFILL", "TINYINT(2) ZEROFILL"}, 'i', nil},
	{[]string{"ENUM('a','b') CHARACTER SET latin1"}, 'e', []string{"b"}},
	{[]string{"SET('x','y') CHARACTER SET latin1"}, 'S', []string{"y"}},
	{[]string{"ENUM('a','A') CHARACTER SET latin1 COLLATE latin1_bin", "enum('a', 'A') CHARACTER SET latin1 COLLATE latin1_bin"}, 'e', []string{"a", "A"}},
	{[]string{"SET('x','X','y') CHARACTER SET utf8mb4 COLLATE utf8mb4_bin"}, 'S', []string{"X", "x,X"}},
	{[]string{"TEXT CHARACTER SET latin1"}, 't', nil},
	{[]string{"CHAR(2) CHARACTER SET latin1 COLLATE latin1_bin"}, 's', []string{"l"}},
}

// plain types for columns of foreign keys
const fkType = 1

var mComments = []string{"", "plain", "Plain", "plain  x", "plain x", "user's name", "a \"quoted\" word", "semi; colon", "`tick`", "back\\slash", "ends with \\", "two\nlines", "-- dash", "/* c */", "日本語", "100%", "it''s"}

// lit spells a string literal.
func lit(r *rand.Rand, s string) string {
	esc := strings.NewReplacer("\\", "\\\\", "\n", "\\n").Replace(s)
	if r != nil && r.Intn(3) == 0 && !strings.Contains(s, "'") {
		return "'" + esc + "'"
	}
	if r != nil && r.Intn(3) == 0 {
		return "'" + strings.ReplaceAll(esc, "'", "\\'") + "'"
	}
	return "'" + strings.ReplaceAll(esc, "'", "''") + "'"
}

func qn(r *rand.Rand, n string) string {
	plain := true
	for _, c := range n {
		plain = plain && (c == '_' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9')
	}
	if plain && strings.Contains(n, "_") && r != nil && r.Intn(4) == 0 {
		return n
	}
	return "`" + strings.ReplaceAll(n, "`", "``") + "`"
}

var mGroups = map[byte]byte{'i': 'n', 'b': 'n', 'd': 'n', 'f': 'n', 's': 's', 't': 's', 'y': 'y', 'B': 'y', 'T': 'T', 'D': 'T', 'M': 'T', 'e': 's', 'S': 's'}

// near picks a type that is related to another.
func near(r *rand.Rand, typ int) int {
	for try := 0; try < 40; try++ {
		n := r.Intn(len(mTypes))
		if try < 20 && mTypes[n].kind != mTypes[typ].kind {
			continue
		}
		if n != typ && mGroups[mTypes[n].kind] == mGroups[mTypes[typ].kind] {
			return n
		}
	}
	return typ
}

func kw(r *rand.Rand, s string) string {
	if r.Intn(3) == 0 {
		return strings.ToLower(s)
	}
	return s
}

func (c *mCol) sql(r *rand.Rand, inline string) string {
	t := mTypes[c.Typ]
	s := qn(r, c.N) + " " + t.spell[r.Intn(len(t.spell))]
	def := ""
	if c.Nul >= 2 && len(t.defs) > 0 {
		v := t.defs[c.Def%len(t.defs)]
		switch {
		case v == "CURRENT_TIMESTAMP" && t.kind == 'T':
			def = v
		case t.kind == 'b' && r.Intn(2) == 0:
			def = map[string]string{"0": "FALSE", "1": "TRUE"}[v]
		case strings.IndexByte("idfb", t.kind) >= 0 && r.Intn(2) == 0:
			def = v
		default:
			def = lit(r, v)
		}
	}
	pos := []string{}
	switch {
	case c.Nul == 1 || c.Nul == 3:
		pos = append(pos, "NOT NULL")
	case def == "":
		switch k := r.Intn(4); {
		case k == 0:
			pos = append(pos, "NULL")
		case k == 1:
			pos = append(pos, "DEFAULT NULL")
		case k == 2 && t.kind != 't' && t.kind != 'B':
			pos = append(pos, "NULL", "DEFAULT NULL")
		}
	default:
		if r.Intn(3) == 0 {
			pos = append(pos, "NULL")
		}
	}
	if def != "" {
		pos = append(pos, "DEFAULT "+def)
	}
	if c.OnU && t.kind == 'T' {
		pos = append(pos, "ON UPDATE CURRENT_TIMESTAMP")
	}
	if c.Auto {
		pos = append(pos, "AUTO_INCREMENT")
	}
	if inline != "" {
		pos = append(pos, inline)
	}
	if c := mComments[c.Cmt]; c != "" {
		pos = append(pos, "COMMENT "+lit(r, c))
	}
	for _, x := range pos {
		if strings.HasPrefix(x, "COMMENT") || strings.HasPrefix(x, "DEFAULT '") {
			s += " " + x
		} else {
			s += " " + kw(r, x)
		}
	}
	return s
}

var refOpts = []string{"", "CASCADE", "SET NULL", "NO ACTION", "RESTRICT"}

func (k *mKey) sql(r *rand.Rand, t *mTable) string {
	name := ""
	if k.N != "" {
		name = qn(r, k.N)
	}
	var l []string
	for _, n := range k.Cols {
		x := qn(r, n)
		for _, c := range t.Cols {
			if c.N == n && strings.IndexByte("tB", mTypes[c.Typ].kind) >= 0 && k.Kind != "FULLTEXT" {
				x += "(10)"
			}
		}
		if r.Intn(6) == 0 && !strings.HasSuffix(x, ")") {
			x += []string{" ASC", " DESC"}[r.Intn(2)]
		}
		l = append(l, x)
	}
	cols := "(" + strings.Join(l, []string{",", ", "}[r.Intn(2)]) + ")"
	bt := ""
	if k.BT {
		bt = " USING BTREE"
	} else if k.Hash {
		bt = " USING HASH"
	}
	s := ""
	switch k.Kind {
	case "PRIMARY":
		s = "PRIMARY KEY"
	case "UNIQUE":
		s = []string{"UNIQUE KEY ", "UNIQUE INDEX ", "UNIQUE "}[r.Intn(3)] + name
	case "SPATIAL":
		s = []string{"SPATIAL KEY ", "SPATIAL INDEX ", "SPATIAL "}[r.Intn(3)] + name
	case "FULLTEXT":
		s = []string{"FULLTEXT KEY ", "FULLTEXT INDEX ", "FULLTEXT "}[r.Intn(3)] + name
	default:
		s = []string{"KEY ", "INDEX "}[r.Intn(2)] + name
	}
	if r.Intn(2) == 0 {
		return s + bt + " " + cols
	}
	return s + " " + cols + bt
}

var mOpts = []string{" ENGINE=InnoDB DEFAULT CHARSET=utf8mb4", " ENGINE=InnoDB DEFAULT CHARSET=utf8", " ENGINE = InnoDB, DEFAULT CHARACTER SET = utf8mb4, COMMENT = 'the table''s'", " DEFAULT CHARSET=utf8mb4 ROW_FORMAT=DYNAMIC", " ENGINE=InnoDB AUTO_INCREMENT=19 DEFAULT CHARSET=utf8mb4",
	" DELAY_KEY_WRITE=1 CHARACTER SET utf8", " ENGINE=InnoDB CHARSET=utf8mb4 MIN_ROWS=1 MAX_ROWS=1000 AVG_ROW_LENGTH=10", " DEFAULT CHARSET utf8 PACK_KEYS=1, CHECKSUM 1", " DEFAULT CHARACTER SET = utf8mb4 PACK_KEYS=DEFAULT STATS_PERSISTENT=DEFAULT STATS_AUTO_RECALC=1",
	" STATS_SAMPLE_PAGES = 5 DEFAULT CHARSET=utf8mb4 KEY_BLOCK_SIZE=8 ROW_FORMAT=COMPRESSED", " DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_general_ci CONNECTION='c''x'", " CHARACTER SET utf8 PASSWORD='p'", " DEFAULT CHARSET=utf8 DATA DIRECTORY='/d' INDEX DIRECTORY \"/i\" STATS_PERSISTENT=0"}

func (t *mTable) sql(r *rand.Rand) string {
	create := kw(r, "CREATE TABLE ")
	if r.Intn(8) == 0 {
		create += "IF NOT EXISTS "
	}
	if t.Like != "" {
		return create + qn(r, t.N) + " LIKE " + qn(r, t.Like) + ";"
	}
	var l []string
	inl := map[string]string{}
	skip := map[int]bool{}
	for i, k := range t.Keys {
		if len(k.Cols) != 1 || k.BT || k.Hash || r.Intn(3) > 0 {
			continue
		}
		switch {
		case k.Kind == "PRIMARY" && inl[k.Cols[0]] == "":
			inl[k.Cols[0]] = []string{"PRIMARY KEY", "PRIMARY KEY", "KEY"}[r.Intn(3)]
			skip[i] = true
		case k.Kind == "UNIQUE" && k.N == k.Cols[0] && inl[k.Cols[0]] == "":
			ok := true
			for _, c := range t.Cols {
				ok = ok && !(c.N == k.N && strings.IndexByte("tB", mTypes[c.Typ].kind) >= 0)
			}
			if ok {
				inl[k.Cols[0]] = []string{"UNIQUE KEY", "UNIQUE"}[r.Intn(2)]
				skip[i] = true
			}
		}
	}
	for _, c := range t.Cols {
		l = append(l, c.sql(r, inl[c.N]))
	}
	ncol := len(l)
	for i, k := range t.Keys {
		if !skip[i] {
			l = append(l, k.sql(r, t))
		}
	}
	for _, f := range t.FKs {
		if f.Expl {
			l = append(l, "KEY "+qn(r, f.N)+" ("+f.two(r, f.Col, f.Col2)+")")
		}
	}
	for _, f := range t.FKs {
		s := "CONSTRAINT " + qn(r, f.N) + " FOREIGN KEY (" + f.two(r, f.Col, f.Col2) + ") REFERENCES " + qn(r, f.Ref) + " (" + f.two(r, f.refc(), f.Ref2) + ")"
		if f.OnD == 0 && f.OnU == 0 && r.Intn(4) == 0 {
			s += " MATCH SIMPLE"
		}
		if o := refOpts[f.OnD]; o != "" {
			s += " ON DELETE " + o
		}
		if o := refOpts[f.OnU]; o != "" {
			s += " ON UPDATE " + o
		}
		l = append(l, s)
	}
	if x := l[ncol:]; len(x) > 1 && r.Intn(3) == 0 {
		r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
	}
	sep := []string{",\n  ", ", ", ",\n\t-- a comment\n\t"}[r.Intn(3)]
	return create + qn(r, t.N) + " (" + strings.Join(l, sep) + "\n)" + mOpts[t.Opt] + ";"
}

type mSchema struct{ T []*mTable }

func (s *mSchema) clone() *mSchema {
	b, _ := json.Marshal(s)
	var n mSchema
	json.Unmarshal(b, &n)
	return &n
}

func (s *mSchema) sql(r *rand.Rand) string {
	var b strings.Builder
	extra := r.Intn(3) == 0 // what dumps have besides tables
	if extra {
		b.WriteString([]string{"-- dump\n/*!40101 SET character_set_client = utf8 */;\n", "SET NAMES utf8mb4;\nSET FOREIGN_KEY_CHECKS = 0;\n", "CREATE DATABASE IF NOT EXISTS `db`;\nUSE `db`;\n"}[r.Intn(3)])
	}
	for _, t := range s.T {
		if extra && r.Intn(2) == 0 {
			b.WriteString("DROP TABLE IF EXISTS " + qn(r, t.N) + ";\n")
		}
		b.WriteString(t.sql(r))
		b.WriteString([]string{"\n", "\n\n", "\n-- next\n"}[r.Intn(3)])
	}
	return b.String()
}

type mGen struct {
	r    *rand.Rand
	n    int
	fk   int
	txn  bool
	size int
	bare bool // keys without names and tables like others
	was  *mSchema
}

func (g *mGen) name() string {
	g.n++
	base := []string{"id", "user", "created_at", "name", "order", "Key", "a_b", "qty", "title", "body", "state", "select"}[g.r.Intn(12)]
	if g.r.Intn(25) == 0 {
		base = []string{"日本", "with space", "tick`s", "dot.ted", "semi;x", "UPPER", "quo'te", "da-sh"}[g.r.Intn(8)]
	}
	return fmt.Sprintf("%s%d", base, g.n)
}

func (g *mGen) col(n string) mCol {
	c := mCol{N: n, Typ: g.r.Intn(len(mTypes)), Nul: g.r.Intn(4), Def: g.r.Intn(9)}
	if g.r.Intn(4) == 0 {
		c.Cmt = g.r.Intn(len(mComments))
	}
	c.OnU = g.r.Intn(3) == 0
	return c
}

func (g *mGen) keyed(t *mTable) map[string]bool {
	m := map[string]bool{}
	for _, k := range t.Keys {
		for _, c := range k.Cols {
			m[c] = true
		}
	}
	for _, f := range t.FKs {
		m[f.Col], m[f.Col2] = true, true
	}
	return m
}

func (g *mGen) key(t *mTable) (mKey, bool) {
	var can []mCol
	ft := false
	for _, c := range t.Cols {
		t := mTypes[c.Typ]
		if t.spell[0] == "GEOMETRY" && c.Nul == 1 && g.r.Intn(2) == 0 {
			g.n++
			return mKey{Kind: "SPATIAL", N: fmt.Sprintf("geo%d", g.n), Cols: []string{c.N}}, true
		}
		if c.Auto || t.spell[0] == "JSON" || t.spell[0] == "GEOMETRY" {
			continue
		}
		can = append(can, c)
		ft = ft || t.kind == 't' || t.kind == 's'
	}
	for _, f := range t.FKs {
		for i := 0; i < len(can); i++ {
			if can[i].N == f.Col || can[i].N == f.Col2 {
				can = append(can[:i:i], can[i+1:]...)
				i--
			}
		}
	}
	if len(can) == 0 {
		return mKey{}, false
	}
	k := mKey{Kind: []string{"KEY", "KEY", "UNIQUE", "UNIQUE", "FULLTEXT"}[g.r.Intn(5)], BT: g.r.Intn(6) == 0}
	if k.Kind == "FULLTEXT" {
		k.BT = false
		var l []mCol
		for _, c := range can {
			if kd := mTypes[c.Typ].kind; (kd == 't' || kd == 's') && !strings.Contains(mTypes[c.Typ].spell[0], "CHARACTER SET") {
				l = append(l, c)
			}
		}
		if len(l) == 0 {
			return mKey{}, false
		}
		k.Cols = []string{l[g.r.Intn(len(l))].N}
	} else {
		g.r.Shuffle(len(can), func(i, j int) { can[i], can[j] = can[j], can[i] })
		for _, c := range can[:1+g.r.Intn(min(3, len(can)))] {
			k.Cols = append(k.Cols, c.N)
		}
	}
	if g.bare && g.r.Intn(2) == 0 && k.Cols[0] != "id" {
		free := true // the server will name it after its first column
		for _, o := range t.Keys {
			free = free && !(o.N == "" && o.Kind != "PRIMARY" && o.Cols[0] == k.Cols[0]) && !strings.EqualFold(o.N, k.Cols[0])
		}
		if free {
			return k, true
		}
	}
	g.n++
	k.N = fmt.Sprintf("%s%d", []string{"idx_", "k_", "Index"}[g.r.Intn(3)], g.n)
	if k.Kind == "UNIQUE" && len(k.Cols) == 1 && g.r.Intn(2) == 0 {
		ok := true
		for _, o := range t.Keys {
			ok = ok && !strings.EqualFold(o.N, k.Cols[0]) && !(o.N == "" && o.Cols[0] == k.Cols[0])
		}
		if ok {
			k.N = k.Cols[0]
		}
	}
	k.Hash = !k.BT && k.Kind != "FULLTEXT" && g.r.Intn(8) == 0
	return k, true
}

func (g *mGen) table() *mTable {
	t := &mTable{N: g.name(), Opt: g.r.Intn(len(mOpts))}
	switch g.r.Intn(4) {
	case 0, 1: // a parent
		t.Cols = append(t.Cols, mCol{N: "id", Typ: fkType, Nul: 1, Auto: g.r.Intn(2) == 0})
		if g.r.Intn(3) == 0 {
			t.Cols[0].Cmt = g.r.Intn(len(mComments))
		}
		t.Keys = append(t.Keys, mKey{Kind: "PRIMARY", Cols: []string{"id"}, BT: g.r.Intn(8) == 0})
	case 2: // a composite key
		for i := 0; i < 2; i++ {
			t.Cols = append(t.Cols, mCol{N: g.name(), Typ: []int{0, 9, 28}[g.r.Intn(3)], Nul: 1})
		}
		t.Keys = append(t.Keys, mKey{Kind: "PRIMARY", Cols: []string{t.Cols[0].N, t.Cols[1].N}})
	}
	for n := g.r.Intn(1 + g.size); n > 0; n-- {
		t.Cols = append(t.Cols, g.col(g.name()))
	}
	if len(t.Cols) == 0 {
		t.Cols = append(t.Cols, g.col(g.name()))
	}
	for n := g.r.Intn(3); n > 0; n-- {
		if k, ok := g.key(t); ok {
			t.Keys = append(t.Keys, k)
		}
	}
	return t
}

func (t *mTable) parent() bool { return t.Like == "" && t.Cols[0].N == "id" && t.Cols[0].Typ == fkType }

func (f *mFK) refc() string {
	if f.RefC != "" {
		return f.RefC
	}
	return "id"
}

func (f *mFK) two(r *rand.Rand, a, b string) string {
	if f.Col2 == "" {
		return qn(r, a)
	}
	return qn(r, a) + []string{",", ", "}[r.Intn(2)] + qn(r, b)
}

// pairKey is a primary key of two columns that foreign keys may refer to.
func (t *mTable) pairKey() (a, b mCol, ok bool) {
	if t.Like != "" || len(t.Keys) == 0 || t.Keys[0].Kind != "PRIMARY" || len(t.Keys[0].Cols) != 2 {
		return
	}
	n := 0
	for _, c := range t.Cols {
		for i, k := range t.Keys[0].Cols {
			if c.N == k && !c.Auto {
				n++
				if i == 0 {
					a = c
				} else {
					b = c
				}
			}
		}
	}
	return a, b, n == 2
}

// samePair tells whether what a foreign key of two columns refers to is the
// same before and after.
func samePair(a, b *mTable) bool {
	if a == nil || b == nil {
		return true
	}
	a0, a1, ok1 := a.pairKey()
	b0, b1, ok2 := b.pairKey()
	return ok1 && ok2 && a0 == b0 && a1 == b1 && a.Keys[0].BT == b.Keys[0].BT
}

// uniques are the unique columns that foreign keys may refer to.
func (t *mTable) uniques() (l []string) {
	for _, k := range t.Keys {
		if k.Kind == "UNIQUE" && len(k.Cols) == 1 && strings.HasPrefix(k.Cols[0], "ref_col") {
			l = append(l, k.Cols[0])
		}
	}
	return
}

func (g *mGen) addFK(s *mSchema, t *mTable, also *mSchema) {
	if p := s.T[g.r.Intn(len(s.T))]; g.r.Intn(2) == 0 && (also == nil || also.find(p.N) != nil) && p != t {
		if x, y, ok := p.pairKey(); ok && (g.was == nil || samePair(g.was.find(p.N), p)) {
			g.fk++
			f := mFK{N: fmt.Sprintf("fk%d_two", g.fk), Col: fmt.Sprintf("fk_col%da", g.fk), Col2: fmt.Sprintf("fk_col%db", g.fk), Ref: p.N, RefC: x.N, Ref2: y.N, OnD: []int{0, 1, 3, 4}[g.r.Intn(4)], OnU: []int{0, 1, 3, 4}[g.r.Intn(4)], Expl: g.r.Intn(3) == 0}
			t.Cols = append(t.Cols, mCol{N: f.Col, Typ: x.Typ, Nul: g.r.Intn(2)}, mCol{N: f.Col2, Typ: y.Typ, Nul: g.r.Intn(2)})
			t.FKs = append(t.FKs, f)
			return
		}
	}
	var ps []string
	for _, p := range s.T {
		if p.parent() && (also == nil || also.find(p.N) != nil) {
			ps = append(ps, p.N)
		}
	}
	refc := ""
	if p := s.T[g.r.Intn(len(s.T))]; g.r.Intn(3) == 0 {
		was := s
		if g.was != nil {
			was = g.was
			if g.r.Intn(2) == 0 {
				p = t // a reference to a new unique column of its own
			}
		}
		if w := was.find(p.N); p.Like == "" && (p == t || w != nil) && (p.parent() || p == t) {
			if u := p.uniques(); len(u) > 0 && w != nil && w.has(u[0]) {
				refc = u[0]
			} else if p == t || was == s {
				g.n++
				refc = fmt.Sprintf("ref_col%d", g.n)
				at := 1 + g.r.Intn(len(p.Cols))
				p.Cols = append(p.Cols[:at:at], append([]mCol{{N: refc, Typ: fkType, Nul: g.r.Intn(2)}}, p.Cols[at:]...)...)
				p.Keys = append(p.Keys, mKey{Kind: "UNIQUE", N: []string{refc, "u_" + refc}[g.r.Intn(2)], Cols: []string{refc}})
			}
		}
		if refc != "" {
			ps = []string{p.N}
		}
	}
	if len(ps) == 0 {
		return
	}
	g.fk++
	c := mCol{N: fmt.Sprintf("fk_col%d", g.fk), Typ: fkType, Nul: g.r.Intn(2)}
	f := mFK{N: fmt.Sprintf("fk%d_%s", g.fk, []string{"a", "B", "ref"}[g.r.Intn(3)]), Col: c.N, Ref: ps[g.r.Intn(len(ps))], RefC: refc, OnD: g.r.Intn(5), OnU: g.r.Intn(5), Expl: g.r.Intn(3) == 0}
	if c.Nul == 1 && f.OnD == 2 {
		f.OnD = 1
	}
	if c.Nul == 1 && f.OnU == 2 {
		f.OnU = 0
	}
	at := len(t.Cols)
	if g.r.Intn(2) == 0 {
		at = 1 + g.r.Intn(len(t.Cols))
	}
	t.Cols = append(t.Cols[:at:at], append([]mCol{c}, t.Cols[at:]...)...)
	t.FKs = append(t.FKs, f)
}

func (s *mSchema) find(n string) *mTable {
	for _, t := range s.T {
		if t.N == n {
			return t
		}
	}
	return nil
}

func (g *mGen) schema(n int) *mSchema {
	s := &mSchema{}
	for ; n > 0; n-- {
		s.T = append(s.T, g.table())
	}
	for n := g.r.Intn(3); n > 0 && len(s.T) > 0; n-- {
		g.addFK(s, s.T[g.r.Intn(len(s.T))], nil)
	}
	return s
}

// edit changes a schema at random, within what a migration can express.
func (g *mGen) edit(was *mSchema) *mSchema {
	r := g.r
	s := was.clone()
	g.was = was
	for n := 1 + r.Intn(6); n > 0; n-- {
		if len(s.T) == 0 || r.Intn(10) == 0 {
			t := g.table()
			at := r.Intn(len(s.T) + 1)
			s.T = append(s.T[:at:at], append([]*mTable{t}, s.T[at:]...)...)
			continue
		}
		i := r.Intn(len(s.T))
		t := s.T[i]
		if g.bare && r.Intn(8) == 0 && t.Like == "" && len(t.FKs) == 0 {
			s.T = append(s.T, &mTable{N: g.name(), Like: t.N})
			continue
		}
		if t.Like != "" || s.like(t.N) {
			continue
		}
		old := was.find(t.N)
		switch r.Intn(12) {
		case 0: // drop the table
			s.T = append(s.T[:i:i], s.T[i+1:]...)
			for _, o := range s.T {
				var l []mFK
				for _, f := range o.FKs {
					if f.Ref != t.N {
						l = append(l, f)
					}
				}
				o.FKs = l
			}
			if r.Intn(3) == 0 { // it comes back under another name
				b, _ := json.Marshal(t)
				var x mTable
				json.Unmarshal(b, &x)
				x.N = g.name()
				var l []mFK
				for _, f := range x.FKs {
					if f.Ref == t.N && f.RefC != "" {
						continue
					}
					if f.Ref == t.N {
						f.Ref = x.N
					}
					l = append(l, f)
				}
				x.FKs = l
				s.T = append(s.T, &x)
			}
		case 1, 2, 3: // add columns
			at := r.Intn(len(t.Cols) + 1)
			if at == 0 && t.parent() {
				at = 1
			}
			for k := 1 + r.Intn(3); k > 0; k-- {
				t.Cols = append(t.Cols[:at:at], append([]mCol{g.col(g.name())}, t.Cols[at:]...)...)
			}
		case 4, 5: // drop a column
			j := r.Intn(len(t.Cols))
			if j == 0 && t.parent() {
				continue
			}
			kept := 0
			for k, c := range t.Cols {
				if k != j && (old == nil || old.has(c.N)) {
					kept++
				}
			}
			if kept == 0 {
				continue
			}
			n := t.Cols[j].N
			if t.unnamed(n) || strings.HasPrefix(n, "ref_col") {
				continue
			}
			t.Cols = append(t.Cols[:j:j], t.Cols[j+1:]...)
			t.forget(n)
		case 6, 7: // change a column
			j := r.Intn(len(t.Cols))
			c := t.Cols[j]
			if g.keyed(t)[c.N] && r.Intn(3) > 0 || c.N == "id" || strings.HasPrefix(c.N, "fk_col") || strings.HasPrefix(c.N, "ref_col") || t.unnamed(c.N) {
				continue
			}
			prim := false
			for _, k := range t.Keys {
				for _, x := range k.Cols {
					prim = prim || k.Kind == "PRIMARY" && x == c.N
				}
			}
			if prim {
				continue
			}
			n := g.col(c.N)
			switch r.Intn(7) {
			case 0: // only the comment
				x := c
				x.Cmt = n.Cmt
				n = x
			case 1: // only null or default
				x := c
				x.Nul, x.Def = n.Nul, n.Def
				n = x
			case 2: // the next default or comment in the list
				x := c
				if x.Nul >= 2 && r.Intn(2) == 0 || x.Cmt == 0 {
					x.Nul |= 2
					x.Def++
				} else if x.Cmt = (x.Cmt + 1) % len(mComments); x.Cmt == 0 {
					x.Cmt = 1
				}
				n = x
			case 3, 4: // a related type
				x := c
				x.Typ = near(r, c.Typ)
				n = x
			}
			t.Cols[j] = n
		case 8: // add a key
			if k, ok := g.key(t); ok {
				t.Keys = append(t.Keys, k)
			}
		case 9: // drop or change a key
			if len(t.Keys) == 0 {
				continue
			}
			j := r.Intn(len(t.Keys))
			if strings.HasPrefix(t.Keys[j].Cols[0], "ref_col") {
				continue
			}
			if t.Keys[j].Kind == "PRIMARY" && t.parent() || t.Keys[j].Kind != "PRIMARY" && t.Keys[j].N == "" {
				continue
			}
			switch r.Intn(3) {
			case 0:
				if len(t.Keys[j].Cols) > 1 {
					l := t.Keys[j].Cols
					t.Keys[j].Cols = append(append([]string(nil), l[1:]...), l[0])
					continue
				}
			case 1:
				if k := t.Keys[j].Kind; k != "FULLTEXT" && k != "SPATIAL" {
					t.Keys[j].BT, t.Keys[j].Hash = !t.Keys[j].BT && !t.Keys[j].Hash, t.Keys[j].BT
					continue
				}
			}
			t.Keys = append(t.Keys[:j:j], t.Keys[j+1:]...)
		case 10: // a foreign key more
			also := was
			if g.txn {
				also = nil
			}
			g.addFK(s, t, also)
		case 11: // a foreign key less, or another action
			if len(t.FKs) == 0 {
				continue
			}
			j := r.Intn(len(t.FKs))
			if r.Intn(2) == 0 {
				t.FKs[j].OnD = []int{0, 1, 3, 4}[r.Intn(4)]
				continue
			}
			t.FKs = append(t.FKs[:j:j], t.FKs[j+1:]...)
		}
	}
	return s
}

func (t *mTable) has(n string) bool {
	for _, c := range t.Cols {
		if c.N == n {
			return true
		}
	}
	return false
}

// unnamed tells whether a column is in a key without a name.
func (t *mTable) unnamed(n string) bool {
	for _, k := range t.Keys {
		if k.N == "" && k.Kind != "PRIMARY" {
			for _, c := range k.Cols {
				if c == n {
					return true
				}
			}
		}
	}
	return false
}

func (s *mSchema) like(n string) bool {
	for _, t := range s.T {
		if t.Like == n {
			return true
		}
	}
	return false
}

// likes tells whether what tables are created like is the same before and after.
func (s *mSchema) likes(was *mSchema) bool {
	for _, t := range s.T {
		if t.Like != "" && was.find(t.Like) != nil {
			x, _ := json.Marshal(s.find(t.Like))
			y, _ := json.Marshal(was.find(t.Like))
			if string(x) != string(y) {
				return false
			}
		}
	}
	return true
}

func (t *mTable) forget(n string) {
	var ks []mKey
	for _, k := range t.Keys {
		ok := true
		for _, c := range k.Cols {
			ok = ok && c != n
		}
		if ok {
			ks = append(ks, k)
		}
	}
	t.Keys = ks
	var fs []mFK
	for _, f := range t.FKs {
		if f.Col != n && f.Col2 != n {
			fs = append(fs, f)
		}
	}
	t.FKs = fs
}

// load runs a script on an empty server.
func load(text string) (*simsql.DB, error) {
	db := simsql.NewDB()
	sess := &simsql.Session{NoFK: true}
	for _, q := range simsql.Split(text) {
		if err := db.Exec(sess, q); err != nil {
			return nil, fmt.Errorf("%v in %q", err, q)
		}
	}
	return db, nil
}

// pair makes a schema and an edited one that both load. Without a transaction
// (which turns foreign key checks off) tables come before those that refer to
// them and none is dropped while another refers to it.
func mPair(r *rand.Rand, txn, bare bool) (a, b *mSchema) {
	for try := 0; ; try++ {
		g := &mGen{r: r, txn: txn, bare: bare, size: []int{2, 5, 9}[r.Intn(3)]}
		a = g.schema([]int{0, 1, 1, 2, 3, 5}[r.Intn(6)])
		b = g.edit(a)
		if r.Intn(15) == 0 {
			b = a.clone()
		}
		if try < 200 {
			if _, err := load(a.sql(r)); err != nil {
				continue
			}
			if _, err := load(b.sql(r)); err != nil {
				continue
			}
			if !txn && !a.orderly(b) {
				continue
			}
			if !b.likes(a) {
				continue
			}
			// whatever referred to a dropped or parentless table
			ok := true
			for _, s := range []*mSchema{a, b} {
				for _, t := range s.T {
					for _, f := range t.FKs {
						p := s.find(f.Ref)
						if f.Col2 != "" && p != nil {
							x, y, is := p.pairKey()
							ok = ok && is && x.N == f.RefC && y.N == f.Ref2 && samePair(a.find(f.Ref), b.find(f.Ref))
						}
						ok = ok && p != nil && (p.parent() || f.RefC != "" && p.has(f.RefC))
					}
				}
			}
			if !ok {
				continue
			}
		} else {
			a, b = &mSchema{}, &mSchema{}
		}
		return a, b
	}
}

func (a *mSchema) orderly(b *mSchema) bool {
	for _, t := range a.T {
		for _, f := range t.FKs {
			if b.find(f.Ref) == nil && f.Ref != t.N {
				return false
			}
		}
	}
	at := map[string]int{}
	for i, t := range b.T {
		at[t.N] = i
	}
	for i, t := range b.T {
		for _, f := range t.FKs {
			if a.find(t.N) == nil && a.find(f.Ref) == nil && at[f.Ref] > i {
				return false
			}
		}
	}
	return true
}

// ---- C11 --------------------------------------------------------------------

type migrate struct{}

func (migrate) Name() string { return "migrate" }

type migData struct {
	A       core.Text `json:"from"`
	B       core.Text `json:"to"`
	From    string    `json:"from_source"` // server, file
	To      string    `json:"to_source"`   // file, server, git, reader
	Txn     bool      `json:"transaction"`
	Bare    bool      `json:"unnamed,omitempty"` // texts compared with texts only
	Latency int       `json:"latency_us,omitempty"`
	Chunk   int       `json:"chunk,omitempty"`
}

func (migrate) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	d := migData{Txn: r.Intn(4) > 0, From: []string{"server", "server", "file"}[r.Intn(3)], To: []string{"file", "file", "server", "git", "reader"}[r.Intn(5)]}
	if d.Bare = r.Intn(5) == 0; d.Bare {
		d.From = "file"
		if d.To == "server" {
			d.To = "file"
		}
	}
	a, b := mPair(r, d.Txn, d.Bare)
	d.A, d.B = core.Text(a.sql(r)), core.Text(b.sql(r))
	d.Latency = []int{0, 0, 100, 5000}[r.Intn(4)]
	d.Chunk = []int{0, 0, 1 + r.Intn(10), 20 + r.Intn(300)}[r.Intn(4)]
	return d, nil, core.RandSched(r, r.Intn(6) == 0)
}

// world is a simulated installation of one or two servers, files and a repository.
type world struct {
	e   *core.Env
	k   *simk.Kernel
	n   *simsql.Net
	dbs []*simsql.DB
	srv []*simsql.Server
	old string
}

func newWorld(e *core.Env, a, b string) *world {
	w := &world{e: e, k: simk.New(e), n: simsql.NewNet(e), old: a}
	simgit.Install(e, w.k, []*simgit.Repo{{Dir: "/w/repo", Revs: map[string]map[string]string{"main": {"s.sql": b}, "old": {"s.sql": a}}}})
	return w
}

func (w *world) drop() {
	w.n.Drop()
	simk.Drop()
}

func (w *world) serve(db *simsql.DB) int {
	i := len(w.dbs)
	s := simsql.NewServer(w.e, fmt.Sprintf("s%d", i))
	s.List, s.Lookup, s.Exec = db.List, db.Lookup, db.Exec
	w.dbs, w.srv = append(w.dbs, db), append(w.srv, s)
	w.n.Add(fmt.Sprintf("db%d:3306", i), s)
	return i
}

func (w *world) source(kind, text string, server int) schemalex.SchemaSource {
	runtime.SimHold()
	defer runtime.SimUnhold()
	switch kind {
	case "server":
		return schemalex.NewMySQLSource(fmt.Sprintf("user:pass@tcp(db%d:3306)/db?timeout=10s&readTimeout=10s&writeTimeout=10s", server))
	case "file":
		name := fmt.Sprintf("/w/schema%d.sql", server)
		w.k.WriteFile(name, []byte(text))
		return schemalex.NewLocalFileSource(name)
	case "git":
		rev := "main"
		if text == w.old {
			rev = "old"
		}
		return schemalex.NewLocalGitSource("/w/repo", "s.sql", rev)
	}
	return schemalex.NewReaderSource(strings.NewReader(text))
}

// ddl are the statements of a migration that define something.
func ddl(script string) (l []string) {
	for _, q := range simsql.Split(script) {
		switch u := strings.ToUpper(q); {
		case u == "BEGIN", u == "COMMIT", strings.HasPrefix(u, "SET "), strings.HasPrefix(u, "START "):
		default:
			l = append(l, q)
		}
	}
	return
}

// kindOf names the kind of a statement.
func kindOf(q string) string {
	q = strings.ToUpper(q)
	f := strings.Fields(q)
	if f[0] == "ALTER" {
		for _, k := range []string{"ADD COLUMN", "DROP COLUMN", "CHANGE COLUMN", "ADD CONSTRAINT", "ADD INDEX", "ADD UNIQUE", "ADD PRIMARY", "ADD FULLTEXT", "ADD SPATIAL", "DROP INDEX", "DROP PRIMARY", "DROP FOREIGN"} {
			if strings.Contains(q, "` "+k) {
				return "ALTER " + k
			}
		}
	}
	return f[0]
}

// kept checks that what is in both schemas was not dropped and made again.
func kept(e *core.Env, a, b, now *simsql.DB, ids map[string]int) {
	// column names are the same to the server whatever their case
	low := func(m map[string]int) map[string]int {
		l := map[string]int{}
		for n, id := range m {
			l[strings.ToLower(n)] = id
		}
		return l
	}
	ids, got, both := low(ids), low(now.IDs()), low(b.IDs())
	var l []string
	for n := range both {
		if _, ok := ids[n]; ok {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	for _, n := range l {
		if got[n] != ids[n] {
			e.Fail("data-loss", "%s is in the old and in the new schema, but the migration dropped it and made it again", n)
			return
		}
	}
}

// same compares a server with the target.
func same(e *core.Env, class string, now, want *simsql.DB, script string) {
	if g, w := strings.Join(now.Names(), "\n"), strings.Join(want.Names(), "\n"); g != w {
		e.Fail(class, "after the migration the tables are %q, not %q; migration:\n%s", now.Names(), want.Names(), clip(script, 3000))
		return
	}
	for _, n := range want.Names() {
		if g, w := now.Canon(n), want.Canon(n); g != w {
			e.Fail(class, "after the migration table %s is\n%s\nand not\n%s\nmigration:\n%s", n, g, w, clip(script, 3000))
			return
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (migrate) Run(e *core.Env) {
	var d migData
	e.Decode(&d)
	a, err := load(string(d.A))
	if err != nil {
		e.Log = append(e.Log, "the old schema does not load: "+err.Error())
		e.Probe("invalid-workload")
		return
	}
	b, err := load(string(d.B))
	if err != nil {
		e.Log = append(e.Log, "the new schema does not load: "+err.Error())
		e.Probe("invalid-workload")
		return
	}
	w := newWorld(e, string(d.A), string(d.B))
	w.n.Latency, w.n.Chunk = time.Duration(d.Latency)*time.Microsecond, d.Chunk
	ids := a.IDs()
	w.serve(a.Clone())
	w.serve(b.Clone())
	now := w.dbs[0]
	var out bytes.Buffer
	err = diff.Sources(&out, w.source(d.From, string(d.A), 0), w.source(d.To, string(d.B), 1), diff.WithTransaction(d.Txn))
	script := out.String()
	e.Logf("%s -> %s: err=%v, %d statements", d.From, d.To, err, len(ddl(script)))
	e.Probe("from/" + d.From)
	e.Probe("to/" + d.To)
	if err != nil {
		e.Fail("no-migration", "both schemas are valid, but there is no migration: %v", err)
	}
	sess := &simsql.Session{}
	for i, q := range simsql.Split(script) {
		if e.Failed() {
			break
		}
		if err := now.Exec(sess, q); err != nil {
			e.Fail("rejected", "the server rejects statement %d of the migration: %v: %q\nmigration:\n%s", i+1, err, q, clip(script, 3000))
		}
		e.Logf("%s", q)
		e.Probe("ddl/" + kindOf(q))
	}
	if !e.Failed() {
		same(e, "wrong-schema", now, b, script)
	}
	for _, n := range b.Names() {
		if e.Failed() {
			break
		}
		if g, w := now.Options(n), b.Options(n); g != w && !contains(a.Names(), n) {
			e.Fail("wrong-schema", "the migration makes table %s with the options %q, not %q; migration:\n%s", n, g, w, clip(script, 3000))
		}
	}
	if !e.Failed() {
		kept(e, a, b, now, ids)
	}
	if sess.NoFK && !e.Failed() {
		e.Fail("checks-off", "after the migration foreign key checks are still off in the session")
	}
	if !e.Failed() {
		out.Reset()
		src := w.source("server", "", 0)
		if d.Bare {
			src = w.source("reader", string(d.B), 1)
		}
		err := diff.Sources(&out, src, w.source(d.To, string(d.B), 1), diff.WithTransaction(d.Txn))
		if err != nil {
			e.Fail("no-migration", "after the migration the diff fails: %v", err)
		} else if l := ddl(out.String()); len(l) > 0 {
			e.Fail("not-idempotent", "after the migration the diff still has %d statements: %s\nmigration was:\n%s", len(l), clip(strings.Join(l, "\n"), 1500), clip(script, 2000))
		}
	}
	w.drop()
	e.Done = true
}

func (migrate) Shrink(raw json.RawMessage) (l []interface{}) {
	var d migData
	json.Unmarshal(raw, &d)
	dec := func() *migData { var x migData; json.Unmarshal(raw, &x); return &x }
	for _, t := range shrinkPair(string(d.A), string(d.B)) {
		x := dec()
		x.A, x.B = core.Text(t[0]), core.Text(t[1])
		l = append(l, x)
	}
	if d.From != "server" && !d.Bare {
		x := dec()
		x.From = "server"
		l = append(l, x)
	}
	if d.To != "file" {
		x := dec()
		x.To = "file"
		l = append(l, x)
	}
	if d.Latency != 0 || d.Chunk != 0 {
		x := dec()
		x.Latency, x.Chunk = 0, 0
		l = append(l, x)
	}
	return
}

// shrinkPair proposes smaller pairs of scripts: statements or definitions less.
func shrinkPair(a, b string) (l [][2]string) {
	cut := func(s string) (l []string) {
		qs := simsql.Split(s)
		for i := range qs {
			var rest []string
			rest = append(append(rest, qs[:i]...), qs[i+1:]...)
			l = append(l, strings.Join(rest, ";\n")+";")
		}
		for i, q := range qs {
			for _, x := range simsql.DropDefs(q) {
				rest := append([]string(nil), qs...)
				rest[i] = x
				l = append(l, strings.Join(rest, ";\n")+";")
			}
		}
		return
	}
	ok := func(s string) bool {
		_, err := load(s)
		return err == nil
	}
	ca, cb := cut(a), cut(b)
	// the same cut in both first
	for i := range ca {
		if i < len(cb) && ok(ca[i]) && ok(cb[i]) {
			l = append(l, [2]string{ca[i], cb[i]})
		}
	}
	for _, x := range ca {
		if ok(x) {
			l = append(l, [2]string{x, b})
		}
	}
	for _, x := range cb {
		if ok(x) {
			l = append(l, [2]string{a, x})
		}
	}
	return
}

// ---- C12 --------------------------------------------------------------------

type resume struct{}

func (resume) Name() string { return "resume" }

type round struct {
	Target  string `json:"target"` // B or A
	Stop    int    `json:"stop_after,omitempty"`
	ErrAt   int    `json:"error_at,omitempty"`
	LoseAt  int    `json:"lose_session_at,omitempty"`
	Done    bool   `json:"lost_statement_done,omitempty"`
	Twice   bool   `json:"two_operators,omitempty"`
	Clutter bool   `json:"fetch_faults,omitempty"`
}

type resData struct {
	migData
	Rounds []round `json:"rounds"`
	Final  string  `json:"final_target"`
}

func (resume) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d resData
	d.Txn = r.Intn(3) > 0
	d.From, d.To = "server", []string{"file", "file", "server", "git", "reader"}[r.Intn(5)]
	var a, b *mSchema
	for {
		a, b = mPair(r, d.Txn, false)
		if d.Txn || b.orderly(a) {
			break
		}
	}
	d.A, d.B = core.Text(a.sql(r)), core.Text(b.sql(r))
	d.Latency = []int{0, 0, 100, 5000}[r.Intn(4)]
	d.Final = []string{"B", "B", "B", "A"}[r.Intn(4)]
	var fs []core.Fault
	for n := 1 + r.Intn(3); n > 0; n-- {
		x := round{Target: "B"}
		if r.Intn(5) == 0 {
			x.Target = "A"
		}
		at := 1 + r.Intn([]int{2, 5, 12}[r.Intn(3)])
		switch r.Intn(6) {
		case 0, 1:
			x.Stop = at
		case 2:
			x.ErrAt = at
		case 3:
			x.LoseAt, x.Done = at, r.Intn(2) == 0
		case 4:
			x.Twice = true
			if r.Intn(2) == 0 {
				x.Stop = at
			}
		case 5:
			x.Clutter = true
		}
		if x.Clutter {
			kinds := []string{"err", "err-rows", "drop", "drop-rows"}
			fs = append(fs, core.Fault{Site: "s0:" + []string{"list", "create"}[r.Intn(2)], Kind: kinds[r.Intn(4)], Nth: 1 + r.Intn(4), Arg: r.Intn(30)})
			if r.Intn(2) == 0 {
				fs = append(fs, core.Fault{Site: fmt.Sprintf("conn%d", 1+r.Intn(4)), Kind: []string{"s2c-rst", "s2c-fin", "c2s-rst", "refuse"}[r.Intn(4)], Arg: r.Intn(1500)})
			}
		}
		d.Rounds = append(d.Rounds, x)
	}
	return d, fs, core.RandSched(r, r.Intn(6) == 0)
}

// operate is one operator's migration: fetch, compare, apply.
func (w *world) operate(who string, d *resData, x round, target string) (complete bool, script string) {
	e := w.e
	text, srv := string(d.B), 1
	if target == "A" {
		text, srv = string(d.A), 2
	}
	var out bytes.Buffer
	err := diff.Sources(&out, w.source("server", "", 0), w.source(d.To, text, srv), diff.WithTransaction(d.Txn))
	script = out.String()
	e.Logf("%s: diff to %s: err=%v, %d statements", who, target, err, len(ddl(script)))
	if err != nil {
		return false, err.Error()
	}
	sess := &simsql.Session{}
	n := 0
	for _, q := range simsql.Split(script) {
		time.Sleep(time.Millisecond)
		u := strings.ToUpper(q)
		if !strings.HasPrefix(u, "SET") && u != "BEGIN" && u != "COMMIT" {
			n++
		}
		runtime.SimHold()
		switch {
		case x.ErrAt == n && n > 0:
			err = fmt.Errorf("Lock wait timeout exceeded")
			e.Fired("apply/error")
		case x.LoseAt == n && n > 0:
			if x.Done {
				w.dbs[0].Exec(sess, q)
			}
			err = fmt.Errorf("Lost connection to MySQL server during query")
			e.Fired("apply/lost-connection")
		default:
			err = w.dbs[0].Exec(sess, q)
		}
		runtime.SimUnhold()
		e.Logf("%s: %s: %v", who, q, err)
		if err != nil {
			return false, script + "\n-- " + err.Error() + ": " + q
		}
		if x.Stop > 0 && n >= x.Stop {
			e.Fired("apply/operator-crash")
			return false, script
		}
	}
	return true, script
}

func (resume) Run(e *core.Env) {
	var d resData
	e.Decode(&d)
	a, err1 := load(string(d.A))
	b, err2 := load(string(d.B))
	if err1 != nil || err2 != nil {
		e.Probe("invalid-workload")
		return
	}
	w := newWorld(e, string(d.A), string(d.B))
	w.n.Latency, w.n.Chunk = time.Duration(d.Latency)*time.Microsecond, d.Chunk
	w.serve(a.Clone())
	w.serve(b.Clone())
	w.serve(a.Clone())
	ids := a.IDs()
	now := w.dbs[0]
	for i, x := range d.Rounds {
		if x.Twice {
			e.Fired("apply/two-operators")
			var wg sync.WaitGroup
			for k := 0; k < 2; k++ {
				y := x
				if k == 1 {
					y.Stop = 0
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.operate(fmt.Sprintf("round %d operator %d", i+1, k+1), &d, y, x.Target)
				}()
			}
			wg.Wait()
			continue
		}
		w.operate(fmt.Sprintf("round %d", i+1), &d, x, x.Target)
	}
	// no more faults
	e.StopFaults()
	goal := b
	if d.Final == "A" {
		goal = a
	}
	before := now.Clone()
	ok, script := w.operate("last round", &d, round{}, d.Final)
	if !ok {
		e.Fail("stuck", "after the disturbance the migration to %s fails: %s\nthe server had:\n%s", d.Final, clip(script, 2500), clip(before.Dump(), 2500))
	}
	if !e.Failed() {
		same(e, "wrong-schema", now, goal, script)
	}
	if !e.Failed() {
		kept(e, a, b, now, ids)
	}
	if !e.Failed() {
		text, srv := string(d.B), 1
		if d.Final == "A" {
			text, srv = string(d.A), 2
		}
		var out bytes.Buffer
		if err := diff.Sources(&out, w.source("server", "", 0), w.source(d.To, text, srv), diff.WithTransaction(d.Txn)); err != nil {
			e.Fail("no-migration", "after the migration the diff fails: %v", err)
		} else if l := ddl(out.String()); len(l) > 0 {
			e.Fail("not-idempotent", "after the migration the diff still has %d statements: %s", len(l), clip(strings.Join(l, "\n"), 1500))
		}
	}
	w.drop()
	e.Done = true
}

func (resume) Shrink(raw json.RawMessage) (l []interface{}) {
	var d resData
	json.Unmarshal(raw, &d)
	dec := func() *resData { var x resData; json.Unmarshal(raw, &x); return &x }
	for i := range d.Rounds {
		x := dec()
		x.Rounds = append(x.Rounds[:i], x.Rounds[i+1:]...)
		l = append(l, x)
	}
	for _, t := range shrinkPair(string(d.A), string(d.B)) {
		x := dec()
		x.A, x.B = core.Text(t[0]), core.Text(t[1])
		l = append(l, x)
	}
	for i, r := range d.Rounds {
		if r.Twice {
			x := dec()
			x.Rounds[i].Twice = false
			l = append(l, x)
		}
	}
	if d.Final != "B" {
		x := dec()
		x.Final = "B"
		l = append(l, x)
	}
	if d.To != "file" {
		x := dec()
		x.To = "file"
		l = append(l, x)
	}
	if d.Latency != 0 {
		x := dec()
		x.Latency = 0
		l = append(l, x)
	}
	return
}
