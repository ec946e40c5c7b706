//go:build go1.22

package simsql

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// DB is a database of MySQL 5.7: table definitions, no rows. It runs the data
// definition statements of a migration with MySQL's checks and renders
// definitions as SHOW CREATE TABLE does (explicit_defaults_for_timestamp=ON).
type DB struct {
	tables map[string]*tdef
	// Applied counts statements that changed something.
	Applied int
	uid     int
}

// IDs gives the identity of every table ("t") and column ("t.c"). It changes
// when something is dropped and made again.
func (db *DB) IDs() map[string]int {
	m := map[string]int{}
	for n, t := range db.tables {
		m[n] = t.uid
		for _, c := range t.cols {
			m[n+"."+c.name] = c.uid
		}
	}
	return m
}

// settle gives identities to what is new.
func (db *DB) settle(t *tdef) {
	if t.uid == 0 {
		db.uid++
		t.uid = db.uid
	}
	for _, c := range t.cols {
		if c.uid == 0 {
			db.uid++
			c.uid = db.uid
		}
	}
	db.tables[t.name] = t
	db.Applied++
}

type col struct {
	uid      int
	name     string
	typ      string // canonical, lower case
	ln, dec  string
	vals     []string
	unsigned bool
	zerofill bool
	binary   bool
	charset  string
	collate  string
	notNull  bool
	null     bool // written
	hasDef   bool
	defNull  bool
	defExpr  bool // Default is not to be quoted
	def      string
	onUpdate string
	auto     bool
	comment  string
	prim     bool
	uniq     bool
}

type keyCol struct {
	name string
	ln   string
}

type key struct {
	kind   string // PRIMARY, UNIQUE, KEY, FULLTEXT, SPATIAL
	name   string
	cols   []keyCol
	using  string
	parser string
	gen    bool // made for a foreign key
	cmt    string
}

type fkey struct {
	name     string
	cols     []string
	ref      string
	refCols  []string
	onDelete string
	onUpdate string
	index    string
}

type tdef struct {
	uid  int
	name string
	cols []*col
	keys []*key
	fks  []*fkey
	opts map[string]string
}

// NewDB makes an empty database.
func NewDB() *DB { return &DB{tables: map[string]*tdef{}} }

// Clone copies a database.
func (db *DB) Clone() *DB {
	d := NewDB()
	d.uid = db.uid
	for n, t := range db.tables {
		d.tables[n] = t.clone()
	}
	return d
}

// Names lists the tables.
func (db *DB) Names() (l []string) {
	for n := range db.tables {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

// List and Lookup serve a Server.
func (db *DB) List() (l []*Table) {
	for _, n := range db.Names() {
		l = append(l, db.Lookup(n))
	}
	return
}

// Lookup finds a table.
func (db *DB) Lookup(n string) *Table {
	t := db.tables[n]
	if t == nil {
		return nil
	}
	return &Table{Name: n, Def: t.show}
}

// Show is a table's definition.
func (db *DB) Show(n string) string {
	if t := db.tables[n]; t != nil {
		return t.show()
	}
	return ""
}

// Canon is a form of a definition that is the same for tables that differ
// only in what a migration does not claim to carry over: table options and
// the order of keys.
func (db *DB) Canon(n string) string {
	t := db.tables[n]
	if t == nil {
		return ""
	}
	var l []string
	for _, c := range t.cols {
		l = append(l, "column "+t.showCol(c))
	}
	var ks []string
	for _, k := range t.keys {
		ks = append(ks, "key "+k.show())
	}
	sort.Strings(ks)
	var fs []string
	for _, f := range t.fks {
		fs = append(fs, "foreign key "+f.show())
	}
	sort.Strings(fs)
	return strings.Join(append(append(l, ks...), fs...), "\n")
}

// Dump is the whole database as SHOW CREATE TABLE renders it.
func (db *DB) Dump() string {
	var b strings.Builder
	for _, n := range db.Names() {
		b.WriteString(db.Show(n) + ";\n\n")
	}
	return b.String()
}

func (t *tdef) clone() *tdef {
	n := &tdef{uid: t.uid, name: t.name, opts: map[string]string{}}
	for _, c := range t.cols {
		x := *c
		n.cols = append(n.cols, &x)
	}
	for _, k := range t.keys {
		x := *k
		x.cols = append([]keyCol(nil), k.cols...)
		n.keys = append(n.keys, &x)
	}
	for _, f := range t.fks {
		x := *f
		x.cols = append([]string(nil), f.cols...)
		x.refCols = append([]string(nil), f.refCols...)
		n.fks = append(n.fks, &x)
	}
	for k, v := range t.opts {
		n.opts[k] = v
	}
	return n
}

func (t *tdef) col(name string) (int, *col) {
	for i, c := range t.cols {
		if strings.EqualFold(c.name, name) {
			return i, c
		}
	}
	return -1, nil
}

func (t *tdef) key(name string) (int, *key) {
	for i, k := range t.keys {
		if strings.EqualFold(k.name, name) {
			return i, k
		}
	}
	return -1, nil
}

func (t *tdef) fk(name string) (int, *fkey) {
	for i, k := range t.fks {
		if strings.EqualFold(k.name, name) {
			return i, k
		}
	}
	return -1, nil
}

// covers tells whether the key starts with the columns.
func (k *key) covers(cols []string) bool {
	if k.kind == "FULLTEXT" || k.kind == "SPATIAL" || len(k.cols) < len(cols) {
		return false
	}
	for i, c := range cols {
		if !strings.EqualFold(k.cols[i].name, c) || k.cols[i].ln != "" {
			return false
		}
	}
	return true
}

func (t *tdef) covered(cols []string) *key {
	for _, k := range t.keys {
		if k.covers(cols) {
			return k
		}
	}
	return nil
}

// ---- rendering --------------------------------------------------------------

func (t *tdef) charset() string {
	if c := t.opts["CHARSET"]; c != "" {
		return c
	}
	if c := t.opts["COLLATE"]; c != "" {
		return strings.SplitN(c, "_", 2)[0]
	}
	return "latin1"
}

func primaryCollation(cs string) string {
	switch cs {
	case "latin1":
		return "latin1_swedish_ci"
	case "binary":
		return "binary"
	}
	return cs + "_general_ci"
}

func isText(typ string) bool {
	switch typ {
	case "tinytext", "text", "mediumtext", "longtext":
		return true
	}
	return false
}

func isBlob(typ string) bool {
	switch typ {
	case "tinyblob", "blob", "mediumblob", "longblob":
		return true
	}
	return isText(typ)
}

func isChar(typ string) bool {
	return typ == "char" || typ == "varchar" || typ == "enum" || typ == "set" || isText(typ)
}

func isInt(typ string) bool {
	switch typ {
	case "tinyint", "smallint", "mediumint", "int", "bigint":
		return true
	}
	return false
}

func isNum(typ string) bool {
	return isInt(typ) || typ == "decimal" || typ == "float" || typ == "double"
}

func isTime(typ string) bool { return typ == "timestamp" || typ == "datetime" }

func (t *tdef) collation() string {
	if c := t.opts["COLLATE"]; c != "" {
		return c
	}
	return primaryCollation(t.charset())
}

func (t *tdef) showType(c *col) string {
	s := c.typ
	if c.vals != nil {
		var l []string
		for _, v := range c.vals {
			l = append(l, quote(v))
		}
		s += "(" + strings.Join(l, ",") + ")"
	} else if c.ln != "" {
		s += "(" + c.ln
		if c.dec != "" {
			s += "," + c.dec
		}
		s += ")"
	}
	if c.unsigned {
		s += " unsigned"
	}
	if c.zerofill {
		s += " zerofill"
	}
	return s
}

func (t *tdef) showCol(c *col) string {
	s := bq(c.name) + " " + t.showType(c)
	if isChar(c.typ) {
		cs, co := t.charset(), t.collation()
		if c.charset != "" {
			cs, co = c.charset, primaryCollation(c.charset)
		}
		if c.collate != "" {
			co = c.collate
			cs = strings.SplitN(co, "_", 2)[0]
		}
		if c.binary {
			co = cs + "_bin"
		}
		if co != t.collation() {
			s += " CHARACTER SET " + cs
		}
		if co != primaryCollation(cs) {
			s += " COLLATE " + co
		}
	}
	switch {
	case c.notNull:
		s += " NOT NULL"
	case c.typ == "timestamp":
		s += " NULL"
	}
	switch {
	case c.auto:
	case c.hasDef && c.defNull, !c.hasDef && !c.notNull && !isBlob(c.typ):
		if !isBlob(c.typ) {
			s += " DEFAULT NULL"
		}
	case c.hasDef && c.defExpr:
		s += " DEFAULT " + c.def
	case c.hasDef:
		s += " DEFAULT " + quote(c.def)
	}
	if c.onUpdate != "" {
		s += " ON UPDATE " + c.onUpdate
	}
	if c.auto {
		s += " AUTO_INCREMENT"
	}
	if c.comment != "" {
		s += " COMMENT " + quote(c.comment)
	}
	return s
}

func (k *key) show() string {
	s := map[string]string{"PRIMARY": "PRIMARY KEY", "UNIQUE": "UNIQUE KEY", "KEY": "KEY", "FULLTEXT": "FULLTEXT KEY", "SPATIAL": "SPATIAL KEY"}[k.kind]
	if k.kind != "PRIMARY" {
		s += " " + bq(k.name)
	}
	var l []string
	for _, c := range k.cols {
		x := bq(c.name)
		if c.ln != "" {
			x += "(" + c.ln + ")"
		}
		l = append(l, x)
	}
	s += " (" + strings.Join(l, ",") + ")"
	if k.using != "" {
		s += " USING " + k.using
	}
	if k.cmt != "" {
		s += " COMMENT " + quote(k.cmt)
	}
	if k.parser != "" {
		s += " /*!50100 WITH PARSER " + bq(k.parser) + " */ "
	}
	return s
}

func bqs(l []string) string {
	var x []string
	for _, s := range l {
		x = append(x, bq(s))
	}
	return strings.Join(x, ", ")
}

func (f *fkey) show() string {
	s := "CONSTRAINT " + bq(f.name) + " FOREIGN KEY (" + bqs(f.cols) + ") REFERENCES " + bq(f.ref) + " (" + bqs(f.refCols) + ")"
	if f.onDelete != "" {
		s += " ON DELETE " + f.onDelete
	}
	if f.onUpdate != "" {
		s += " ON UPDATE " + f.onUpdate
	}
	return s
}

func (t *tdef) show() string {
	var l []string
	for _, c := range t.cols {
		l = append(l, "  "+t.showCol(c))
	}
	for _, k := range t.sorted() {
		l = append(l, "  "+k.show())
	}
	fs := append([]*fkey(nil), t.fks...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	for _, f := range fs {
		l = append(l, "  "+f.show())
	}
	s := "CREATE TABLE " + bq(t.name) + " (\n" + strings.Join(l, ",\n") + "\n)"
	e := t.opts["ENGINE"]
	if e == "" {
		e = "InnoDB"
	}
	s += " ENGINE=" + e
	if v := t.opts["AUTO_INCREMENT"]; v != "" && v != "1" {
		s += " AUTO_INCREMENT=" + v
	}
	s += " DEFAULT CHARSET=" + t.charset()
	if t.collation() != primaryCollation(t.charset()) {
		s += " COLLATE=" + t.collation()
	}
	for _, o := range []string{"MIN_ROWS", "MAX_ROWS", "AVG_ROW_LENGTH", "PACK_KEYS", "STATS_PERSISTENT", "STATS_AUTO_RECALC", "STATS_SAMPLE_PAGES", "CHECKSUM", "DELAY_KEY_WRITE", "ROW_FORMAT", "KEY_BLOCK_SIZE"} {
		if v := t.opts[o]; v != "" {
			s += " " + o + "=" + v
		}
	}
	if v := t.opts["COMMENT"]; v != "" {
		s += " COMMENT=" + quote(v)
	}
	if v := t.opts["CONNECTION"]; v != "" {
		s += " CONNECTION=" + quote(v)
	}
	if v := t.opts["DATA DIRECTORY"]; v != "" {
		s += " DATA DIRECTORY=" + quote(v)
	}
	return s
}

// Options shows the options of a table.
func (db *DB) Options(n string) string {
	s := db.Show(n)
	return s[strings.LastIndex(s, "\n)")+2:]
}

// sorted is the order of keys in a table's definition.
func (t *tdef) sorted() []*key {
	rank := func(k *key) int {
		switch k.kind {
		case "PRIMARY":
			return 0
		case "UNIQUE":
			for _, c := range k.cols {
				if _, x := t.col(c.name); x != nil && !x.notNull {
					return 2
				}
			}
			return 1
		case "FULLTEXT":
			return 4
		}
		return 3
	}
	l := append([]*key(nil), t.keys...)
	sort.SliceStable(l, func(i, j int) bool { return rank(l[i]) < rank(l[j]) })
	return l
}

// ---- statements -------------------------------------------------------------

type sqlp struct {
	l []tok
	i int
	q string
}

func (p *sqlp) peek() tok { return p.l[p.i] }
func (p *sqlp) next() tok {
	t := p.l[p.i]
	if p.i < len(p.l)-1 {
		p.i++
	}
	return t
}

func (p *sqlp) bad() *SQLError {
	near := ""
	for _, t := range p.l[p.i:] {
		near += t.v + " "
	}
	return Err(1064, "42000", "You have an error in your SQL syntax; check the manual that corresponds to your MySQL server version for the right syntax to use near '%s' in %q", clip(near), clip(p.q))
}

// word tells whether the next tokens are the words, and skips them.
func (p *sqlp) word(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.l) || p.l[p.i+k].k != 'i' || !strings.EqualFold(p.l[p.i+k].v, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}

func (p *sqlp) ch(c byte) bool {
	if p.peek().k == c {
		p.next()
		return true
	}
	return false
}

func (p *sqlp) end() bool {
	for p.ch(';') {
	}
	return p.peek().k == 0
}

// reserved words that cannot be names without quotes.
var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("ADD ALTER AND AS ASC BETWEEN BY CASCADE CHANGE CHAR CHARACTER CHECK COLLATE COLUMN CONSTRAINT CREATE DATABASE DEFAULT DELETE DESC DISTINCT DROP EXISTS FLOAT FOREIGN FROM FULLTEXT GROUP HAVING IF IN INDEX INSERT INT INTEGER INTO IS JOIN KEY KEYS LIKE LIMIT MATCH NOT NULL ON OR ORDER OUTER PRIMARY REFERENCES RENAME REPLACE RESTRICT SCHEMA SELECT SET SHOW SPATIAL TABLE THEN TO TRIGGER UNION UNIQUE UNSIGNED UPDATE USING VALUES VARCHAR WHERE WITH ZEROFILL") {
		reserved[w] = true
	}
}

func (p *sqlp) name() (string, *SQLError) {
	t := p.peek()
	if t.k == 'q' || t.k == 'i' && !reserved[strings.ToUpper(t.v)] {
		p.next()
		if len(t.v) > 64 && len([]rune(t.v)) > 64 {
			return "", Err(1059, "42000", "Identifier name '%s' is too long", t.v)
		}
		if strings.HasSuffix(t.v, " ") {
			return "", Err(1166, "42000", "Incorrect column name '%s'", t.v)
		}
		return t.v, nil
	}
	return "", p.bad()
}

func (p *sqlp) tableName() (string, *SQLError) {
	n, err := p.name()
	if err != nil {
		return "", err
	}
	if p.ch('.') {
		return p.name()
	}
	return n, nil
}

// Exec runs a statement. A failing one changes nothing.
func (db *DB) Exec(sess *Session, q string) error {
	if err := db.exec(sess, q); err != nil {
		return err
	}
	return nil
}

func (db *DB) exec(sess *Session, q string) *SQLError {
	l, err := lex(q)
	if err != nil {
		return err
	}
	p := &sqlp{l: l, q: q}
	switch {
	case p.word("BEGIN"), p.word("START", "TRANSACTION"), p.word("COMMIT"), p.word("ROLLBACK"):
		p.word("WORK")
		if !p.end() {
			return p.bad()
		}
		return nil
	case p.word("USE"), p.word("CREATE", "DATABASE"):
		return nil
	case p.word("SET"):
		return db.set(sess, p)
	case p.word("DROP", "TABLE"):
		return db.drop(sess, p)
	case p.word("CREATE", "TABLE"):
		return db.create(sess, p)
	case p.word("ALTER", "TABLE"):
		return db.alter(sess, p)
	}
	return p.bad()
}

func (db *DB) set(sess *Session, p *sqlp) *SQLError {
	if p.word("NAMES") {
		return nil
	}
	for {
		p.word("SESSION")
		if p.ch('@') {
			p.ch('@')
			if p.word("SESSION") && !p.ch('.') {
				return p.bad()
			}
		}
		n, err := p.name()
		if err != nil {
			return err
		}
		if !p.ch('=') {
			return p.bad()
		}
		v := p.next()
		if v.k == 0 {
			return p.bad()
		}
		switch n = strings.ToLower(n); {
		case n == "foreign_key_checks":
			switch strings.ToUpper(v.v) {
			case "0", "OFF":
				sess.NoFK = true
			case "1", "ON":
				sess.NoFK = false
			default:
				return Err(1231, "42000", "Variable 'foreign_key_checks' can't be set to the value of '%s'", v.v)
			}
		case !sysVars[n]:
			return Err(1193, "HY000", "Unknown system variable '%s'", n)
		}
		if p.end() {
			return nil
		}
		if !p.ch(',') {
			return p.bad()
		}
	}
}

func (db *DB) drop(sess *Session, p *sqlp) *SQLError {
	ife := p.word("IF", "EXISTS")
	var names []string
	for {
		n, err := p.tableName()
		if err != nil {
			return err
		}
		names = append(names, n)
		if !p.ch(',') {
			break
		}
	}
	_ = p.word("RESTRICT") || p.word("CASCADE")
	if !p.end() {
		return p.bad()
	}
	drop := map[string]bool{}
	for _, n := range names {
		drop[n] = true
	}
	for _, n := range names {
		if db.tables[n] == nil {
			if ife {
				continue
			}
			return Err(1051, "42S02", "Unknown table 'db.%s'", n)
		}
		if sess.NoFK {
			continue
		}
		for _, o := range db.tables {
			for _, f := range o.fks {
				if f.ref == n && !drop[o.name] {
					return Err(1217, "23000", "Cannot delete or update a parent row: a foreign key constraint fails (dropping %s, which %s refers to)", n, o.name)
				}
			}
		}
	}
	for _, n := range names {
		if db.tables[n] != nil {
			delete(db.tables, n)
			db.Applied++
		}
	}
	return nil
}

func (db *DB) create(sess *Session, p *sqlp) *SQLError {
	ine := p.word("IF", "NOT", "EXISTS")
	n, err := p.tableName()
	if err != nil {
		return err
	}
	if db.tables[n] != nil && !ine {
		return Err(1050, "42S01", "Table '%s' already exists", n)
	}
	t := &tdef{name: n, opts: map[string]string{}}
	if p.word("LIKE") {
		o, err := p.tableName()
		if err != nil {
			return err
		}
		if !p.end() {
			return p.bad()
		}
		src := db.tables[o]
		if src == nil {
			return Err(1146, "42S02", "Table 'db.%s' doesn't exist", o)
		}
		if db.tables[n] == nil {
			c := src.clone()
			c.name, c.fks, c.uid = n, nil, 0
			for _, x := range c.cols {
				x.uid = 0
			}
			delete(c.opts, "AUTO_INCREMENT")
			db.settle(c)
		}
		return nil
	}
	if !p.ch('(') {
		return p.bad()
	}
	var fks []*fkey
	for {
		it, err := p.item()
		if err != nil {
			return err
		}
		if err := t.add(it, -1); err != nil {
			return err
		}
		if it.fk != nil {
			fks = append(fks, it.fk)
		}
		if p.ch(',') {
			continue
		}
		if p.ch(')') {
			break
		}
		return p.bad()
	}
	if err := p.options(t.opts); err != nil {
		return err
	}
	if !p.end() {
		return p.bad()
	}
	if len(t.cols) == 0 {
		return Err(1113, "42000", "A table must have at least 1 column")
	}
	if db.tables[n] != nil {
		return nil // IF NOT EXISTS
	}
	for _, f := range fks {
		if err := db.addFK(sess, t, f); err != nil {
			return err
		}
	}
	if err := db.finish(t); err != nil {
		return err
	}
	db.settle(t)
	return nil
}

// item is a column, a key or a foreign key.
type item struct {
	c  *col
	k  *key
	fk *fkey
}

func (p *sqlp) item() (it item, err *SQLError) {
	sym, con := "", false
	if p.word("CONSTRAINT") {
		con = true
		if t := p.peek(); t.k == 'q' || t.k == 'i' && !reserved[strings.ToUpper(t.v)] {
			p.next()
			sym = t.v
		}
	}
	optName := func() string {
		if t := p.peek(); t.k == 'q' || t.k == 'i' && !reserved[strings.ToUpper(t.v)] {
			p.next()
			return t.v
		}
		return ""
	}
	switch {
	case p.word("PRIMARY", "KEY"):
		it.k = &key{kind: "PRIMARY", name: "PRIMARY"}
		if t := p.peek(); t.k == 'q' {
			p.next()
		}
	case p.word("UNIQUE"):
		_ = p.word("KEY") || p.word("INDEX")
		it.k = &key{kind: "UNIQUE", name: optName()}
		if it.k.name == "" {
			it.k.name = sym
		}
	case p.word("FOREIGN", "KEY"):
		it.fk = &fkey{name: sym, index: optName()}
		return it, p.foreign(it.fk)
	case con:
		return it, p.bad()
	case p.word("INDEX"), p.word("KEY"):
		it.k = &key{kind: "KEY", name: optName()}
	case p.word("FULLTEXT"):
		_ = p.word("KEY") || p.word("INDEX")
		it.k = &key{kind: "FULLTEXT", name: optName()}
	case p.word("SPATIAL"):
		_ = p.word("KEY") || p.word("INDEX")
		it.k = &key{kind: "SPATIAL", name: optName()}
	default:
		it.c = &col{}
		return it, p.column(it.c)
	}
	return it, p.keyRest(it.k)
}

func (p *sqlp) using(k *key) *SQLError {
	for p.word("USING") || p.word("TYPE") {
		t := p.next()
		switch strings.ToUpper(t.v) {
		case "BTREE", "HASH":
			if k.kind == "FULLTEXT" || k.kind == "SPATIAL" {
				return p.bad()
			}
			k.using = strings.ToUpper(t.v) // shown as it was given until MySQL 8
		default:
			return p.bad()
		}
	}
	return nil
}

func (p *sqlp) keyRest(k *key) *SQLError {
	if err := p.using(k); err != nil {
		return err
	}
	if !p.ch('(') {
		return p.bad()
	}
	for {
		n, err := p.name()
		if err != nil {
			return err
		}
		kc := keyCol{name: n}
		if p.ch('(') {
			t := p.next()
			if t.k != 'n' || !p.ch(')') {
				return p.bad()
			}
			kc.ln = t.v
		}
		_ = p.word("ASC") || p.word("DESC")
		for _, o := range k.cols {
			if strings.EqualFold(o.name, n) {
				return Err(1060, "42S21", "Duplicate column name '%s'", n)
			}
		}
		k.cols = append(k.cols, kc)
		if p.ch(',') {
			continue
		}
		if p.ch(')') {
			break
		}
		return p.bad()
	}
	for {
		switch {
		case p.word("COMMENT"):
			t := p.next()
			if t.k != 's' {
				return p.bad()
			}
			k.cmt = t.v
		case p.word("WITH", "PARSER"):
			if k.kind != "FULLTEXT" {
				return p.bad()
			}
			n, err := p.name()
			if err != nil {
				return err
			}
			if n != "ngram" && n != "mecab" {
				return Err(1128, "HY000", "Function '%s' is not defined", n)
			}
			k.parser = n
		default:
			i := p.i
			if err := p.using(k); err != nil {
				return err
			}
			if p.i == i {
				return nil
			}
		}
	}
}

func (p *sqlp) names() (l []string, err *SQLError) {
	if !p.ch('(') {
		return nil, p.bad()
	}
	for {
		n, err := p.name()
		if err != nil {
			return nil, err
		}
		l = append(l, n)
		if p.ch(',') {
			continue
		}
		if p.ch(')') {
			return l, nil
		}
		return nil, p.bad()
	}
}

func (p *sqlp) foreign(f *fkey) (err *SQLError) {
	if f.cols, err = p.names(); err != nil {
		return err
	}
	if !p.word("REFERENCES") {
		return p.bad()
	}
	if f.ref, err = p.tableName(); err != nil {
		return err
	}
	if f.refCols, err = p.names(); err != nil {
		return err
	}
	if p.word("MATCH") {
		if !p.word("FULL") && !p.word("PARTIAL") && !p.word("SIMPLE") {
			return p.bad()
		}
	}
	for p.word("ON") {
		var dst *string
		switch {
		case p.word("DELETE"):
			dst = &f.onDelete
		case p.word("UPDATE"):
			dst = &f.onUpdate
		default:
			return p.bad()
		}
		switch {
		case p.word("RESTRICT"):
		case p.word("CASCADE"):
			*dst = "CASCADE"
		case p.word("SET", "NULL"):
			*dst = "SET NULL"
		case p.word("NO", "ACTION"):
			*dst = "NO ACTION"
		default:
			return p.bad()
		}
	}
	if len(f.cols) != len(f.refCols) {
		return Err(1239, "42000", "Incorrect foreign key definition for '%s': Key reference and table reference don't match", f.name)
	}
	return nil
}

var typeNames = map[string]string{
	"TINYINT": "tinyint", "SMALLINT": "smallint", "MEDIUMINT": "mediumint", "INT": "int", "INTEGER": "int", "BIGINT": "bigint",
	"BOOL": "bool", "BOOLEAN": "bool", "REAL": "double", "DOUBLE": "double", "FLOAT": "float", "DECIMAL": "decimal", "DEC": "decimal", "NUMERIC": "decimal", "FIXED": "decimal",
	"DATE": "date", "TIME": "time", "TIMESTAMP": "timestamp", "DATETIME": "datetime", "YEAR": "year",
	"CHAR": "char", "VARCHAR": "varchar", "BINARY": "binary", "VARBINARY": "varbinary", "BIT": "bit",
	"TINYBLOB": "tinyblob", "BLOB": "blob", "MEDIUMBLOB": "mediumblob", "LONGBLOB": "longblob",
	"TINYTEXT": "tinytext", "TEXT": "text", "MEDIUMTEXT": "mediumtext", "LONGTEXT": "longtext",
	"ENUM": "enum", "SET": "set", "JSON": "json", "GEOMETRY": "geometry",
}

var intLen = map[string]int{"tinyint": 4, "smallint": 6, "mediumint": 9, "int": 11, "bigint": 20}

// column reads a column definition.
func (p *sqlp) column(c *col) *SQLError {
	n, err := p.name()
	if err != nil {
		return err
	}
	c.name = n
	t := p.next()
	typ := typeNames[strings.ToUpper(t.v)]
	if t.k != 'i' || typ == "" {
		p.i--
		return p.bad()
	}
	c.typ = typ
	if p.ch('(') {
		if typ == "enum" || typ == "set" {
			for {
				t := p.next()
				if t.k != 's' {
					return p.bad()
				}
				c.vals = append(c.vals, t.v)
				if p.ch(',') {
					continue
				}
				if p.ch(')') {
					break
				}
				return p.bad()
			}
		} else {
			t := p.next()
			if t.k != 'n' {
				return p.bad()
			}
			c.ln = t.v
			if p.ch(',') {
				t = p.next()
				if t.k != 'n' || typ != "decimal" && typ != "float" && typ != "double" {
					return p.bad()
				}
				c.dec = t.v
			} else if typ == "double" {
				return p.bad()
			}
			if !p.ch(')') {
				return p.bad()
			}
		}
	}
	switch typ {
	case "enum", "set":
		if c.vals == nil {
			return p.bad()
		}
	case "varchar", "varbinary":
		if c.ln == "" {
			return p.bad()
		}
	case "date", "bool", "json", "geometry", "tinyblob", "tinytext", "mediumblob", "mediumtext", "longblob", "longtext":
		if c.ln != "" {
			return p.bad()
		}
	}
	for {
		switch {
		case p.word("UNSIGNED"):
			if !isNum(typ) {
				p.i--
				return p.bad()
			}
			c.unsigned = true
			continue
		case p.word("ZEROFILL"):
			if !isNum(typ) {
				p.i--
				return p.bad()
			}
			c.unsigned, c.zerofill = true, true
			continue
		case p.word("BINARY"):
			if !isChar(typ) {
				p.i--
				return p.bad()
			}
			c.binary = true
			continue
		case p.word("CHARACTER", "SET"), p.word("CHARSET"):
			t := p.next()
			if t.k != 'i' && t.k != 'q' && t.k != 's' || !isChar(typ) {
				p.i--
				return p.bad()
			}
			c.charset = strings.ToLower(t.v)
			if !charsets[c.charset] {
				return Err(1115, "42000", "Unknown character set: '%s'", t.v)
			}
			continue
		}
		break
	}
	for {
		switch {
		case p.word("NOT", "NULL"):
			c.notNull, c.null = true, false
		case p.word("NULL"):
			c.notNull, c.null = false, true
		case p.word("COLLATE"):
			t := p.next()
			if t.k != 'i' && t.k != 'q' && t.k != 's' || !isChar(typ) {
				return p.bad()
			}
			c.collate = strings.ToLower(t.v)
			if !charsets[strings.SplitN(c.collate, "_", 2)[0]] {
				return Err(1273, "HY000", "Unknown collation: '%s'", t.v)
			}
			if c.charset != "" && strings.SplitN(c.collate, "_", 2)[0] != c.charset {
				return Err(1253, "42000", "COLLATION '%s' is not valid for CHARACTER SET '%s'", c.collate, c.charset)
			}
		case p.word("DEFAULT"):
			if err := p.dflt(c); err != nil {
				return err
			}
		case p.word("ON", "UPDATE"):
			s, ok := p.now()
			if !ok {
				return p.bad()
			}
			if !isTime(typ) {
				return Err(1294, "HY000", "Invalid ON UPDATE clause for '%s' column", c.name)
			}
			c.onUpdate = s
		case p.word("AUTO_INCREMENT"):
			c.auto = true
		case p.word("UNIQUE"):
			p.word("KEY")
			c.uniq = true
		case p.word("PRIMARY"):
			p.word("KEY")
			c.prim = true
		case p.word("KEY"):
			c.prim = true
		case p.word("COMMENT"):
			t := p.next()
			if t.k != 's' {
				p.i--
				return p.bad()
			}
			c.comment = t.v
		default:
			return c.canon()
		}
	}
}

var charsets = map[string]bool{"latin1": true, "utf8": true, "utf8mb4": true, "ascii": true, "binary": true, "ucs2": true, "cp932": true, "sjis": true}

func (p *sqlp) now() (string, bool) {
	if !p.word("CURRENT_TIMESTAMP") && !p.word("LOCALTIMESTAMP") && !p.word("NOW") {
		return "", false
	}
	now := strings.EqualFold(p.l[p.i-1].v, "NOW")
	s := "CURRENT_TIMESTAMP"
	if p.ch('(') {
		if t := p.peek(); t.k == 'n' {
			p.next()
			s += "(" + t.v + ")"
		}
		if !p.ch(')') {
			return "", false
		}
	} else if now {
		return "", false
	}
	return s, true
}

func (p *sqlp) dflt(c *col) *SQLError {
	c.hasDef, c.defNull, c.defExpr, c.def = true, false, false, ""
	if s, ok := p.now(); ok {
		c.def, c.defExpr = s, true
		return nil
	}
	sign := ""
	if p.ch('-') {
		sign = "-"
	} else {
		p.ch('+')
	}
	t := p.next()
	switch {
	case t.k == 'n':
		c.def = sign + t.v
	case sign != "":
		return p.bad()
	case t.k == 's':
		c.def = t.v
	case t.k == 'i' && strings.EqualFold(t.v, "NULL"):
		c.defNull = true
	case t.k == 'i' && strings.EqualFold(t.v, "TRUE"):
		c.def = "1"
	case t.k == 'i' && strings.EqualFold(t.v, "FALSE"):
		c.def = "0"
	default:
		p.i--
		return p.bad()
	}
	return nil
}

// canon puts a column in the form in which the server keeps it.
// fold makes values that the column's collation compares as equal the same.
func (c *col) fold(v string) string {
	if c.binary || strings.HasSuffix(c.collate, "_bin") {
		return v
	}
	return strings.ToLower(v)
}

func (c *col) canon() *SQLError {
	bad := Err(1067, "42000", "Invalid default value for '%s'", c.name)
	switch c.typ {
	case "bool":
		c.typ, c.ln = "tinyint", "1"
	case "char", "binary", "bit":
		if c.ln == "" {
			c.ln = "1"
		}
	case "year":
		c.ln = "4"
	case "decimal":
		if c.ln == "" {
			c.ln = "10"
		}
		if c.dec == "" {
			c.dec = "0"
		}
	case "text", "blob":
		if c.ln != "" {
			k, _ := strconv.Atoi(c.ln)
			if c.typ == "text" {
				k *= 4
			}
			c.ln = ""
			switch {
			case k == 0 || k > 255 && k <= 65535:
			case k <= 255:
				c.typ = "tiny" + c.typ
			case k <= 1<<24-1:
				c.typ = "medium" + c.typ
			default:
				c.typ = "long" + c.typ
			}
		}
	case "float":
		if c.ln != "" && c.dec == "" {
			if k, _ := strconv.Atoi(c.ln); k > 24 {
				c.typ = "double"
			}
			c.ln = ""
		}
	case "timestamp", "datetime", "time":
		if c.ln != "" {
			if k, err := strconv.Atoi(c.ln); err != nil || k > 6 {
				return Err(1426, "42000", "Too-big precision %s specified for '%s'. Maximum is 6.", c.ln, c.name)
			} else if k == 0 {
				c.ln = ""
			}
		}
	}
	if isInt(c.typ) && c.ln == "" {
		k := intLen[c.typ]
		if c.unsigned && c.typ != "bigint" {
			k--
		}
		c.ln = strconv.Itoa(k)
	}
	lim := map[string]int{"char": 255, "binary": 255, "varchar": 16383, "varbinary": 65535, "bit": 64, "decimal": 65, "tinyint": 255, "smallint": 255, "mediumint": 255, "int": 255, "bigint": 255}
	if m := lim[c.typ]; m > 0 {
		if k, err := strconv.Atoi(c.ln); err != nil || k > m {
			return Err(1074, "42000", "Column length too big for column '%s' (max = %d)", c.name, m)
		}
	}
	if c.dec != "" {
		m, _ := strconv.Atoi(c.ln)
		d, err := strconv.Atoi(c.dec)
		if err != nil || d > m {
			return Err(1427, "42000", "For float(M,D), double(M,D) or decimal(M,D), M must be >= D (column '%s').", c.name)
		}
	}
	seen := map[string]bool{}
	for _, v := range c.vals {
		if seen[c.fold(v)] {
			return Err(1291, "HY000", "Column '%s' has duplicated value '%s' in %s", c.name, v, strings.ToUpper(c.typ))
		}
		seen[c.fold(v)] = true
	}
	if c.auto {
		if !isInt(c.typ) && c.typ != "float" && c.typ != "double" {
			return Err(1063, "42000", "Incorrect column specifier for column '%s'", c.name)
		}
		if c.hasDef {
			return bad
		}
		c.notNull = true
	}
	if c.hasDef && c.defNull {
		if c.notNull {
			return bad
		}
	} else if c.hasDef {
		switch {
		case isBlob(c.typ), c.typ == "json", c.typ == "geometry":
			return Err(1101, "42000", "BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value", c.name)
		case c.defExpr:
			want := "CURRENT_TIMESTAMP"
			if c.ln != "" {
				want += "(" + c.ln + ")"
			}
			if !isTime(c.typ) || c.def != want {
				return bad
			}
		case isInt(c.typ):
			v := strings.TrimSpace(c.def)
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				return bad
			}
			if k, err := strconv.ParseInt(v, 10, 64); err == nil {
				c.def = strconv.FormatInt(k, 10)
			} else if k, err := strconv.ParseUint(v, 10, 64); err == nil {
				c.def = strconv.FormatUint(k, 10)
			} else {
				c.def = strconv.FormatFloat(f, 'f', 0, 64)
			}
			if c.unsigned && f < 0 {
				return bad
			}
			if c.zerofill {
				if k, _ := strconv.Atoi(c.ln); len(c.def) < k {
					c.def = strings.Repeat("0", k-len(c.def)) + c.def
				}
			}
		case c.typ == "decimal":
			f, err := strconv.ParseFloat(strings.TrimSpace(c.def), 64)
			if err != nil {
				return bad
			}
			d, _ := strconv.Atoi(c.dec)
			c.def = strconv.FormatFloat(f, 'f', d, 64)
		case c.typ == "float" || c.typ == "double":
			f, err := strconv.ParseFloat(strings.TrimSpace(c.def), 64)
			if err != nil {
				return bad
			}
			if c.dec != "" {
				d, _ := strconv.Atoi(c.dec)
				c.def = strconv.FormatFloat(f, 'f', d, 64)
			} else {
				c.def = strconv.FormatFloat(f, 'g', -1, 64)
			}
		case c.typ == "enum":
			ok := false
			for _, v := range c.vals {
				if c.fold(v) == c.fold(c.def) {
					ok, c.def = true, v
					break
				}
			}
			if !ok {
				return bad
			}
		case c.typ == "set":
			for _, d := range strings.Split(c.def, ",") {
				ok := d == ""
				for _, v := range c.vals {
					ok = ok || c.fold(v) == c.fold(d)
				}
				if !ok {
					return bad
				}
			}
		case c.typ == "char" || c.typ == "varchar" || c.typ == "binary" || c.typ == "varbinary":
			if k, _ := strconv.Atoi(c.ln); len([]rune(c.def)) > k {
				return bad
			}
		case isTime(c.typ) || c.typ == "date" || c.typ == "time" || c.typ == "year":
			if c.def == "" || c.def[0] < '0' || c.def[0] > '9' {
				return bad
			}
			for _, r := range c.def {
				if !(r >= '0' && r <= '9' || strings.ContainsRune("-: .", r)) {
					return bad
				}
			}
		}
	}
	return nil
}

func (p *sqlp) options(o map[string]string) *SQLError {
	for {
		p.ch(',')
		if p.peek().k == 0 || p.peek().k == ';' {
			return nil
		}
		def := p.word("DEFAULT")
		n := ""
		switch {
		case p.word("CHARACTER", "SET"), p.word("CHARSET"):
			n = "CHARSET"
		case p.word("COLLATE"):
			n = "COLLATE"
		case def:
			return p.bad()
		case p.word("DATA", "DIRECTORY"):
			n = "DATA DIRECTORY"
		case p.word("INDEX", "DIRECTORY"):
			n = "INDEX DIRECTORY"
		default:
			t := p.peek()
			n = strings.ToUpper(t.v)
			switch n {
			case "ENGINE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "CHECKSUM", "COMMENT", "CONNECTION", "DELAY_KEY_WRITE", "INSERT_METHOD", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "PACK_KEYS", "PASSWORD", "ROW_FORMAT", "STATS_AUTO_RECALC", "STATS_PERSISTENT", "STATS_SAMPLE_PAGES":
			default:
				return p.bad()
			}
			if t.k != 'i' {
				return p.bad()
			}
			p.next()
		}
		p.ch('=')
		v := p.next()
		if v.k != 'i' && v.k != 'n' && v.k != 's' && v.k != 'q' {
			p.i--
			return p.bad()
		}
		switch n {
		case "COMMENT", "CONNECTION", "PASSWORD", "DATA DIRECTORY", "INDEX DIRECTORY":
			if v.k != 's' {
				return p.bad()
			}
		case "CHARSET":
			v.v = strings.ToLower(v.v)
			if !charsets[v.v] {
				return Err(1115, "42000", "Unknown character set: '%s'", v.v)
			}
		case "COLLATE":
			v.v = strings.ToLower(v.v)
			if !charsets[strings.SplitN(v.v, "_", 2)[0]] {
				return Err(1273, "HY000", "Unknown collation: '%s'", v.v)
			}
		case "ROW_FORMAT":
			v.v = strings.ToUpper(v.v)
		case "ENGINE":
			if !strings.EqualFold(v.v, "InnoDB") {
				return Err(1286, "42000", "Unknown storage engine '%s'", v.v)
			}
			v.v = "InnoDB"
		case "STATS_PERSISTENT", "STATS_AUTO_RECALC", "PACK_KEYS":
			if strings.EqualFold(v.v, "DEFAULT") {
				v.v = ""
			}
		}
		o[n] = v.v
		if n == "COLLATE" && o["CHARSET"] != "" && strings.SplitN(v.v, "_", 2)[0] != o["CHARSET"] {
			return Err(1253, "42000", "COLLATION '%s' is not valid for CHARACTER SET '%s'", v.v, o["CHARSET"])
		}
	}
}

// add puts a column (at a position, -1: last) or key into a table.
func (t *tdef) add(it item, at int) *SQLError {
	switch {
	case it.c != nil:
		c := it.c
		if _, o := t.col(c.name); o != nil {
			return Err(1060, "42S21", "Duplicate column name '%s'", c.name)
		}
		if at < 0 {
			at = len(t.cols)
		}
		t.cols = append(t.cols[:at:at], append([]*col{c}, t.cols[at:]...)...)
		if c.prim {
			c.prim = false
			if err := t.add(item{k: &key{kind: "PRIMARY", name: "PRIMARY", cols: []keyCol{{name: c.name}}}}, -1); err != nil {
				return err
			}
		}
		if c.uniq {
			c.uniq = false
			if err := t.add(item{k: &key{kind: "UNIQUE", cols: []keyCol{{name: c.name}}}}, -1); err != nil {
				return err
			}
		}
	case it.k != nil:
		k := it.k
		if k.kind == "PRIMARY" {
			if _, o := t.key("PRIMARY"); o != nil {
				return Err(1068, "42000", "Multiple primary key defined")
			}
		} else if strings.EqualFold(k.name, "PRIMARY") {
			return Err(1280, "42000", "Incorrect index name '%s'", k.name)
		}
		if k.name == "" {
			k.name = t.freeKeyName(k.cols[0].name)
		}
		if i, o := t.key(k.name); o != nil {
			if !o.gen {
				return Err(1061, "42000", "Duplicate key name '%s'", k.name)
			}
			t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
		}
		t.keys = append(t.keys, k)
		// a key made for a foreign key goes when another one serves
		for i := 0; i < len(t.keys); i++ {
			o := t.keys[i]
			if o == k || !o.gen {
				continue
			}
			var l []string
			for _, c := range o.cols {
				l = append(l, c.name)
			}
			if k.covers(l) {
				t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
				i--
			}
		}
	}
	return nil
}

func (t *tdef) freeKeyName(n string) string {
	x := n
	for i := 2; ; i++ {
		if _, o := t.key(x); o == nil && !strings.EqualFold(x, "PRIMARY") {
			return x
		}
		x = fmt.Sprintf("%s_%d", n, i)
	}
}

func (db *DB) addFK(sess *Session, t *tdef, f *fkey) *SQLError {
	if f.name == "" {
		for i := 1; ; i++ {
			f.name = fmt.Sprintf("%s_ibfk_%d", t.name, i)
			if _, o := t.fk(f.name); o == nil {
				break
			}
		}
	}
	for _, o := range db.tables {
		if o.name == t.name {
			continue
		}
		if _, x := o.fk(f.name); x != nil {
			return Err(1022, "23000", "Can't write; duplicate key in table '%s' (constraint %s is in %s)", t.name, f.name, o.name)
		}
	}
	if _, x := t.fk(f.name); x != nil {
		return Err(1826, "HY000", "Duplicate foreign key constraint name '%s'", f.name)
	}
	no := func(why string) *SQLError {
		return Err(1215, "HY000", "Cannot add foreign key constraint (%s: %s)", f.name, why)
	}
	for i, n := range f.cols {
		_, c := t.col(n)
		if c == nil {
			return Err(1072, "42000", "Key column '%s' doesn't exist in table", n)
		}
		if (f.onDelete == "SET NULL" || f.onUpdate == "SET NULL") && c.notNull {
			return no("SET NULL on a NOT NULL column")
		}
		f.cols[i] = c.name
	}
	par := db.tables[f.ref]
	if f.ref == t.name {
		par = t
	}
	if par == nil {
		if !sess.NoFK {
			return no("no table " + f.ref)
		}
	} else {
		for i, n := range f.refCols {
			_, pc := par.col(n)
			if pc == nil {
				return no("no column " + n + " in " + f.ref)
			}
			_, c := t.col(f.cols[i])
			if pc.typ != c.typ || pc.unsigned != c.unsigned {
				return no("types of " + c.name + " and " + pc.name + " differ")
			}
			f.refCols[i] = pc.name
		}
		if par.covered(f.refCols) == nil {
			return no("no index on the referenced columns")
		}
	}
	if t.covered(f.cols) == nil {
		k := &key{kind: "KEY", name: f.name, gen: true}
		if f.index != "" {
			k.name = f.index
		}
		for _, c := range f.cols {
			k.cols = append(k.cols, keyCol{name: c})
		}
		if _, o := t.key(k.name); o != nil {
			return Err(1061, "42000", "Duplicate key name '%s'", k.name)
		}
		t.keys = append(t.keys, k)
	}
	t.fks = append(t.fks, f)
	return nil
}

// finish checks a whole table.
func (db *DB) finish(t *tdef) *SQLError {
	for _, k := range t.keys {
		for i := range k.cols {
			kc := &k.cols[i]
			_, c := t.col(kc.name)
			if c == nil {
				return Err(1072, "42000", "Key column '%s' doesn't exist in table", kc.name)
			}
			kc.name = c.name
			switch {
			case c.typ == "json":
				return Err(3152, "42000", "JSON column '%s' cannot be used in key specification.", c.name)
			case k.kind == "FULLTEXT":
				if c.typ != "char" && c.typ != "varchar" && !isText(c.typ) {
					return Err(1283, "HY000", "Column '%s' cannot be part of FULLTEXT index", c.name)
				}
			case k.kind == "SPATIAL":
				if c.typ != "geometry" || len(k.cols) != 1 {
					return Err(1687, "42000", "A SPATIAL index may only contain a geometrical type column")
				}
				if !c.notNull {
					return Err(1252, "42000", "All parts of a SPATIAL index must be NOT NULL")
				}
			case isBlob(c.typ) && kc.ln == "", c.typ == "geometry" && kc.ln == "":
				return Err(1170, "42000", "BLOB/TEXT column '%s' used in key specification without a key length", c.name)
			case kc.ln != "":
				n, err := strconv.Atoi(kc.ln)
				full, _ := strconv.Atoi(c.ln)
				if err != nil || n == 0 {
					return Err(1391, "HY000", "Key part '%s' length cannot be 0", c.name)
				}
				if c.typ != "char" && c.typ != "varchar" && c.typ != "binary" && c.typ != "varbinary" && !isBlob(c.typ) || full > 0 && n > full {
					return Err(1089, "HY000", "Incorrect prefix key; the used key part isn't a string, the used length is longer than the key part, or the storage engine doesn't support unique prefix keys")
				}
				if full > 0 && n == full {
					kc.ln = "" // the whole column
				}
			}
			if k.kind == "PRIMARY" {
				switch {
				case c.hasDef && c.defNull:
					return Err(1067, "42000", "Invalid default value for '%s'", c.name)
				case c.null:
					return Err(1171, "42000", "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
				}
				c.notNull = true
			}
		}
	}
	autos := 0
	for _, c := range t.cols {
		if !c.auto {
			continue
		}
		autos++
		ok := false
		for _, k := range t.keys {
			ok = ok || k.covers([]string{c.name})
		}
		if !ok || autos > 1 {
			return Err(1075, "42000", "Incorrect table definition; there can be only one auto column and it must be defined as a key")
		}
	}
	return nil
}

func (db *DB) alter(sess *Session, p *sqlp) *SQLError {
	n, err := p.tableName()
	if err != nil {
		return err
	}
	old := db.tables[n]
	if old == nil {
		return Err(1146, "42S02", "Table 'db.%s' doesn't exist", n)
	}
	t := old.clone()
	place := func(c string) (int, *SQLError) {
		if p.word("FIRST") {
			return 0, nil
		}
		if p.word("AFTER") {
			a, err := p.name()
			if err != nil {
				return 0, err
			}
			i, o := t.col(a)
			if o == nil || strings.EqualFold(a, c) {
				return 0, Err(1054, "42S22", "Unknown column '%s' in '%s'", a, n)
			}
			return i + 1, nil
		}
		return -1, nil
	}
	var fks []*fkey
	for {
		switch {
		case p.word("ADD"):
			isCol := p.word("COLUMN")
			it, err := p.item()
			if err != nil {
				return err
			}
			if isCol && it.c == nil {
				return p.bad()
			}
			at := -1
			if it.c != nil {
				if at, err = place(it.c.name); err != nil {
					return err
				}
			}
			if err := t.add(it, at); err != nil {
				return err
			}
			if it.fk != nil {
				fks = append(fks, it.fk)
			}
		case p.word("DROP", "PRIMARY", "KEY"):
			i, k := t.key("PRIMARY")
			if k == nil {
				return cantDrop("PRIMARY")
			}
			t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
		case p.word("DROP", "FOREIGN", "KEY"):
			s, err := p.name()
			if err != nil {
				return err
			}
			i, f := t.fk(s)
			if f == nil {
				return cantDrop(s)
			}
			t.fks = append(t.fks[:i:i], t.fks[i+1:]...)
		case p.word("DROP", "INDEX"), p.word("DROP", "KEY"):
			s, err := p.name()
			if err != nil {
				return err
			}
			i, k := t.key(s)
			if k == nil {
				return cantDrop(s)
			}
			t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
		case p.word("DROP"):
			p.word("COLUMN")
			s, err := p.name()
			if err != nil {
				return err
			}
			if err := db.dropCol(t, s); err != nil {
				return err
			}
		case p.word("CHANGE"), p.word("MODIFY"):
			change := strings.EqualFold(p.l[p.i-1].v, "CHANGE")
			p.word("COLUMN")
			was := ""
			if change {
				if was, err = p.name(); err != nil {
					return err
				}
			}
			c := &col{}
			if err := p.column(c); err != nil {
				return err
			}
			if !change {
				was = c.name
			}
			if err := db.change(sess, t, was, c); err != nil {
				return err
			}
			at, err := place(c.name)
			if err != nil {
				return err
			}
			if at >= 0 {
				i, _ := t.col(c.name)
				t.cols = append(t.cols[:i:i], t.cols[i+1:]...)
				if at > i {
					at--
				}
				t.cols = append(t.cols[:at:at], append([]*col{c}, t.cols[at:]...)...)
			}
		default:
			i := p.i
			if err := p.options(t.opts); err != nil {
				return err
			}
			if p.i == i {
				return p.bad()
			}
		}
		if p.end() {
			break
		}
		if !p.ch(',') {
			return p.bad()
		}
	}
	for _, f := range fks {
		if err := db.addFK(sess, t, f); err != nil {
			return err
		}
	}
	if !sess.NoFK {
		for _, f := range t.fks {
			if k := t.covered(f.cols); k == nil {
				return Err(1553, "HY000", "Cannot drop index needed in a foreign key constraint (%s)", f.name)
			}
		}
		for _, o := range db.tables {
			if o.name == n {
				o = t
			}
			for _, f := range o.fks {
				if f.ref == n && t.covered(f.refCols) == nil {
					return Err(1553, "HY000", "Cannot drop index needed in a foreign key constraint (%s of %s)", f.name, o.name)
				}
			}
		}
	}
	if err := db.finish(t); err != nil {
		return err
	}
	db.settle(t)
	return nil
}

func cantDrop(n string) *SQLError {
	return Err(1091, "42000", "Can't DROP '%s'; check that column/key exists", n)
}

func (db *DB) dropCol(t *tdef, n string) *SQLError {
	i, c := t.col(n)
	if c == nil {
		return cantDrop(n)
	}
	if len(t.cols) == 1 {
		return Err(1090, "42000", "You can't delete all columns with ALTER TABLE; use DROP TABLE instead")
	}
	for _, f := range t.fks {
		for _, x := range f.cols {
			if strings.EqualFold(x, n) {
				return Err(1828, "HY000", "Cannot drop column '%s': needed in a foreign key constraint '%s'", n, f.name)
			}
		}
	}
	for _, o := range db.tables {
		for _, f := range o.fks {
			for _, x := range f.refCols {
				if f.ref == t.name && strings.EqualFold(x, n) {
					return Err(1829, "HY000", "Cannot drop column '%s': needed in a foreign key constraint '%s' of table '%s'", n, f.name, o.name)
				}
			}
		}
	}
	t.cols = append(t.cols[:i:i], t.cols[i+1:]...)
	var ks []*key
	for _, k := range t.keys {
		var cs []keyCol
		for _, x := range k.cols {
			if !strings.EqualFold(x.name, n) {
				cs = append(cs, x)
			}
		}
		k.cols = cs
		if len(cs) > 0 {
			ks = append(ks, k)
		}
	}
	t.keys = ks
	return nil
}

func (db *DB) change(sess *Session, t *tdef, was string, c *col) *SQLError {
	i, o := t.col(was)
	if o == nil {
		return Err(1054, "42S22", "Unknown column '%s' in '%s'", was, t.name)
	}
	if j, x := t.col(c.name); x != nil && j != i {
		return Err(1060, "42S21", "Duplicate column name '%s'", c.name)
	}
	if !sess.NoFK && t.showType(o) != t.showType(c) {
		for _, f := range t.fks {
			for _, x := range f.cols {
				if strings.EqualFold(x, was) {
					return Err(1832, "HY000", "Cannot change column '%s': used in a foreign key constraint '%s'", was, f.name)
				}
			}
		}
		for _, u := range db.tables {
			for _, f := range u.fks {
				for _, x := range f.refCols {
					if f.ref == t.name && strings.EqualFold(x, was) {
						return Err(1833, "HY000", "Cannot change column '%s': used in a foreign key constraint '%s' of table '%s'", was, f.name, u.name)
					}
				}
			}
		}
	}
	c.uid = o.uid
	t.cols[i] = c
	for _, k := range t.keys {
		for j := range k.cols {
			if strings.EqualFold(k.cols[j].name, was) {
				k.cols[j].name = c.name
			}
		}
	}
	for _, f := range t.fks {
		for j := range f.cols {
			if strings.EqualFold(f.cols[j], was) {
				f.cols[j] = c.name
			}
		}
	}
	prim, uniq := c.prim, c.uniq
	c.prim, c.uniq = false, false
	if prim {
		if err := t.add(item{k: &key{kind: "PRIMARY", name: "PRIMARY", cols: []keyCol{{name: c.name}}}}, -1); err != nil {
			return err
		}
	}
	if uniq {
		return t.add(item{k: &key{kind: "UNIQUE", cols: []keyCol{{name: c.name}}}}, -1)
	}
	return nil
}

// DropDefs gives a CREATE TABLE statement with one definition less, in every way.
func DropDefs(q string) (l []string) {
	i := strings.IndexByte(q, '(')
	if i < 0 {
		return
	}
	var at []int // offsets of the commas
	depth, end := 1, -1
	for j := i + 1; j < len(q) && end < 0; {
		switch c := q[j]; {
		case c == '\'' || c == '"' || c == '`':
			_, n, ok := quoted(q[j:])
			if !ok {
				return
			}
			j += n
			continue
		case c == '(':
			depth++
		case c == ')':
			if depth--; depth == 0 {
				end = j
			}
		case c == ',' && depth == 1:
			at = append(at, j)
		}
		j++
	}
	if end < 0 || len(at) == 0 {
		return
	}
	cuts := append(append([]int{i}, at...), end)
	for k := 0; k+1 < len(cuts); k++ {
		switch k {
		case 0:
			l = append(l, q[:i+1]+q[cuts[1]+1:])
		default:
			l = append(l, q[:cuts[k]]+q[cuts[k+1]:])
		}
	}
	return
}
