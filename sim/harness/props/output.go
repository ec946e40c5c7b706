//go:build go1.22

package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/gen"
	"github.com/schemalex/schemalex/verifsim/simk"
)

func init() {
	core.Register("C09", output{})
	core.Describe("C09", core.Meta{
		Rule:   "One call of diff (strings, statements, files, sources), lint or format writes to a destination that delays, takes only part of a write or fails, at a planned write, while its inputs may fail too; the bytes are compared with those of the same call without faults.",
		Real:   []string{"schemalex diff, lint, format, sources", "bytes.Buffer, io.Copy"},
		Stub:   []string{"destination writer", "file system", "goroutine scheduler decisions"},
		Assume: []string{"the destination follows the io.Writer contract: a short write comes with an error"},
	})
	core.Register("C13", torn{})
	core.Describe("C13", core.Meta{
		Rule:   "A schema file (also written like a dump, with statements that are skipped before each table) loses data the way crashes lose it (cut inside a table definition or a quoted table option; or everything from some offset, or one aligned block, reads as zero bytes) and goes through the file and reader sources, Parse, ParseFile, lint and diff, on either side, against the intact schema; all must reject it and write nothing.",
		Real:   []string{"schemalex file source, lexer, parser, diff, lint"},
		Stub:   []string{"file system with crash images", "goroutine scheduler decisions"},
		Assume: []string{"a cut between two definitions, or after the closing parenthesis of one, leaves a well-formed smaller file and cannot be detected"},
	})
}

// ---- C09 ---------------------------------------------------------------------

type output struct{}

type outputData struct {
	Op    string    `json:"op"`
	A     core.Text `json:"a"`
	B     core.Text `json:"b,omitempty"`
	Txn   bool      `json:"txn,omitempty"`
	Ind   int       `json:"indent,omitempty"`
	Chunk int       `json:"chunk,omitempty"`
	// Cancel is when the context given to lint is cancelled: at this write, or
	// before the call.
	Cancel  int `json:"cancel,omitempty"`
	Missing int `json:"missing,omitempty"` // this file does not exist (1: the first)
}

func (output) Name() string { return "library-output" }

func (output) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d outputData
	d.Op = []string{"strings", "statements", "files", "sources", "sources", "lint", "lint", "lint-file", "format", "format-all", "format-parts", "built"}[r.Intn(12)]
	s := gen.Any(r, []int{1, 3, 6}[r.Intn(3)], 6)
	if r.Intn(12) == 0 {
		// output beyond the usual buffer sizes
		for s = gen.Any(r, 12, 8); len(s.SQL()) > 12000; {
			s = gen.Any(r, 12, 6)
		}
	}
	d.A = core.Text(s.SQL())
	d.B = core.Text(gen.Evolve(r, s).SQL())
	d.Txn = r.Intn(2) == 0
	d.Ind = r.Intn(3)
	d.Chunk = []int{0, 1 + r.Intn(200)}[r.Intn(2)]
	var fs []core.Fault
	for n := []int{0, 1, 1, 1, 2}[r.Intn(5)]; n > 0; n-- {
		nth := 1 + r.Intn([]int{1, 3, 12}[r.Intn(3)])
		switch r.Intn(4) {
		case 0:
			switch d.Op {
			case "files", "lint-file":
				p := []string{"/sim/a.sql", "/sim/b.sql"}[r.Intn(2)]
				fs = append(fs, core.Fault{Site: []string{"open:", "read:", "read:"}[r.Intn(3)] + p, Kind: []string{"eio", "enoent", "eintr", "estale"}[r.Intn(4)], Nth: 1 + r.Intn(2)})
			case "sources", "lint":
				fs = append(fs, core.Fault{Site: []string{"a", "b"}[r.Intn(2)], Kind: []string{"error", "unexpected-eof", "data+error", "closed-pipe"}[r.Intn(4)], Nth: nth, Arg: r.Intn(100)})
			}
		default:
			fs = append(fs, core.Fault{Site: "dst", Kind: []string{"error", "short", "full+error", "timeout", "delay"}[r.Intn(5)], Nth: nth, Arg: r.Intn(80)})
		}
	}
	if r.Intn(8) == 0 {
		// an input fails where it could have ended
		i := r.Intn(2)
		t := []string{string(d.A), string(d.B)}[i]
		if d.Op == "lint" || d.Op == "lint-file" {
			i, t = 0, string(d.A)
		}
		switch n := stmtEnd(r, t); d.Op {
		case "sources", "lint":
			d.Chunk = 0
			fs = []core.Fault{{Site: []string{"a", "b"}[i], Kind: []string{"data+error", "data+unexpected-eof", "data+unexpected-eof", "data+timeout", "data+closed-pipe"}[r.Intn(5)], Nth: 1, Arg: n}}
		case "files", "lint-file":
			p := "read:" + []string{"/sim/a.sql", "/sim/b.sql"}[i]
			fs = []core.Fault{{Site: p, Kind: "short", Nth: 1, Arg: n}, {Site: p, Kind: "eio", Nth: 2}}
		}
	}
	if r.Intn(8) == 0 {
		d.B = core.Text(gen.Damage(r, string(d.B), 1))
	}
	if r.Intn(12) == 0 {
		d.A = core.Text(gen.Damage(r, string(d.A), 1))
	}
	if strings.HasPrefix(d.Op, "lint") && r.Intn(4) == 0 {
		d.Cancel = []int{-1, 1, 1 + r.Intn(12)}[r.Intn(3)]
	}
	if (d.Op == "files" || d.Op == "lint-file") && r.Intn(10) == 0 {
		d.Missing = 1
		if d.Op == "files" {
			d.Missing += r.Intn(2)
		}
	}
	return d, fs, core.RandSched(r, r.Intn(4) == 0)
}

func (output) Run(e *core.Env) {}

// cancelAt cancels a context at some write.
type cancelAt struct {
	io.Writer
	n      int
	cancel func()
}

func (c *cancelAt) Write(p []byte) (int, error) {
	if c.n--; c.n == 0 {
		c.cancel()
	}
	return c.Writer.Write(p)
}

func (d *outputData) do(e *core.Env, dst io.Writer, faults bool) error {
	rd := func(site string, t core.Text) schemalex.SchemaSource {
		if !faults {
			return schemalex.NewReaderSource(strings.NewReader(string(t)))
		}
		return schemalex.NewReaderSource(&stream{e: e, site: site, data: []byte(t), chunk: d.Chunk})
	}
	opts := []schemalex.Option{diff.WithTransaction(d.Txn)}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if faults && d.Cancel != 0 && strings.HasPrefix(d.Op, "lint") {
		dst = &cancelAt{Writer: dst, n: d.Cancel, cancel: func() { e.Fired("context/cancelled"); cancel() }}
		if d.Cancel < 0 {
			e.Fired("context/cancelled")
			cancel()
		}
	}
	switch d.Op {
	case "strings":
		return diff.Strings(dst, string(d.A), string(d.B), opts...)
	case "statements":
		p := schemalex.New()
		a, err := p.ParseString(string(d.A))
		if err != nil {
			return err
		}
		b, err := p.ParseString(string(d.B))
		if err != nil {
			return err
		}
		return diff.Statements(dst, a, b, opts...)
	case "built":
		a, err := schemalex.New().ParseString(string(d.A))
		if err != nil {
			return err
		}
		b, err := schemalex.New().ParseString(string(d.B))
		if err != nil {
			return err
		}
		if b, err = d.spoil(b); err != nil {
			return err
		}
		err = diff.Statements(dst, a, b, opts...)
		if err == nil && faults {
			e.Fail("error-lost", "a part of the new schema cannot be written, yet diff returned nil")
		}
		return err
	case "files":
		return diff.Files(dst, "/sim/a.sql", "/sim/b.sql", opts...)
	case "sources":
		return diff.Sources(dst, rd("a", d.A), rd("b", d.B), opts...)
	case "lint":
		return lint.New().Run(ctx, rd("a", d.A), dst, lint.WithIndent(" ", d.Ind))
	case "lint-file":
		return lint.New().Run(ctx, schemalex.NewLocalFileSource("/sim/a.sql"), dst, lint.WithIndent("\t", d.Ind))
	case "format":
		s, err := schemalex.New().ParseString(string(d.A))
		if err != nil {
			return err
		}
		for _, st := range s {
			if err := format.SQL(dst, st, format.WithIndent(" ", d.Ind)); err != nil {
				return err
			}
		}
		return nil
	case "format-all", "format-parts":
		s, err := schemalex.New().ParseString(string(d.A))
		if err != nil {
			return err
		}
		if d.Op == "format-all" {
			return format.SQL(dst, s, format.WithIndent(" ", d.Ind))
		}
		parts := []interface{}{model.NewDatabase("a `database`"), model.NewDatabase("d").SetIfNotExists(true)}
		for _, st := range s {
			t, ok := st.(model.Table)
			if !ok {
				continue
			}
			for c := range t.Columns() {
				parts = append(parts, c, c.Type())
			}
			for x := range t.Indexes() {
				parts = append(parts, x)
				if ref := x.Reference(); ref != nil {
					parts = append(parts, ref)
				}
			}
			for o := range t.Options() {
				parts = append(parts, o)
			}
		}
		if n := len(parts); d.Chunk > 0 && n > 0 {
			// start somewhere else
			k := d.Chunk % n
			parts = append(parts[k:n:n], parts[:k]...)
		}
		for _, x := range parts {
			if err := format.SQL(dst, x, format.WithIndent(" ", d.Ind)); err != nil {
				return err
			}
		}
		return nil
	}
	panic(d.Op)
}

// spoil adds a part that cannot be written to a table: a column without a type,
// or an index without columns.
func (d *outputData) spoil(b model.Stmts) (model.Stmts, error) {
	var l []int
	for i, st := range b {
		if t, ok := st.(model.Table); ok && !t.HasLikeTable() {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return nil, io.EOF
	}
	i := l[d.Chunk%len(l)]
	old := b[i].(model.Table)
	t := model.NewTable(old.Name())
	n, at := 0, d.Chunk/3%(len(old.Columns())+1)
	bad := func() {
		if n == at && d.Ind < 2 {
			t.AddColumn(model.NewTableColumn("no type"))
		}
		n++
	}
	for c := range old.Columns() {
		bad()
		t.AddColumn(c)
	}
	bad()
	for x := range old.Indexes() {
		t.AddIndex(x)
	}
	if d.Ind == 2 {
		t.AddIndex(model.NewIndex(model.IndexKindNormal, t.ID()).SetName("no columns"))
	}
	b = append(model.Stmts(nil), b...)
	b[i] = t
	return b, nil
}

func (output) RunMulti(e *core.Env, bubble func(s core.Sched, f func()) string) {
	var d outputData
	e.Decode(&d)
	clean := func(e *core.Env) *core.Env { return core.NewEnv(&core.Case{Property: e.Case.Property}) }
	setup := func(e *core.Env) *simk.Kernel {
		k := simk.New(e)
		if d.Missing != 1 {
			k.WriteFile("/sim/a.sql", []byte(d.A))
		}
		if d.Missing != 2 {
			k.WriteFile("/sim/b.sql", []byte(d.B))
		}
		return k
	}
	var ref bytes.Buffer
	var refErr error
	if dl := bubble(core.Default(), func() {
		setup(clean(e))
		defer simk.Drop()
		refErr = d.do(e, &ref, false)
	}); dl != "" {
		e.Fail("stuck", "%s", dl)
		return
	}
	out := &sink{e: e, site: "dst"}
	var err error
	if dl := bubble(e.Case.Sched, func() {
		setup(e)
		defer simk.Drop()
		err = d.do(e, out, true)
	}); dl != "" {
		e.Fail("stuck", "%s", dl)
		return
	}
	got := out.buf.String()
	e.Probe("op/" + d.Op)
	e.Logf("op %s ref err=%v %d bytes; err=%v %d bytes in %d writes", d.Op, refErr, ref.Len(), err, len(got), out.calls)
	inputFault := false
	for _, k := range e.FiredKinds() {
		if hardFault(k) && !strings.HasPrefix(k, "sink/") {
			inputFault = true
		}
	}
	if d.Missing > 0 && (d.Op == "files" || d.Op == "lint-file") {
		e.Probe("missing-file")
		if refErr == nil || err == nil {
			e.Fail("error-lost", "a file does not exist, but %s returned nil", d.Op)
		}
	}
	switch {
	case refErr != nil:
		e.Probe("result/bad-input")
		if err == nil {
			e.Fail("error-lost", "the call fails without faults (%v) but succeeded with them", refErr)
		}
	case err == nil:
		e.Probe("result/ok")
		if out.fired {
			e.Fail("write-error-lost", "a write to the destination failed, %s returned nil (%d of %d bytes arrived)", d.Op, len(got), ref.Len())
		} else if got != ref.String() {
			e.Fail("incomplete", "%s returned nil, but the destination has other bytes than without faults: %s", d.Op, firstDiff(ref.String(), got))
		}
	default:
		e.Probe("result/error")
		if !out.fired && !inputFault {
			e.Fail("spurious-error", "nothing failed, but %s returned %v", d.Op, err)
		}
	}
	if err != nil && !strings.HasPrefix(ref.String(), got) {
		e.Fail("garbage", "after an error the destination holds something that is not the beginning of the output: %s", firstDiff(ref.String(), got))
	}
	if inputFault && len(got) > 0 && err != nil && !out.fired {
		e.Fail("output-despite-bad-input", "an input could not be read, yet %d bytes were written", len(got))
	}
}

func (output) Shrink(raw json.RawMessage) (l []interface{}) {
	var d outputData
	json.Unmarshal(raw, &d)
	for _, t := range gen.ShrinkText(string(d.A)) {
		x := d
		x.A = core.Text(t)
		l = append(l, x)
	}
	for _, t := range gen.ShrinkText(string(d.B)) {
		x := d
		x.B = core.Text(t)
		l = append(l, x)
	}
	return
}

// ---- C13 ---------------------------------------------------------------------

type torn struct{}

type tornData struct {
	Text  core.Text `json:"text"`
	Kind  string    `json:"kind"` // cut, zero-tail, zero-block
	At    int       `json:"at"`
	Len   int       `json:"len,omitempty"`
	Other core.Text `json:"other,omitempty"`
}

func (torn) Name() string { return "torn-file" }

// span is a part of a text.
type span struct{ lo, hi int }

// scanSQL finds, independently of the code under test, where a text that is
// cut off cannot be complete: within CREATE TABLE definitions, from after their
// first letter to the closing parenthesis, and within the quoted strings of
// their options.
func scanSQL(s string) (cuts []span) {
	depth, start := 0, 0
	first, second := "", ""
	body := false // the definition's parentheses are behind us
	like, likeName := false, false
	word := func(i int) int {
		for i < len(s) && (s[i] == '_' || s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= 0x80) {
			i++
		}
		return i
	}
	for i := 0; i < len(s); {
		c := s[i]
		from := i
		switch {
		case c == '\'' || c == '"' || c == '`':
			for i++; i < len(s); i++ {
				if s[i] == '\\' && i+1 < len(s) && c != '`' {
					i++
				} else if s[i] == c {
					if i+1 < len(s) && s[i+1] == c {
						i++
						continue
					}
					break
				}
			}
			i++
			if likeName && c == '`' {
				// CREATE TABLE x LIKE `y`
				if j := strings.IndexByte(s[from+1:], c); j >= 0 {
					cuts = append(cuts, span{start + 1, from + 1 + j})
				}
				likeName = false
			}
			if body && depth == 0 {
				// a doubled quote would end the string
				if j := strings.IndexByte(s[from+1:], c); j >= 0 {
					cuts = append(cuts, span{from + 1, from + 1 + j})
				}
			}
			if first == "" {
				first = s[from:min(i, len(s))]
			}
		case c == '#', c == '-' && strings.HasPrefix(s[i:], "-- "), c == '-' && strings.HasPrefix(s[i:], "--\n"), c == '-' && strings.HasPrefix(s[i:], "--\t"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			if j := strings.Index(s[i+2:], "*/"); j < 0 {
				i = len(s)
			} else {
				i += 2 + j + 2
			}
		case c == '(':
			depth++
			i++
		case c == ')':
			depth--
			if depth == 0 && !body && first == "CREATE" && second == "TABLE" && !like {
				cuts = append(cuts, span{start + 1, i})
				body = true
			}
			i++
		case c == ';' && depth == 0:
			first, second, body, like, likeName = "", "", false, false, false
			i++
		default:
			if i = word(i); i == from {
				i++
			} else if w := strings.ToUpper(s[from:i]); first == "" {
				first, start = w, from
			} else if second == "" {
				second = w
			} else if w == "LIKE" {
				like = true
				likeName = depth == 0 && !body && first == "CREATE" && second == "TABLE"
			} else if likeName {
				cuts = append(cuts, span{start + 1, from})
				likeName = false
			}
		}
	}
	return
}

// dump writes a schema's statements like dump programs do.
func dumpLike(r *rand.Rand, t string) string {
	var b strings.Builder
	b.WriteString("-- MySQL dump 10.13\n--\n-- Host: db    Database: app\n-- ------------------------------------------------------\n\n/*!40101 SET NAMES utf8 */;\n")
	for i, st := range strings.SplitAfter(t, ";\n") {
		if strings.TrimSpace(st) == "" {
			continue
		}
		if r.Intn(4) > 0 {
			b.WriteString("\n--\n-- Table structure for table " + string(rune('a'+i%26)) + "\n--\n\nDROP TABLE IF EXISTS `" + string(rune('a'+i%26)) + "`;\n")
		}
		if r.Intn(4) > 0 {
			b.WriteString("/*!40101 SET @saved_cs_client     = @@character_set_client */;\n/*!50503 SET character_set_client = utf8mb4 */;\n")
		}
		if r.Intn(4) == 0 {
			b.WriteString("SET character_set_client = utf8;\n")
		}
		b.WriteString(st)
		if r.Intn(4) > 0 {
			b.WriteString("/*!40101 SET character_set_client = @saved_cs_client */;\n")
		}
	}
	if r.Intn(2) == 0 {
		b.WriteString("\n/*!40111 SET SQL_NOTES=@OLD_SQL_NOTES */;\n\n-- Dump completed on 2016-02-24 12:00:00\n")
	}
	return b.String()
}

func (torn) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d tornData
	for {
		s := gen.Any(r, []int{1, 3, 8}[r.Intn(3)], []int{3, 8}[r.Intn(2)])
		if r.Intn(6) == 0 {
			for n := 1 + r.Intn(2); n > 0; n-- {
				s.Tables = append(s.Tables, gen.Table{Name: fmt.Sprint("like ", n), Like: s.Tables[r.Intn(len(s.Tables))].Name, INE: r.Intn(2) == 0})
			}
		}
		t := s.SQL()
		d.Other = core.Text(t)
		switch r.Intn(6) {
		case 0, 1:
			t = gen.Noisy(r, t)
		case 2:
			_, m := mPair(r, true, true)
			t = m.sql(r)
		case 3:
			t = dumpLike(r, t)
		case 4:
			t = gen.Noisy(r, dumpLike(r, t))
		}
		pad := 0
		if r.Intn(10) == 0 {
			// everything is behind a long comment
			pad = []int{512, 4096, 8192, 12000}[r.Intn(4)]
			pad += r.Intn(64) - 32
			c := []byte("-- " + strings.Repeat("=", pad-4) + "\n")
			for i := 80; i+4 < len(c) && r.Intn(3) > 0; i += 80 {
				copy(c[i:], "\n-- ")
			}
			t = string(c) + t
		}
		d.Text = core.Text(t)
		cuts := scanSQL(t)
		if len(cuts) == 0 {
			continue
		}
		in := func() int {
			b := cuts[r.Intn(len(cuts))]
			if r.Intn(3) == 0 {
				// behind a quoted name, a string, a parenthesis or a list's item
				var l []int
				for i := b.lo + 1; i < b.hi; i++ {
					if strings.IndexByte("`'\"),", t[i-1]) >= 0 {
						l = append(l, i)
					}
				}
				if len(l) > 0 {
					return l[r.Intn(len(l))]
				}
			}
			return b.lo + r.Intn(b.hi-b.lo+1)
		}
		d.At, d.Len = 0, 0
		switch r.Intn(4) {
		case 0:
			d.Kind = "cut"
			d.At = in()
		case 1:
			d.Kind = "zero-tail"
			d.At = in()
			d.Len = 1 + r.Intn(4096)
		case 2:
			// from anywhere on: also between definitions
			d.Kind = "zero-tail"
			d.At = pad + r.Intn(len(t)-pad+1)
			if r.Intn(8) == 0 {
				d.At = len(t)
			}
			d.Len = 1 + r.Intn(4096)
			if r.Intn(3) == 0 {
				// up to the end of a sector or page
				bs := []int{512, 4096}[r.Intn(2)]
				if d.Len = bs - d.At%bs; r.Intn(3) == 0 {
					d.Len += bs
				}
			}
		case 3:
			d.Kind = "zero-block"
			bs := []int{1, 1, 3, 16, 64, 512}[r.Intn(6)]
			d.At = (pad/bs + r.Intn((len(t)-pad)/bs+1)) * bs
			d.Len = min(bs, len(t)-d.At)
			if d.Len <= 0 {
				continue
			}
		}
		break
	}
	return d, nil, core.RandSched(r, r.Intn(4) == 0)
}

func (torn) Run(e *core.Env) {
	var d tornData
	e.Decode(&d)
	k := simk.New(e)
	defer simk.Drop()
	b := []byte(d.Text)
	switch d.Kind {
	case "cut":
		b = b[:d.At]
	case "zero-tail":
		b = append(b[:d.At:d.At], make([]byte, d.Len)...)
	case "zero-block":
		b = append([]byte(nil), b...)
		for i := d.At; i < d.At+d.Len && i < len(b); i++ {
			b[i] = 0
		}
	}
	if _, err := schemalex.New().ParseString(string(d.Text)); err != nil {
		e.Probe("original-rejected")
		return
	}
	e.Fired("crash/" + d.Kind)
	k.WriteFile("/sim/a.sql", []byte(d.Other))
	k.WriteFile("/sim/b.sql", b)
	e.Logf("%s at %d len %d", d.Kind, d.At, d.Len)
	if s, err := schemalex.New().ParseString(string(b)); err == nil {
		e.Fail("accepted", "ParseString accepted the torn text as %d statements", len(s))
	}
	if s, err := schemalex.New().Parse(b); err == nil {
		e.Fail("accepted", "Parse accepted the torn text as %d statements", len(s))
	}
	if s, err := schemalex.New().ParseFile("/sim/b.sql"); err == nil {
		e.Fail("accepted", "ParseFile accepted the torn file as %d statements", len(s))
	}
	var out bytes.Buffer
	judge := func(what string, err error) {
		if err == nil || out.Len() > 0 {
			e.Fail("accepted", "%s: err=%v, output %q", what, err, clip(out.String(), 200))
		}
		out.Reset()
	}
	judge("diff.Files to the torn file", diff.Files(&out, "/sim/a.sql", "/sim/b.sql"))
	judge("diff.Files from the torn file", diff.Files(&out, "/sim/b.sql", "/sim/a.sql"))
	judge("diff.Strings to the torn text", diff.Strings(&out, string(d.Other), string(b)))
	judge("diff.Strings from the torn text", diff.Strings(&out, string(b), string(d.Other)))
	judge("diff.Sources to the torn text", diff.Sources(&out, schemalex.NewLocalFileSource("/sim/a.sql"), schemalex.NewReaderSource(bytes.NewReader(b))))
	judge("diff.Sources from the torn text", diff.Sources(&out, schemalex.NewReaderSource(bytes.NewReader(b)), schemalex.NewLocalFileSource("/sim/a.sql")))
	if err := lint.New().Run(context.Background(), schemalex.NewLocalFileSource("/sim/b.sql"), &out); err == nil || out.Len() > 0 {
		e.Fail("accepted", "lint on the torn file: err=%v, output %q", err, clip(out.String(), 200))
	}
}

func (torn) Shrink(raw json.RawMessage) (l []interface{}) {
	var d tornData
	json.Unmarshal(raw, &d)
	if d.Other != "CREATE TABLE `a` (`b` INT);" {
		x := d
		x.Other = "CREATE TABLE `a` (`b` INT);"
		l = append(l, x)
	}
	if d.Len > 1 {
		x := d
		x.Len = 1
		l = append(l, x)
	}
	return
}
