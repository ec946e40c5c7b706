//go:build go1.22

package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/gen"
	"github.com/schemalex/schemalex/verifsim/simk"
)

func init() {
	real := []string{"schemalex lexer and parser goroutines and their channel", "model", "format", "diff", "lint", "golang-set", "Go runtime channels, locks, select, maps, context (scheduled by the simulator)"}
	core.Register("C01", parseSched{})
	core.Describe("C01", core.Meta{
		Rule: "A schema text (valid, noisy, damaged, cut or token soup) is parsed in a bubble under the default schedule and again under a drawn schedule that may switch goroutines at every channel operation, lock, allocation and schemalex statement.",
		Real: real, Stub: []string{"goroutine scheduler decisions", "select choice", "map iteration order"},
		Assume: []string{"one simulated processor: interleavings are at statement, allocation and synchronisation granularity, not weak-memory effects"},
	})
	core.Register("C02", finishes{})
	core.Describe("C02", core.Meta{
		Rule: "A text and a second text go through Parse, format, lint and diff in one bubble; the bubble must drain (no goroutine left) within a fixed number of statements and bytes allocated, without panicking.",
		Real: real, Stub: []string{"goroutine scheduler decisions", "select choice", "map iteration order"},
		Assume: []string{"texts up to about 30 kB; the step limit is 20 million statements and the allocation limit 1.5 GB per run"},
	})
	core.Register("C03", shared{})
	core.Describe("C03", core.Meta{
		Rule: "2 to 4 simulated caller goroutines share one parser, one linter and two parsed schemas and run drawn mixes of parse, ParseFile, format, diff, lint, normalize, lookup and listing; each result is compared with the same call made alone in another bubble, and the shared schemas are compared before and after.",
		Real: real, Stub: []string{"goroutine scheduler decisions", "select choice", "map iteration order"},
		Assume: []string{"one simulated processor: interleavings are at statement, allocation and synchronisation granularity, not weak-memory effects"},
	})
	core.Register("C04", deterministic{})
	core.Describe("C04", core.Meta{
		Rule: "Two schemas are compared twice, in bubbles with different map hash seeds, map iteration starts and schedules; the migration script (or the error) must be byte-identical, also when formatted or linted.",
		Real: real, Stub: []string{"goroutine scheduler decisions", "select choice", "map hash seeds and iteration order"},
		Assume: nil,
	})
}

// ---- C01 ---------------------------------------------------------------------

type parseSched struct{}

type textData struct {
	Text  core.Text `json:"text"`
	Text2 core.Text `json:"text2,omitempty"`
	Kind  string    `json:"kind"`
	Extra []uint64  `json:"extra,omitempty"`
	Big   bool      `json:"big,omitempty"`
}

func (parseSched) Name() string { return "parse-schedule" }

func (parseSched) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	t, k := gen.Text(r)
	d := textData{Text: core.Text(t), Kind: k}
	if r.Intn(60) == 0 {
		t = gen.Wide(r).SQL()
		if r.Intn(2) == 0 {
			t = gen.Noisy(r, t)
		}
		if r.Intn(2) == 0 {
			t = gen.Damage(r, t, 1)
		}
		d.Text, d.Kind = core.Text(t), "wide"
	}
	d.Extra = []uint64{r.Uint64() | 1}
	return d, nil, core.RandSched(r, true)
}

func (parseSched) Run(e *core.Env) {}

func (parseSched) RunMulti(e *core.Env, bubble func(s core.Sched, f func()) string) {
	var d textData
	e.Decode(&d)
	text := []byte(d.Text) // the same for all: parsing must not change it
	parse := func(out *string) func() {
		return func() {
			p := schemalex.New()
			stmts, err := p.Parse(text)
			*out = dumpParse(stmts, err)
			if err == nil {
				*out += formatAll(stmts)
			}
		}
	}
	e.Probe("input/" + d.Kind)
	var base string
	if dl := bubble(core.Default(), parse(&base)); dl != "" {
		e.Fail("stuck", "default schedule: %s", dl)
		return
	}
	if strings.HasPrefix(base, "error") {
		e.Probe("result/error")
	} else {
		e.Probe("result/ok")
	}
	for i := 0; i <= len(d.Extra); i++ {
		s := e.Case.Sched
		if i < len(d.Extra) {
			s.Replay, s.Over = false, nil
			s.Seed = d.Extra[i]
			s.Strategy = []int{3, 2, 0, 1}[d.Extra[i]>>8%4]
			s.YieldSync = 20000
		}
		var got string
		if dl := bubble(s, parse(&got)); dl != "" {
			e.Fail("stuck", "%s", dl)
			return
		}
		if got != base {
			e.Fail("schedule-dependent", "parse result depends on the schedule: %s", firstDiff(base, got))
			return
		}
	}
	e.Logf("%s", base)
}

func (parseSched) Shrink(raw json.RawMessage) (l []interface{}) {
	var d textData
	json.Unmarshal(raw, &d)
	if len(d.Extra) > 0 {
		x := d
		x.Extra = nil
		l = append(l, x)
	}
	for _, t := range gen.ShrinkText(string(d.Text)) {
		x := d
		x.Text = core.Text(t)
		l = append(l, x)
	}
	return
}

// ---- C02 ---------------------------------------------------------------------

type finishes struct{}

func (finishes) Name() string { return "everything-finishes" }

func (finishes) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	t, k := gen.Text(r)
	d := textData{Text: core.Text(t), Kind: k}
	switch r.Intn(4) {
	case 0:
		t2, _ := gen.Text(r)
		d.Text2 = core.Text(t2)
	case 1:
		d.Text2 = core.Text(gen.Damage(r, t, 1))
	default:
		s := gen.Any(r, 3, 8)
		d.Text = core.Text(s.SQL())
		d.Text2 = core.Text(gen.Evolve(r, s).SQL())
		d.Kind = "evolved"
		if r.Intn(2) == 0 {
			d.Text2 = core.Text(gen.Damage(r, string(d.Text2), 1))
		}
	}
	if r.Intn(25) == 0 {
		s := gen.Wide(r)
		d.Text, d.Text2, d.Kind = core.Text(s.SQL()), core.Text(gen.WideEvolve(r, s).SQL()), "wide"
		if r.Intn(3) == 0 {
			d.Text, d.Text2 = d.Text2, d.Text
		}
		if r.Intn(3) == 0 {
			d.Text2 = core.Text(gen.Damage(r, string(d.Text2), 1))
		}
	} else if r.Intn(40) == 0 {
		// one very repetitive text
		unit := gen.Soup(r, 1+r.Intn(3))
		n := 20000 / (len(unit) + 1)
		if n > 3000 {
			n = 3000
		}
		d.Text += core.Text(strings.Repeat(unit, n))
		d.Kind = "repetitive"
	}
	return d, nil, core.RandSched(r, r.Intn(2) == 0)
}

func (finishes) Run(e *core.Env) {
	var d textData
	e.Decode(&d)
	e.Probe("input/" + d.Kind)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := schemalex.New()
	for _, t := range []string{string(d.Text), string(d.Text2)} {
		stmts, err := p.Parse([]byte(t))
		e.Logf("parse %s", clip(dumpParse(stmts, err), 2000))
		if err != nil {
			e.Probe("parse/error")
			_ = err.Error()
		} else {
			e.Probe("parse/ok")
		}
		for _, s := range stmts {
			var b bytes.Buffer
			err := format.SQL(&b, s)
			e.Logf("format %v %d", err, b.Len())
			if err := format.SQL(&b, s, format.WithIndent("\t", 1)); err != nil {
				e.Probe("format/error")
			}
			if t, ok := s.(model.Table); ok {
				t.Normalize()
				for c := range t.Columns() {
					t.LookupColumnBefore(c.ID())
					c.Normalize()
				}
				for x := range t.Indexes() {
					t.LookupIndex(x.ID())
				}
			}
		}
		var b bytes.Buffer
		err = lint.New().Run(ctx, schemalex.NewReaderSource(strings.NewReader(t)), &b)
		e.Logf("lint %v %d", err != nil, b.Len())
	}
	var b bytes.Buffer
	err := diff.Strings(&b, string(d.Text), string(d.Text2), diff.WithTransaction(len(d.Text)%2 == 0))
	if err == nil {
		e.Probe("diff/ok")
	} else {
		e.Probe("diff/error")
	}
	e.Logf("diff %v %d", err != nil, b.Len())
	if len(d.Text) > 0 && len(d.Text2) > 0 {
		diff.Strings(&b, string(d.Text2), string(d.Text), diff.WithParser(p))
	}
}

func (finishes) Shrink(raw json.RawMessage) (l []interface{}) {
	var d textData
	json.Unmarshal(raw, &d)
	for _, t := range gen.ShrinkText(string(d.Text)) {
		x := d
		x.Text = core.Text(t)
		l = append(l, x)
	}
	if d.Text2 != "" {
		x := d
		x.Text2 = ""
		l = append([]interface{}{x}, l...)
	}
	for _, t := range gen.ShrinkText(string(d.Text2)) {
		x := d
		x.Text2 = core.Text(t)
		l = append(l, x)
	}
	return
}

// ---- C03 ---------------------------------------------------------------------

type shared struct{}

type sharedOp struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b,omitempty"`
}

type sharedData struct {
	Texts   []core.Text  `json:"texts"` // the first two are valid and shared as models
	Callers [][]sharedOp `json:"callers"`
	// First runs the callers before what they do alone is known, so that the
	// process does everything for the first time concurrently.
	First bool `json:"first,omitempty"`
}

func (shared) Name() string { return "shared-callers" }

func (shared) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d sharedData
	s := gen.Any(r, 3, 5)
	d.Texts = append(d.Texts, core.Text(s.SQL()), core.Text(gen.Evolve(r, s).SQL()))
	for i := r.Intn(3); i > 0; i-- {
		t, _ := gen.Text(r)
		d.Texts = append(d.Texts, core.Text(t))
	}
	d.First = r.Intn(2) == 0
	for i := range d.Texts {
		if r.Intn(4) == 0 {
			d.Texts[i] = core.Text(gen.Noisy(r, string(d.Texts[i])))
		}
	}
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		var ops []sharedOp
		for j := 1 + r.Intn(3); j > 0; j-- {
			ops = append(ops, sharedOp{Op: []string{"parse", "parse", "format", "format", "diff", "diff", "lint", "normalize", "list", "lookup", "strings", "parsefile", "sources", "built", "modify", "modify"}[r.Intn(16)], A: r.Intn(len(d.Texts)), B: r.Intn(len(d.Texts))})
		}
		d.Callers = append(d.Callers, ops)
	}
	return d, nil, core.RandSched(r, true)
}

func (shared) Run(e *core.Env) {}

type sharedObjs struct {
	p      *schemalex.Parser
	l      *lint.Linter
	models [2]model.Stmts
	built  model.Table
	built2 model.Table
	alt    model.Stmts // other versions of the built tables
	db     model.Database
	texts  [][]byte // given to all callers
}

func textPath(i int) string { return fmt.Sprintf("/sim/t%d.sql", i) }

// builtTable is made through the API and not normalised.
func builtTable() model.Table {
	t := model.NewTable("built")
	t.AddColumn(model.NewTableColumn("id").SetType(model.ColumnTypeInteger).SetPrimary(true).SetAutoIncrement(true))
	t.AddColumn(model.NewTableColumn("flag").SetType(model.ColumnTypeBool).SetNullState(model.NullStateNotNull).SetDefault("TRUE", false))
	t.AddColumn(model.NewTableColumn("off").SetType(model.ColumnTypeBoolean).SetDefault("FALSE", false).SetLength(model.NewLength("1")))
	t.AddColumn(model.NewTableColumn("n").SetType(model.ColumnTypeBigInt).SetUnique(true).SetDefault("12", true))
	t.AddColumn(model.NewTableColumn("e").SetType(model.ColumnTypeEnum).SetEnumValues([]string{"a", "b"}).SetNullState(model.NullStateNull))
	t.AddColumn(model.NewTableColumn("d").SetType(model.ColumnTypeDecimal))
	x := model.NewIndex(model.IndexKindForeignKey, t.ID())
	x.SetSymbol("fk")
	x.AddColumns(model.NewIndexColumn("n"))
	x.SetReference(model.NewReference().SetTableName("o").SetOnDelete(model.ReferenceOptionCascade))
	x.Reference().AddColumns(model.NewIndexColumn("id"))
	t.AddIndex(x)
	t.AddOption(model.NewTableOption("ENGINE", "InnoDB", false))
	return t
}

// builtTable2 has columns that are in their normal form but for their keys.
func builtTable2() model.Table {
	t := model.NewTable("built2")
	t.AddColumn(model.NewTableColumn("id").SetType(model.ColumnTypeInt).SetLength(model.NewLength("11")).SetNullState(model.NullStateNotNull).SetPrimary(true))
	t.AddColumn(model.NewTableColumn("code").SetType(model.ColumnTypeVarChar).SetLength(model.NewLength("20")).SetNullState(model.NullStateNotNull).SetUnique(true))
	t.AddColumn(model.NewTableColumn("at").SetType(model.ColumnTypeDate).SetNullState(model.NullStateNotNull).SetUnique(true))
	t.AddColumn(model.NewTableColumn("b").SetType(model.ColumnTypeText))
	x := model.NewIndex(model.IndexKindUnique, t.ID())
	x.SetSymbol("sym")
	x.AddColumns(model.NewIndexColumn("b").SetLength("5"))
	t.AddIndex(x)
	return t
}

// builtAlt is what the built tables are changed to.
func builtAlt() model.Stmts {
	t := model.NewTable("built")
	t.AddColumn(model.NewTableColumn("n").SetType(model.ColumnTypeBigInt).SetDefault("7", true))
	t.AddColumn(model.NewTableColumn("id").SetType(model.ColumnTypeInteger).SetPrimary(true).SetAutoIncrement(true))
	t.AddColumn(model.NewTableColumn("flag").SetType(model.ColumnTypeBool).SetNullState(model.NullStateNotNull).SetDefault("FALSE", false))
	t.AddColumn(model.NewTableColumn("s1").SetType(model.ColumnTypeSet).SetEnumValues([]string{"x"}))
	t.AddColumn(model.NewTableColumn("s2").SetType(model.ColumnTypeVarChar).SetLength(model.NewLength("9")).SetUnique(true))
	x := model.NewIndex(model.IndexKindForeignKey, t.ID())
	x.SetSymbol("fk")
	x.AddColumns(model.NewIndexColumn("n"))
	x.SetReference(model.NewReference().SetTableName("o").SetOnUpdate(model.ReferenceOptionSetNull))
	x.Reference().AddColumns(model.NewIndexColumn("n"))
	t.AddIndex(x)
	t2 := model.NewTable("built2")
	t2.AddColumn(model.NewTableColumn("id").SetType(model.ColumnTypeInt).SetLength(model.NewLength("11")).SetNullState(model.NullStateNotNull))
	t2.AddColumn(model.NewTableColumn("b").SetType(model.ColumnTypeText))
	x = model.NewIndex(model.IndexKindNormal, t2.ID())
	x.SetName("plain")
	x.AddColumns(model.NewIndexColumn("id"), model.NewIndexColumn("b").SetLength("3"))
	t2.AddIndex(x)
	x = model.NewIndex(model.IndexKindUnique, t2.ID())
	x.SetSymbol("sym2")
	x.AddColumns(model.NewIndexColumn("id"))
	t2.AddIndex(x)
	return model.Stmts{t, t2}
}

func newShared(d *sharedData) *sharedObjs {
	o := &sharedObjs{p: schemalex.New(), l: lint.New(), built: builtTable(), built2: builtTable2(), alt: builtAlt(), db: model.NewDatabase("data base")}
	o.db.SetIfNotExists(true)
	for i := range o.models {
		o.models[i], _ = schemalex.New().ParseString(string(d.Texts[i]))
	}
	for _, t := range d.Texts {
		o.texts = append(o.texts, []byte(t))
	}
	return o
}

// slowWriter is a destination that takes its time: it reads what it was given
// bit by bit while others run.
type slowWriter struct{ bytes.Buffer }

func (w *slowWriter) Write(p []byte) (int, error) {
	n := len(p)
	for k := n/4 + 1; len(p) > 0; {
		if k > len(p) {
			k = len(p)
		}
		w.Buffer.Write(p[:k])
		p = p[k:]
		runtime.SimSwitch()
	}
	return n, nil
}

func formatSlow(stmts model.Stmts) string {
	var sb strings.Builder
	for _, s := range stmts {
		var b slowWriter
		err := format.SQL(&b, s, format.WithIndent(" ", 2))
		fmt.Fprintf(&sb, "%s err=%v\n", b.String(), err)
	}
	return sb.String()
}

// modify changes every part of a caller's own schema.
func modify(stmts model.Stmts, n int) {
	for _, s := range stmts {
		t, ok := s.(model.Table)
		if !ok {
			continue
		}
		for c := range t.Columns() {
			c.SetComment(fmt.Sprintf("own %d", n))
			c.SetNullState(model.NullStateNotNull)
			runtime.SimSwitch()
		}
		for x := range t.Indexes() {
			x.SetName(fmt.Sprintf("own_%d", n))
			x.AddColumns(model.NewIndexColumn("own"))
		}
		t.AddColumn(model.NewTableColumn(fmt.Sprintf("own_%d", n)).SetType(model.ColumnTypeInt))
		t.AddIndex(model.NewIndex(model.IndexKindNormal, t.ID()).SetName("own"))
		t.AddOption(model.NewTableOption("COMMENT", "own", true))
		t.SetTemporary(!t.IsTemporary())
	}
	for i := range stmts {
		stmts[i] = builtTable2()
		break
	}
}

func (o *sharedObjs) do(d *sharedData, op sharedOp) string {
	var b slowWriter
	switch op.Op {
	case "parse":
		s, err := o.p.Parse(o.texts[op.A])
		return dumpParse(s, err)
	case "modify":
		// the result is the caller's own
		s, err := o.p.Parse(o.texts[op.A])
		modify(s, op.B)
		return dumpParse(s, err)
	case "parsefile":
		s, err := o.p.ParseFile(textPath(op.A))
		return dumpParse(s, err)
	case "sources":
		err := diff.Sources(&b, schemalex.NewLocalFileSource(textPath(op.A)), schemalex.NewReaderSource(bytes.NewReader(o.texts[op.B])), diff.WithParser(o.p))
		return fmt.Sprint(b.String(), " err=", err)
	case "format":
		return formatSlow(o.models[op.A%2]) + formatSlow(model.Stmts{o.db, o.built, o.built2})
	case "diff":
		err := diff.Statements(&b, o.models[op.A%2], o.models[op.B%2], diff.WithTransaction(op.A%2 == 0))
		return fmt.Sprint(b.String(), " err=", err)
	case "built":
		a, z := model.Stmts{o.built, o.built2}, o.alt
		if op.A%2 == 1 {
			a, z = z, a
		}
		err := diff.Statements(&b, a, z)
		return fmt.Sprint(b.String(), " err=", err)
	case "strings":
		err := diff.Strings(&b, string(d.Texts[op.A]), string(d.Texts[op.B]), diff.WithParser(o.p))
		return fmt.Sprint(b.String(), " err=", err)
	case "lint":
		err := o.l.Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(string(d.Texts[op.A]))), &b, lint.WithIndent(" ", 2))
		return fmt.Sprint(b.String(), " err=", err)
	case "normalize":
		var sb strings.Builder
		t, m := o.built.Normalize()
		dumpTable(&sb, t)
		fmt.Fprint(&sb, m)
		t, m = o.built2.Normalize()
		dumpTable(&sb, t)
		fmt.Fprint(&sb, m)
		for _, s := range o.models[op.A%2] {
			if t, ok := s.(model.Table); ok {
				n, m := t.Normalize()
				dumpTable(&sb, n)
				fmt.Fprint(&sb, m)
			}
		}
		return sb.String()
	case "list":
		var sb strings.Builder
		dumpTable(&sb, o.built)
		dumpTable(&sb, o.built2)
		sb.WriteString(dumpStmts(o.models[op.A%2]))
		return sb.String()
	case "lookup":
		var sb strings.Builder
		for _, s := range o.models[op.A%2] {
			s2, ok := o.models[op.B%2].Lookup(s.ID())
			fmt.Fprintln(&sb, s.ID(), ok)
			if t, k := s2.(model.Table); ok && k {
				for c := range t.Columns() {
					n, ok := t.LookupColumnOrder(c.ID())
					p, ok2 := t.LookupColumnBefore(c.ID())
					fmt.Fprintln(&sb, n, ok, ok2)
					if ok2 {
						fmt.Fprintln(&sb, p.Name())
					}
				}
				for x := range t.Indexes() {
					y, ok := t.LookupIndex(x.ID())
					fmt.Fprintln(&sb, x.ID(), ok && y.Name() == x.Name())
				}
			}
		}
		return sb.String()
	}
	return "?"
}

func (o *sharedObjs) dump() string {
	var sb strings.Builder
	dumpTable(&sb, o.built)
	dumpTable(&sb, o.built2)
	sb.WriteString(dumpStmts(o.alt))
	return dumpStmts(o.models[0]) + "----\n" + dumpStmts(o.models[1]) + "----\n" + sb.String()
}

func (shared) RunMulti(e *core.Env, bubble func(s core.Sched, f func()) string) {
	var d sharedData
	e.Decode(&d)
	want := map[sharedOp]string{}
	k := simk.New(e)
	defer simk.Drop()
	for i, t := range d.Texts {
		k.WriteFile(textPath(i), []byte(t))
	}
	alone := func() bool {
		for _, ops := range d.Callers {
			for _, op := range ops {
				if _, ok := want[op]; ok {
					continue
				}
				var s string
				if dl := bubble(core.Default(), func() { s = newShared(&d).do(&d, op) }); dl != "" {
					e.Fail("stuck", "alone: %s", dl)
					return false
				}
				want[op] = s
			}
		}
		return true
	}
	if !d.First && !alone() {
		return
	}
	type res struct {
		caller, n int
		op        sharedOp
		got       string
	}
	var results []res
	var before, after string
	var panics []string
	dl := bubble(e.Case.Sched, func() {
		o := newShared(&d)
		before = o.dump()
		done := make(chan bool)
		for i, ops := range d.Callers {
			i, ops := i, ops
			go func() {
				defer func() {
					if x := recover(); x != nil {
						panics = append(panics, fmt.Sprintf("caller %d: %v", i, x))
					}
					done <- true
				}()
				for j, op := range ops {
					g := o.do(&d, op)
					results = append(results, res{i, j, op, g})
				}
			}()
		}
		for range d.Callers {
			<-done
		}
		after = o.dump()
	})
	if len(panics) > 0 {
		e.Fail("panic", "%s", panics[0])
		return
	}
	if dl != "" {
		e.Fail("stuck", "%s", dl)
		return
	}
	if d.First && !alone() {
		return
	}
	for _, r := range results {
		e.Logf("caller %d op %d %s(%d,%d) %d bytes", r.caller, r.n, r.op.Op, r.op.A, r.op.B, len(r.got))
		e.Probe("op/" + r.op.Op)
		if r.got != want[r.op] {
			e.Fail("interference", "caller %d, call %d: %s(%d,%d) gave another result than alone: %s", r.caller, r.n, r.op.Op, r.op.A, r.op.B, firstDiff(want[r.op], r.got))
			return
		}
	}
	if before != after {
		e.Fail("mutated", "shared schemas changed: %s", firstDiff(before, after))
	}
	_ = runtime.SimNow
}

func (shared) Shrink(raw json.RawMessage) (l []interface{}) {
	var d sharedData
	json.Unmarshal(raw, &d)
	cp := func() sharedData {
		var x sharedData
		json.Unmarshal(raw, &x)
		return x
	}
	for i := range d.Callers {
		if len(d.Callers) > 1 {
			x := cp()
			x.Callers = append(x.Callers[:i], x.Callers[i+1:]...)
			l = append(l, x)
		}
		for j := range d.Callers[i] {
			if len(d.Callers[i]) > 1 {
				x := cp()
				x.Callers[i] = append(x.Callers[i][:j], x.Callers[i][j+1:]...)
				l = append(l, x)
			}
		}
	}
	for i := range d.Texts {
		for k, t := range gen.ShrinkText(string(d.Texts[i])) {
			if k > 30 {
				break
			}
			if i < 2 {
				if _, err := schemalex.New().ParseString(t); err != nil {
					continue
				}
			}
			x := cp()
			x.Texts[i] = core.Text(t)
			l = append(l, x)
		}
	}
	return
}

// ---- C04 ---------------------------------------------------------------------

type deterministic struct{}

type pairData struct {
	From gen.Schema `json:"from"`
	To   gen.Schema `json:"to"`
	Txn  bool       `json:"txn"`
	Map2 uint64     `json:"map2"`
}

func (deterministic) Name() string { return "diff-order" }

func (deterministic) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d pairData
	d.From = gen.Any(r, []int{2, 4, 10}[r.Intn(3)], []int{4, 8, 14}[r.Intn(3)])
	d.To = gen.Evolve(r, d.From)
	for i := r.Intn(6); i > 0; i-- {
		d.To = gen.Evolve(r, d.To)
	}
	if r.Intn(8) == 0 {
		d.To = gen.Any(r, 8, 6)
	}
	if r.Intn(40) == 0 {
		d.From = gen.Wide(r)
		d.To = gen.WideEvolve(r, d.From)
	}
	if r.Intn(3) == 0 {
		d.From, d.To = d.To, d.From
	}
	d.Txn = r.Intn(2) == 0
	d.Map2 = r.Uint64() | 1
	return d, nil, core.RandSched(r, r.Intn(2) == 0)
}

func (deterministic) Run(e *core.Env) {}

func (deterministic) RunMulti(e *core.Env, bubble func(s core.Sched, f func()) string) {
	var d pairData
	e.Decode(&d)
	f := func(out *string) func() {
		return func() {
			var b bytes.Buffer
			err := diff.Strings(&b, d.From.SQL(), d.To.SQL(), diff.WithTransaction(d.Txn))
			*out = b.String()
			if err != nil {
				*out += "\nerror: " + err.Error()
			}
			var lb bytes.Buffer
			if err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(d.To.SQL())), &lb); err != nil {
				*out += "\nlint error: " + err.Error()
			}
			*out += "\n----\n" + lb.String()
		}
	}
	var base string
	if dl := bubble(core.Default(), f(&base)); dl != "" {
		e.Fail("stuck", "%s", dl)
		return
	}
	if strings.Contains(base, "\nerror: ") {
		e.Probe("diff/error")
	} else {
		e.Probe("diff/ok")
	}
	s2 := core.Default()
	s2.MapSeed = d.Map2
	for _, s := range []core.Sched{s2, e.Case.Sched} {
		var got string
		if dl := bubble(s, f(&got)); dl != "" {
			e.Fail("stuck", "%s", dl)
			return
		}
		if got != base {
			e.Fail("order-dependent", "the output depends on map order or schedule: %s", firstDiff(base, got))
			return
		}
	}
	e.Logf("%s", base)
}

func (deterministic) Shrink(raw json.RawMessage) (l []interface{}) {
	var d pairData
	json.Unmarshal(raw, &d)
	for _, s := range gen.ShrinkSchema(d.From) {
		x := d
		x.From = s
		l = append(l, x)
	}
	for _, s := range gen.ShrinkSchema(d.To) {
		x := d
		x.To = s
		l = append(l, x)
	}
	return
}
