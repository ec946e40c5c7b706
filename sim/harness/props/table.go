//go:build go1.22

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"strings"

	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
	"github.com/schemalex/schemalex/verifsim/core"
)

func init() {
	core.Register("C15", tableOps{})
	core.Describe("C15", core.Meta{
		Rule:   "2 to 5 simulated goroutines add columns, indexes and options to one table and look up, list and format it; every history of calls and results is checked for linearizability against a sequential table by a search over its orders, and formatting and normalization (several calls each) against what was there when they began and ended; in the end the table is formatted like one made anew of the same parts.",
		Real:   []string{"model tables, columns, indexes, options", "format", "Go maps, channels and locks (scheduled by the simulator)"},
		Stub:   []string{"goroutine scheduler decisions", "select choice", "map iteration order"},
		Assume: []string{"one simulated processor: interleavings are at statement, allocation and synchronisation granularity; what only another processor could see is left to the race detector"},
	})
}

type tableOps struct{}

type tableOp struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
}

type tableData struct {
	Start   []tableOp   `json:"start,omitempty"` // what the table has at first
	Callers [][]tableOp `json:"callers"`
}

func (tableOps) Name() string { return "shared-table" }

func (tableOps) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d tableData
	adds := 0
	sharedCols := r.Intn(8) == 0
	add := func() tableOp {
		adds++
		op := tableOp{Op: []string{"addcol", "addcol", "addcol", "addidx", "addopt"}[r.Intn(5)], N: adds}
		if op.Op == "addcol" && r.Intn(12) == 0 {
			op.N = 1 + r.Intn(adds) // a name twice
		} else if op.Op == "addcol" && sharedCols && r.Intn(2) == 0 {
			op.N = poolFirst + r.Intn(poolSize)
		}
		return op
	}
	for n := r.Intn(4); n > 0; n-- {
		d.Start = append(d.Start, add())
	}
	for n := 2 + r.Intn(4); n > 0; n-- {
		var ops []tableOp
		for k := 1 + r.Intn(5); k > 0; k-- {
			if r.Intn(2) == 0 {
				ops = append(ops, add())
			} else {
				op := tableOp{Op: []string{"lookup", "lookup", "order", "before", "cols", "cols", "idxs", "opts", "lookidx", "format", "normalize"}[r.Intn(11)]}
				switch op.Op {
				case "lookup", "order", "before", "lookidx":
					op.N = 1 + r.Intn(adds+4)
					if sharedCols && op.Op != "lookidx" && r.Intn(3) == 0 {
						op.N = poolFirst + r.Intn(poolSize)
					}
				}
				ops = append(ops, op)
			}
		}
		d.Callers = append(d.Callers, ops)
	}
	return d, nil, core.RandSched(r, true)
}

func (tableOps) Run(e *core.Env) {}

// colName does without fmt, whose pools order the callers.
func colName(n int) string { return "c" + strconv.Itoa(n) }

// newTestColumn makes a column, most of which a normalization changes.
func newTestColumn(n int) model.TableColumn {
	c := model.NewTableColumn(colName(n))
	switch n % 7 {
	case 0:
		c.SetType(model.ColumnTypeBool).SetDefault("TRUE", false)
	case 1:
		c.SetType(model.ColumnTypeNumeric).SetLength(model.NewLength("5")).SetZeroFill(true)
	case 2:
		c.SetType(model.ColumnTypeInteger).SetUnique(true)
	case 3:
		c.SetType(model.ColumnTypeText).SetNullState(model.NullStateNull)
	case 4:
		c.SetType(model.ColumnTypeBigInt).SetDefault("7", true).SetNullState(model.NullStateNotNull)
	case 5:
		c.SetType(model.ColumnTypeVarChar).SetLength(model.NewLength("9")).SetComment("x")
	default:
		c.SetType(model.ColumnTypeInteger)
	}
	return c
}

func newTestIndex(t model.Table, n int) model.Index {
	x := model.NewIndex([]model.IndexKind{model.IndexKindNormal, model.IndexKindNormal, model.IndexKindUnique}[n%3], t.ID())
	if n%4 == 0 {
		x.SetType(model.IndexTypeBtree)
	}
	x.SetName("x" + strconv.Itoa(n))
	x.AddColumns(model.NewIndexColumn(colName(n)))
	return x
}

func colIDOf(n int) string { return model.NewTableColumn(colName(n)).ID() }

// The columns from this number on are made once, and the callers share them.
const (
	poolFirst = 900
	poolSize  = 3
)

// call makes a call on a table and renders its result.
func (op tableOp) call(t model.Table, pool []model.TableColumn) string {
	switch op.Op {
	case "addcol":
		if op.N >= poolFirst {
			t.AddColumn(pool[op.N-poolFirst])
			break
		}
		t.AddColumn(newTestColumn(op.N))
	case "addidx":
		t.AddIndex(newTestIndex(t, op.N))
	case "addopt":
		t.AddOption(model.NewTableOption("O", strconv.Itoa(op.N), false))
	case "lookup":
		c, ok := t.LookupColumn(colIDOf(op.N))
		if !ok {
			return "none"
		}
		return c.Name()
	case "order":
		n, ok := t.LookupColumnOrder(colIDOf(op.N))
		if !ok {
			return "none"
		}
		return fmt.Sprint(n)
	case "before":
		c, ok := t.LookupColumnBefore(colIDOf(op.N))
		if !ok {
			return "none"
		}
		return c.Name()
	case "cols":
		var l []string
		for c := range t.Columns() {
			l = append(l, nameOf(c))
		}
		return strings.Join(l, ",")
	case "idxs":
		var l []string
		for x := range t.Indexes() {
			l = append(l, x.Name())
		}
		return strings.Join(l, ",")
	case "opts":
		var l []string
		for o := range t.Options() {
			l = append(l, o.Value())
		}
		return strings.Join(l, ",")
	case "lookidx":
		x, ok := t.LookupIndex(newTestIndex(t, op.N).ID())
		if !ok {
			return "none"
		}
		return x.Name()
	case "format":
		var b bytes.Buffer
		err := format.SQL(&b, t)
		s := b.String()
		if err != nil {
			s += " error: " + err.Error()
		}
		return s
	case "normalize":
		n, _ := t.Normalize()
		var l []string
		for c := range n.Columns() {
			l = append(l, nameOf(c))
		}
		return strings.Join(l, ",")
	}
	return ""
}

func nameOf(c model.TableColumn) string {
	if c == nil {
		return "<nil>"
	}
	return c.Name()
}

// seqTable is the sequential specification.
type seqTable struct{ cols, idxs, opts []int }

func (s *seqTable) apply(op tableOp) (seqTable, string) {
	n := *s
	last := func(l []int, v int) int {
		for i := len(l) - 1; i >= 0; i-- {
			if l[i] == v {
				return i
			}
		}
		return -1
	}
	list := func(l []int, pre string) string {
		var o []string
		for _, v := range l {
			o = append(o, fmt.Sprintf("%s%d", pre, v))
		}
		return strings.Join(o, ",")
	}
	res := ""
	switch op.Op {
	case "addcol":
		n.cols = append(s.cols[:len(s.cols):len(s.cols)], op.N)
	case "addidx":
		n.idxs = append(s.idxs[:len(s.idxs):len(s.idxs)], op.N)
	case "addopt":
		n.opts = append(s.opts[:len(s.opts):len(s.opts)], op.N)
	case "lookup", "order", "before":
		i := last(s.cols, op.N)
		switch {
		case i < 0 || op.Op == "before" && i == 0:
			res = "none"
		case op.Op == "lookup":
			res = colName(op.N)
		case op.Op == "order":
			res = fmt.Sprint(i)
		default:
			res = colName(s.cols[i-1])
		}
	case "cols":
		res = list(s.cols, "c")
	case "idxs":
		res = list(s.idxs, "x")
	case "opts":
		res = list(s.opts, "")
	case "lookidx":
		res = "none"
		if last(s.idxs, op.N) >= 0 {
			res = fmt.Sprintf("x%d", op.N)
		}
	}
	return n, res
}

func (s *seqTable) key() string { return fmt.Sprint(s.cols, s.idxs, s.opts) }

type tableEvent struct {
	caller   int
	op       tableOp
	from, to int // logical times of call and return
	res      string
}

func (ev tableEvent) String() string {
	return fmt.Sprintf("[%d..%d] caller %d: %s(%d) = %q", ev.from, ev.to, ev.caller, ev.op.Op, ev.op.N, clip(ev.res, 60))
}

// linearizable searches for an order of the events that respects their times
// and gives the results seen.
func linearizable(start seqTable, evs []tableEvent) bool {
	seen := map[string]bool{}
	var rec func(done uint64, s seqTable) bool
	rec = func(done uint64, s seqTable) bool {
		if done == 1<<uint(len(evs))-1 {
			return true
		}
		k := fmt.Sprint(done, s.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int(^uint(0) >> 1)
		for i, ev := range evs {
			if done>>uint(i)&1 == 0 && ev.to < first {
				first = ev.to
			}
		}
		for i, ev := range evs {
			if done>>uint(i)&1 == 1 || ev.from > first {
				continue
			}
			n, res := s.apply(ev.op)
			if res == ev.res && rec(done|1<<uint(i), n) {
				return true
			}
		}
		return false
	}
	return rec(0, start)
}

// tick and note are the harness's own and must not order the callers.
//
//go:norace
func tick(clock *int) int {
	runtime.SimHold()
	*clock++
	n := *clock
	runtime.SimUnhold()
	return n
}

//go:norace
func note(evs *[]tableEvent, ev *tableEvent) {
	runtime.SimHold()
	*evs = append(*evs, *ev)
	runtime.SimUnhold()
}

func (tableOps) RunMulti(e *core.Env, bubble func(s core.Sched, f func()) string) {
	var d tableData
	e.Decode(&d)
	var start seqTable
	var evs []tableEvent
	var panics []string
	clock := 0
	finished := 0
	last, want := "", ""
	dl := bubble(e.Case.Sched, func() {
		t := model.NewTable("t")
		var pool []model.TableColumn
		for i := 0; i < poolSize; i++ {
			pool = append(pool, newTestColumn(poolFirst+i))
		}
		for _, op := range d.Start {
			op.call(t, pool)
			start, _ = start.apply(op)
		}
		done := make(chan bool)
		one := func(caller int, op tableOp) {
			ev := tableEvent{caller: caller, op: op, from: tick(&clock)}
			ev.res = op.call(t, pool)
			ev.to = tick(&clock)
			note(&evs, &ev)
		}
		for i, ops := range d.Callers {
			i, ops := i, ops
			go func() {
				defer func() {
					if x := recover(); x != nil {
						panics = append(panics, fmt.Sprintf("caller %d: %v", i, x))
					}
					done <- true
				}()
				for _, op := range ops {
					one(i, op)
				}
			}()
		}
		for range d.Callers {
			<-done
			finished++
		}
		for _, op := range []string{"cols", "idxs", "opts"} {
			one(-1, tableOp{Op: op})
		}
		for i, n := 0, len(evs); i < n && i < 30; i++ {
			if ev := evs[i]; ev.op.Op == "addcol" {
				one(-1, tableOp{Op: "lookup", N: ev.op.N})
				one(-1, tableOp{Op: "order", N: ev.op.N})
			}
		}
		// what has been added is still what it was
		last = tableOp{Op: "format"}.call(t, nil)
		fresh := model.NewTable("t")
		for c := range t.Columns() {
			if n, err := strconv.Atoi(strings.TrimPrefix(nameOf(c), "c")); err == nil {
				fresh.AddColumn(newTestColumn(n))
			}
		}
		for x := range t.Indexes() {
			if n, err := strconv.Atoi(strings.TrimPrefix(x.Name(), "x")); err == nil {
				fresh.AddIndex(newTestIndex(fresh, n))
			}
		}
		for o := range t.Options() {
			fresh.AddOption(model.NewTableOption("O", o.Value(), false))
		}
		want = tableOp{Op: "format"}.call(fresh, nil)
	})
	for _, ev := range evs {
		e.Logf("%v", ev)
		e.Probe("op/" + ev.op.Op)
	}
	if len(panics) > 0 {
		e.Fail("panic", "%s", panics[0])
		return
	}
	if dl != "" {
		e.Fail("stuck", "%d of %d callers returned: %s", finished, len(d.Callers), dl)
		return
	}
	if last != want {
		e.Fail("changed", "in the end the table is not what was added to it: %s", firstDiff(want, last))
		return
	}
	var hist []tableEvent
	for _, ev := range evs {
		switch ev.op.Op {
		case "format", "normalize":
			// every column that was there before, and none that was not yet there after
			for _, a := range evs {
				if a.op.Op != "addcol" {
					continue
				}
				name := colName(a.op.N)
				has := false
				if ev.op.Op == "format" {
					has = strings.Contains(ev.res, "\n`"+name+"` ")
				} else {
					has = strings.Contains(","+ev.res+",", ","+name+",")
				}
				if a.to < ev.from && !has {
					e.Fail("lost", "%v lacks a column that had been added: %v", ev, a)
				}
				first := true
				for _, b := range evs {
					first = first && !(b.op == a.op && b.from < a.from)
				}
				for _, b := range d.Start {
					first = first && b != a.op
				}
				if a.from > ev.to && has && first {
					e.Fail("invented", "%v has a column that was added later: %v", ev, a)
				}
			}
			if strings.Contains(ev.res, " error: ") {
				e.Fail("error", "%v", ev)
			}
		default:
			hist = append(hist, ev)
		}
	}
	if e.Failed() {
		return
	}
	if len(hist) > 62 {
		e.Probe("history-too-long")
		return
	}
	e.Probe(fmt.Sprintf("history/%d-callers", len(d.Callers)))
	if !linearizable(start, hist) {
		var l []string
		for _, ev := range hist {
			l = append(l, ev.String())
		}
		e.Fail("not-linearizable", "no order of these calls explains their results (table at first: %s):\n  %s", start.key(), strings.Join(l, "\n  "))
	}
}

func (tableOps) Shrink(raw json.RawMessage) (l []interface{}) {
	dec := func() *tableData { var x tableData; json.Unmarshal(raw, &x); return &x }
	d := dec()
	for i := range d.Callers {
		x := dec()
		x.Callers = append(x.Callers[:i], x.Callers[i+1:]...)
		l = append(l, x)
		for j := range d.Callers[i] {
			x := dec()
			x.Callers[i] = append(x.Callers[i][:j], x.Callers[i][j+1:]...)
			l = append(l, x)
		}
	}
	for i := range d.Start {
		x := dec()
		x.Start = append(x.Start[:i], x.Start[i+1:]...)
		l = append(l, x)
	}
	return
}
