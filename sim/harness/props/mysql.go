//go:build go1.22

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/gen"
	"github.com/schemalex/schemalex/verifsim/simk"
	"github.com/schemalex/schemalex/verifsim/simsql"
)

func init() {
	core.Register("C06", mysqlSrc{})
	core.Describe("C06", core.Meta{
		Rule:   "A MySQL source (or a diff of two) fetches the schema of simulated servers with drawn tables while dials are refused or delayed, connections are reset, closed or stalled at drawn byte offsets, the server answers with errors before, amid or instead of its rows, kills connections, refuses logins, and another client creates, drops or alters tables between statements; nil must mean that every table that was there throughout is delivered exactly once with the definition the server gave.",
		Real:   []string{"schemalex MySQL source, diff", "database/sql", "go-sql-driver/mysql: handshake, text protocol, connection handling"},
		Stub:   []string{"MySQL server (wire protocol, SHOW TABLES, SHOW CREATE TABLE)", "TCP (in-memory, with latency, segmentation and faults)", "goroutine scheduler decisions", "clock and timers"},
		Assume: []string{"definitions arrive unaltered: TCP checksums and the packet framing exclude altered bytes"},
	})
	core.Register("C07", mysqlRes{})
	core.Describe("C07", core.Meta{
		Rule:   "As C06, with a dial, read and write timeout in every DSN and more stalls, black holes and hanging dials; after the call returns every connection it opened must be closed, every goroutine gone, and it must return within the time its timeouts and the server's own delays allow.",
		Real:   []string{"schemalex MySQL source, diff", "database/sql", "go-sql-driver/mysql"},
		Stub:   []string{"MySQL server", "TCP", "goroutine scheduler decisions", "clock and timers"},
		Assume: []string{"a server that trickles bytes faster than the read timeout may take as long as it likes"},
	})
}

type mysqlSrc struct{}
type mysqlRes struct{ mysqlSrc }

type myTable struct {
	Name core.Text `json:"n"`
	Def  core.Text `json:"def,omitempty"`
	View bool      `json:"view,omitempty"`
}

type myDDL struct {
	After int       `json:"after_statement"`
	Kind  string    `json:"kind"` // create, drop, alter
	Name  core.Text `json:"n"`
	Def   core.Text `json:"def,omitempty"`
}

type myData struct {
	Tables   [][]myTable `json:"tables"` // per server
	DDL      []myDDL     `json:"ddl,omitempty"`
	Op       string      `json:"op"` // direct, uri, diff
	Params   []string    `json:"params,omitempty"`
	Timeout  int         `json:"timeout_ms,omitempty"`
	RTimeout int         `json:"read_timeout_ms,omitempty"`
	WTimeout int         `json:"write_timeout_ms,omitempty"`
	Latency  int         `json:"latency_us,omitempty"`
	Chunk    int         `json:"chunk,omitempty"`
	MaxConns int         `json:"max_connections,omitempty"`
	Pass     string      `json:"pass"`
	BadPass  bool        `json:"bad_password,omitempty"`
	BadDB    bool        `json:"bad_database,omitempty"`
	NoDB     bool        `json:"no_database,omitempty"`
	Down     bool        `json:"server_down,omitempty"`
	Dst      bool        `json:"faulty_dst,omitempty"`
	// Prior reads come first, undisturbed, when the tables were Prev.
	Prior int       `json:"earlier_reads,omitempty"`
	Prev  []myTable `json:"tables_then,omitempty"`
	Same  bool      `json:"same_source,omitempty"`
	Gap   int       `json:"gap_ms,omitempty"`
}

func (mysqlSrc) Name() string { return "mysql-source" }
func (mysqlRes) Name() string { return "mysql-resources" }

func myName(r *rand.Rand, i int) string {
	n := gen.Name(r, []string{"t_", "", "T"}[r.Intn(3)])
	switch r.Intn(12) {
	case 0:
		n = []string{"order", "my table", "日本語", "a.b", "x`y", "``", "percent%s", "semi;colon", "quote'd", "back\\slash", "dash-", "UPPER"}[r.Intn(12)]
	}
	return fmt.Sprintf("%s%d", n, i)
}

func myTables(r *rand.Rand, n int) (l []myTable) {
	s := gen.Any(r, n+1, []int{2, 6}[r.Intn(2)])
	seen := map[string]bool{}
	for i, t := range s.Tables {
		if t.Like != "" {
			continue
		}
		t.Name = myName(r, i)
		if len(l) > 0 && r.Intn(8) == 0 {
			// the same name in another case is another table
			o := string(l[r.Intn(len(l))].Name)
			n := strings.ToUpper(o)
			if n == o {
				n = strings.ToLower(o)
			}
			if !seen[n] {
				t.Name = n
			}
		}
		seen[t.Name] = true
		t.INE = false
		l = append(l, myTable{Name: core.Text(t.Name), Def: core.Text(t.SQL())})
	}
	if r.Intn(2) == 0 {
		sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	}
	if len(l) > n {
		l = l[:n]
	}
	return
}

func (m mysqlSrc) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	return m.gen(r, false)
}

func (m mysqlRes) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	return m.gen(r, true)
}

func (mysqlSrc) gen(r *rand.Rand, res bool) (interface{}, []core.Fault, core.Sched) {
	var d myData
	d.Op = []string{"direct", "direct", "uri", "diff"}[r.Intn(4)]
	ns := 1
	if d.Op == "diff" {
		ns = 2
	}
	for i := 0; i < ns; i++ {
		d.Tables = append(d.Tables, myTables(r, []int{0, 1, 2, 4, 8}[r.Intn(5)]))
	}
	if ns == 1 && r.Intn(15) == 0 {
		d.Tables[0] = append(d.Tables[0], myTable{Name: "v_view", View: true})
	}
	switch {
	case ns > 1 || res:
	case r.Intn(50) == 0:
		// a server with many tables
		for n := []int{40, 70, 130, 300}[r.Intn(4)]; n > 0; n-- {
			name := fmt.Sprintf("t%03d_%s", n, strings.Repeat("x", r.Intn(20)))
			d.Tables[0] = append(d.Tables[0], myTable{Name: core.Text(name), Def: core.Text("CREATE TABLE `" + name + "` (`id` INT)")})
		}
	case r.Intn(50) == 0 && len(d.Tables[0]) > 0:
		// one with a large definition
		t := &d.Tables[0][r.Intn(len(d.Tables[0]))]
		if d.Op == "direct" && !t.View {
			n := []int{4096, 16384, 32768, 65536}[r.Intn(4)] + r.Intn(200) - 100
			t.Def += core.Text(" COMMENT='" + strings.Repeat("c", max(1, n-len(t.Def)-11)) + "'")
		}
	}
	d.Pass = []string{"pass", "", "p@ss:w/d"}[r.Intn(3)]
	d.Latency = []int{0, 0, 100, 5000, 80000}[r.Intn(5)]
	d.Chunk = []int{0, 0, 1 + r.Intn(10), 20 + r.Intn(300)}[r.Intn(4)]
	if res || r.Intn(2) == 0 {
		d.Timeout = []int{500, 3000, 10000}[r.Intn(3)]
		d.RTimeout = []int{500, 3000, 10000}[r.Intn(3)]
		d.WTimeout = []int{0, 500, 3000, 10000, 60000}[r.Intn(5)]
	}
	for _, p := range []string{"charset=utf8mb4,utf8", "parseTime=true", "collation=utf8mb4_bin", "maxAllowedPacket=0", "interpolateParams=true", "loc=UTC", "time_zone=%27%2B00%3A00%27"} {
		if r.Intn(12) == 0 {
			d.Params = append(d.Params, p)
		}
	}
	d.Dst = r.Intn(4) == 0
	var fs []core.Fault
	add := func(site, kind string, nth, arg int) {
		fs = append(fs, core.Fault{Site: site, Kind: kind, Nth: nth, Arg: arg})
	}
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	conn := func() string {
		if r.Intn(6) == 0 {
			return "conns" // every one
		}
		return fmt.Sprintf("conn%d", 1+r.Intn(1+2*ns))
	}
	for n := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]; n > 0; n-- {
		nth := 1 + r.Intn([]int{1, 2, 8}[r.Intn(3)])
		if r.Intn(8) == 0 {
			nth = 0 // every time
		}
		sv := fmt.Sprintf("s%d:", r.Intn(ns))
		k := r.Intn(12)
		if res && r.Intn(2) == 0 {
			k = []int{0, 10, 11, 11, 11}[r.Intn(5)]
		}
		switch k {
		case 0:
			kind := pick("refuse", "unreachable", "dial-delay")
			if d.Timeout > 0 {
				kind = pick(kind, "dial-hang")
			}
			add(conn(), kind, 0, r.Intn(4000))
		case 1, 2, 3:
			add(sv+"list", pick("err", "err-rows", "err-rows", "err-rows", "drop", "drop-rows", "drop-rows", "err-cols", "slow", "trickle", "garbage"), min(1, r.Intn(6)), r.Intn(50))
		case 4, 5, 6, 7:
			add(sv+"create", pick("err", "err", "err", "norows", "null", "err-rows", "drop", "drop-rows", "err-cols", "slow", "trickle", "garbage"), nth, r.Intn(50))
		case 8:
			add(sv+"handshake", pick("too-many", "slow", "blocked", "auth-drop", "denied"), nth, r.Intn(3000))
		case 9:
			if d.Dst {
				add("dst", pick("error", "short", "full+error", "delay"), 1, r.Intn(100))
			}
		case 10:
			add(conn(), pick("c2s-rst", "c2s-fin"), 0, r.Intn([]int{10, 100, 400}[r.Intn(3)]))
		case 11:
			kind := pick("s2c-rst", "s2c-fin", "s2c-stall")
			if d.RTimeout > 0 && (res || r.Intn(2) == 0) {
				kind = pick("s2c-blackhole", "s2c-stall", "c2s-blackhole")
			}
			add(conn(), kind, 0, r.Intn([]int{100, 400, 2000, 6000}[r.Intn(4)]))
		}
	}
	switch r.Intn(30) {
	case 0:
		d.BadPass = true
	case 1:
		d.BadDB = true
		d.NoDB = r.Intn(2) == 0
	case 2:
		d.Down = true
	case 3, 4:
		d.MaxConns = 1 + r.Intn(2)
	}
	if ns == 1 && r.Intn(4) == 0 {
		t := d.Tables[0]
		for n := 1 + r.Intn(3); n > 0; n-- {
			x := myDDL{After: 1 + r.Intn(len(t)+2), Kind: pick("create", "drop", "alter")}
			if x.Kind == "create" || len(t) == 0 {
				nt := myTables(r, 1)
				if len(nt) == 0 {
					continue
				}
				x.Kind, x.Name, x.Def = "create", "zz_"+nt[0].Name, nt[0].Def
			} else {
				v := t[r.Intn(len(t))]
				if v.View {
					continue
				}
				x.Name = v.Name
				if x.Kind == "alter" {
					x.Def = v.Def + " COMMENT='altered'"
				}
			}
			d.DDL = append(d.DDL, x)
		}
	}
	if r.Intn(5) == 0 {
		d.Prior = 1 + r.Intn(2)
		d.Same = r.Intn(2) == 0
		d.Gap = []int{0, 0, 1000, 600000}[r.Intn(4)]
		for _, t := range d.Tables[0] {
			switch r.Intn(6) {
			case 0:
				continue
			case 1:
				t.Def += " COMMENT='earlier'"
			}
			if !t.View {
				d.Prev = append(d.Prev, t)
			}
		}
		if r.Intn(3) == 0 {
			d.Prev = append(d.Prev, myTable{Name: "gone", Def: "CREATE TABLE `gone` (`id` INT)"})
		}
	}
	return d, fs, core.RandSched(r, r.Intn(4) == 0)
}

// myHost is a simulated server's table store with its history.
type myHost struct {
	srv      *simsql.Server
	tables   []*simsql.Table
	defs     map[string]string          // current definitions
	versions map[string]map[string]bool // every definition a table ever had
	touched  map[string]bool            // tables that changed
	listed   [][]string
}

func newHost(e *core.Env, n *simsql.Net, i int, d *myData) *myHost {
	h := &myHost{srv: simsql.NewServer(e, fmt.Sprintf("s%d", i)), defs: map[string]string{}, versions: map[string]map[string]bool{}, touched: map[string]bool{}}
	h.srv.Pass = d.Pass
	h.srv.MaxConns = d.MaxConns
	h.srv.Others = map[string]bool{"user": true, "mysql": true, "information_schema": true, "test": true, "DB": true}
	h.set(d.Tables[i])
	h.srv.List = func() []*simsql.Table { return append([]*simsql.Table(nil), h.tables...) }
	h.srv.Lookup = func(name string) *simsql.Table {
		for _, t := range h.tables {
			if t.Name == name {
				return t
			}
		}
		return nil
	}
	h.srv.OnListed = func(names []string) { h.listed = append(h.listed, names) }
	if !d.Down {
		n.Add(fmt.Sprintf("db%d:3306", i), h.srv)
	}
	return h
}

// set makes the server have just these tables.
func (h *myHost) set(l []myTable) {
	runtime.SimHold()
	defer runtime.SimUnhold()
	h.tables, h.defs, h.versions, h.touched = nil, map[string]string{}, map[string]map[string]bool{}, map[string]bool{}
	for _, t := range l {
		h.put(string(t.Name), string(t.Def), t.View)
	}
}

func (h *myHost) put(name, def string, view bool) {
	h.defs[name] = def
	if h.versions[name] == nil {
		h.versions[name] = map[string]bool{}
	}
	h.versions[name][def] = true
	h.tables = append(h.tables, &simsql.Table{Name: name, View: view, Def: func() string { return h.defs[name] }})
}

func (d *myData) dsn(i int) string {
	pass, db := d.Pass, "db"
	if d.BadPass {
		pass = "wrong"
	}
	if d.BadDB {
		db = "nosuch"
	}
	if d.NoDB {
		db = ""
	}
	var p []string
	for _, x := range []struct {
		n string
		v int
	}{{"timeout", d.Timeout}, {"readTimeout", d.RTimeout}, {"writeTimeout", d.WTimeout}} {
		if x.v > 0 {
			p = append(p, fmt.Sprintf("%s=%dms", x.n, x.v))
		}
	}
	p = append(p, d.Params...)
	s := fmt.Sprintf("user:%s@tcp(db%d:3306)/%s", pass, i, db)
	if len(p) > 0 {
		s += "?" + strings.Join(p, "&")
	}
	return s
}

func (m mysqlSrc) Run(e *core.Env) { runMySQL(e, false) }
func (m mysqlRes) Run(e *core.Env) { runMySQL(e, true) }

// JudgeDeadlock leaves what is left behind to C07.
func (mysqlSrc) JudgeDeadlock(e *core.Env, d string) {
	if e.Done {
		return
	}
	e.Fail("stuck", "%s", d)
}

func (mysqlRes) JudgeDeadlock(e *core.Env, d string) {
	if e.Done {
		e.Fail("leak", "goroutines are left after the call: %s", d)
		return
	}
	e.Fail("stuck", "%s", d)
}

func runMySQL(e *core.Env, res bool) {
	var d myData
	e.Decode(&d)
	simk.New(e)
	defer simk.Drop()
	n := simsql.NewNet(e)
	n.Latency = time.Duration(d.Latency) * time.Microsecond
	n.Chunk = d.Chunk
	var hosts []*myHost
	for i := range d.Tables {
		hosts = append(hosts, newHost(e, n, i, &d))
	}
	sources := make([]schemalex.SchemaSource, len(hosts))
	src := func(i int) schemalex.SchemaSource {
		if sources[i] != nil && d.Same {
			return sources[i]
		}
		if d.Op == "uri" {
			s, err := schemalex.NewSchemaSource("mysql://" + d.dsn(i))
			if err != nil {
				e.Fail("no-source", "%v", err)
			}
			sources[i] = s
		} else {
			sources[i] = schemalex.NewMySQLSource(d.dsn(i))
		}
		return sources[i]
	}
	if d.Prior > 0 {
		e.Pause(true)
		h := hosts[0]
		h.set(d.Prev)
		for j := 0; j < d.Prior; j++ {
			if d.Op == "diff" {
				diff.Sources(ioutil.Discard, src(0), src(1))
			} else if s := src(0); s != nil {
				err := s.WriteSchema(ioutil.Discard)
				e.Logf("earlier read: %v", err)
			}
			time.Sleep(time.Duration(d.Gap) * time.Millisecond)
		}
		h.set(d.Tables[0])
		runtime.SimHold()
		for _, h := range hosts {
			h.srv.Queries, h.listed = nil, nil
		}
		n.Dials = 0
		runtime.SimUnhold()
		e.Pause(false)
		e.Probe("read-before")
	}
	ddlFired := 0
	hosts[0].srv.AfterQuery = func(k int) {
		h := hosts[0]
		for _, x := range d.DDL {
			if x.After != k {
				continue
			}
			name := string(x.Name)
			e.Probe("ddl/" + x.Kind)
			ddlFired++
			h.touched[name] = true
			switch x.Kind {
			case "create":
				if h.srv.Lookup(name) == nil {
					h.put(name, string(x.Def), false)
				}
			case "drop":
				for i, t := range h.tables {
					if t.Name == name {
						h.tables = append(h.tables[:i:i], h.tables[i+1:]...)
						break
					}
				}
			case "alter":
				if h.srv.Lookup(name) != nil {
					h.defs[name] = string(x.Def)
					h.versions[name][string(x.Def)] = true
				}
			}
		}
	}
	out := &sink{e: e, site: "dst"}
	var plain bytes.Buffer
	var dst io.Writer = &plain
	if d.Dst {
		dst = out
	}
	start := time.Now()
	var err error
	if d.Op == "diff" {
		err = diff.Sources(dst, src(0), src(1))
	} else if s := src(0); s != nil {
		err = s.WriteSchema(dst)
	}
	took := time.Since(start)
	got := plain.String() + out.buf.String()
	queries := 0
	for _, h := range hosts {
		queries += len(h.srv.Queries)
	}
	e.Logf("%s err=%v %d bytes, %d dials, %d statements, took %v", d.Op, err, len(got), n.Dials, queries, took)
	e.Probe("op/" + d.Op)
	if err == nil {
		e.Probe("result/ok")
	} else {
		e.Probe("result/error")
	}
	if res {
		judgeResources(e, &d, n, hosts, took)
	} else {
		judgeMySQL(e, &d, hosts, out, got, err, ddlFired)
	}
	n.Drop()
	e.Done = true
}

func judgeResources(e *core.Env, d *myData, n *simsql.Net, hosts []*myHost, took time.Duration) {
	ms := func(k int) time.Duration { return time.Duration(k) * time.Millisecond }
	per := ms(d.Timeout + d.RTimeout)
	queries := 0
	for _, h := range hosts {
		queries += len(h.srv.Queries)
	}
	// A fault concerns one connection or one statement and makes the source
	// wait for one timeout at most; nothing else makes it wait. Faults that
	// concern all make each of the few attempts fail, and then the call.
	bound := per
	for _, f := range e.Case.Faults {
		times := 1
		switch {
		case f.Site == "conns":
			times = 6 * len(hosts)
		case f.Nth == 0 && strings.Contains(f.Site, ":"):
			times = 3
			if harmless("sql/" + f.Kind) {
				times = queries + 3
			}
		}
		x := per
		switch f.Kind {
		case "slow", "dial-delay", "delay":
			x += ms(f.Arg)
		case "trickle":
			x += ms((1 + f.Arg) * 400)
		case "s2c-stall":
			x += 20 * time.Second
		}
		bound += time.Duration(times) * x
	}
	lat := time.Duration(d.Latency) * time.Microsecond
	bound += lat * time.Duration(4*(n.Dials+queries)+8)
	if d.Chunk > 0 {
		bound += lat / 16 * time.Duration(200000/d.Chunk)
	}
	for _, x := range e.Case.Sched.Stalls {
		bound += time.Duration(x[1])
	}
	bound += bound/2 + 5*time.Second
	if took > bound {
		e.Fail("too-slow", "the call took %v of simulated time; timeouts and server delays allow %v", took, bound)
	}
	if k := n.Open(); k > 0 {
		e.Fail("connection-leak", "%d of %d connections are still open after the call returned", k, n.Dials)
	}
}

// harmless tells whether a fault that fired need not make the call fail.
func harmless(kind string) bool {
	switch kind {
	case "dial/delay", "sql/slow", "sql/slow-handshake", "sql/trickle", "sink/delay", "net/s2c-stall":
		return true
	}
	return false
}

func judgeMySQL(e *core.Env, d *myData, hosts []*myHost, out *sink, got string, err error, ddl int) {
	faulty := d.BadPass || d.BadDB || d.Down || d.MaxConns > 0
	for _, k := range e.FiredKinds() {
		if !harmless(k) {
			faulty = true
		}
		// delays can run into the timeouts
		if d.RTimeout > 0 && (k == "net/s2c-stall" || strings.HasPrefix(k, "sql/slow") || k == "sql/trickle" || k == "dial/delay") {
			faulty = true
		}
	}
	if d.RTimeout > 0 && d.Latency*4 > d.RTimeout*1000 {
		faulty = true
	}
	h := hosts[0]
	view := false
	for _, t := range d.Tables[0] {
		view = view || t.View
	}
	if err != nil {
		if !faulty && ddl == 0 && !view && d.Op != "diff" {
			e.Fail("spurious-error", "nothing failed, but the source returned %v", err)
		}
		return
	}
	if out.fired {
		e.Fail("write-error-lost", "a write to the destination failed, but the source returned nil")
		return
	}
	if d.BadPass && d.Pass != "wrong" || d.BadDB || d.Down {
		e.Fail("error-lost", "the server could not be used, but the source returned nil")
		return
	}
	if d.Op == "diff" {
		judgeDiff(e, hosts, got)
		return
	}
	// split what was delivered into definitions that the server had
	type def struct{ name, text string }
	var known []def
	for n, vs := range h.versions {
		for v := range vs {
			known = append(known, def{n, v})
		}
	}
	sort.Slice(known, func(i, j int) bool {
		if len(known[i].text) != len(known[j].text) {
			return len(known[i].text) > len(known[j].text)
		}
		return known[i].text < known[j].text
	})
	count := map[string]int{}
	var order []string
	rest := strings.TrimSpace(got)
	for rest != "" {
		found := false
		for _, k := range known {
			if k.text == "" || !strings.HasPrefix(rest, k.text) {
				continue
			}
			tail := strings.TrimLeft(rest[len(k.text):], " \t\n")
			if !strings.HasPrefix(tail, ";") {
				continue
			}
			count[k.name]++
			order = append(order, k.name)
			rest = strings.TrimSpace(tail[1:])
			found = true
			break
		}
		if !found {
			e.Fail("wrong-definition", "delivered something that is not a definition the server gave: %q", clip(rest, 300))
			return
		}
	}
	for n, c := range count {
		if c > 1 {
			e.Fail("duplicate", "table %q was delivered %d times", n, c)
		}
	}
	for _, t := range d.Tables[0] {
		if t.View || h.touched[string(t.Name)] {
			continue
		}
		if count[string(t.Name)] == 0 {
			e.Fail("incomplete", "the source returned nil, but table %q, which was there all the time, was not delivered (%d of %d tables were)", string(t.Name), len(count), len(d.Tables[0]))
			return
		}
	}
	if ddl == 0 && !view {
		var want []string
		for _, t := range d.Tables[0] {
			want = append(want, string(t.Name))
		}
		if strings.Join(want, "\x00") != strings.Join(order, "\x00") {
			e.Fail("order", "tables were delivered as %q, the server lists them as %q", order, want)
		}
	}
}

// judgeDiff compares with the diff of the complete schemas.
func judgeDiff(e *core.Env, hosts []*myHost, got string) {
	text := func(h *myHost) string {
		var b strings.Builder
		for _, t := range h.tables {
			b.WriteString(t.Def() + ";\n")
		}
		return b.String()
	}
	var want bytes.Buffer
	if err := diff.Strings(&want, text(hosts[0]), text(hosts[1])); err != nil {
		e.Fail("error-lost", "the diff succeeded, but that of the complete schemas fails: %v", err)
		return
	}
	if want.String() != got {
		e.Fail("incomplete", "diff returned nil, but its output is not that of the complete schemas: %s", firstDiff(want.String(), got))
	}
}

func (mysqlSrc) Shrink(raw json.RawMessage) (l []interface{}) {
	var d myData
	json.Unmarshal(raw, &d)
	dec := func() *myData { var x myData; json.Unmarshal(raw, &x); return &x }
	for i := range d.Tables {
		for j := range d.Tables[i] {
			x := dec()
			x.Tables[i] = append(x.Tables[i][:j], x.Tables[i][j+1:]...)
			l = append(l, x)
		}
	}
	if d.Prior > 0 {
		x := dec()
		x.Prior--
		l = append(l, x)
		x = dec()
		x.Gap, x.Same = 0, true
		l = append(l, x)
		for j := range d.Prev {
			x := dec()
			x.Prev = append(x.Prev[:j], x.Prev[j+1:]...)
			l = append(l, x)
		}
	}
	for i := range d.DDL {
		x := dec()
		x.DDL = append(x.DDL[:i], x.DDL[i+1:]...)
		l = append(l, x)
	}
	for i := range d.Params {
		x := dec()
		x.Params = append(x.Params[:i], x.Params[i+1:]...)
		l = append(l, x)
	}
	if d.Latency != 0 {
		x := dec()
		x.Latency = 0
		l = append(l, x)
	}
	if d.Chunk != 0 {
		x := dec()
		x.Chunk = 0
		l = append(l, x)
	}
	if d.Dst {
		x := dec()
		x.Dst = false
		l = append(l, x)
	}
	for i := range d.Tables {
		for j, t := range d.Tables[i] {
			small := "CREATE TABLE " + gen.Q(string(t.Name)) + " (\n  `a` INT\n)"
			if !t.View && string(t.Def) != small {
				x := dec()
				x.Tables[i][j].Def = core.Text(small)
				l = append(l, x)
			}
		}
	}
	return
}
