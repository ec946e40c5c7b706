//go:build go1.22

package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/simk"
	"github.com/schemalex/schemalex/verifsim/simsql"
)

const tlsFile = "/tls/%d/%s.pem"

func init() {
	core.Register("C16", secrets{})
	core.Describe("C16", core.Meta{
		Rule:   "One or two MySQL sources with unique passwords (used directly, in a diff, in the linter, or by one of the three commands) reach simulated servers that announce or switch to other authentication methods (old, clear text, sha256_password, caching_sha2_password, unknown ones), ask for local files, fail and disconnect, while DSNs are malformed, certificate files are unreadable and the output fails; every byte sent, every error, standard output, standard error and the output file are searched for the passwords, the private keys and the files.",
		Real:   []string{"schemalex MySQL source, NewSchemaSource, diff, lint, the three commands", "database/sql", "go-sql-driver/mysql", "crypto/tls"},
		Stub:   []string{"MySQL servers", "TCP", "kernel: files, standard streams, processes", "goroutine scheduler decisions", "clock, timers and randomness"},
		Assume: []string{"what a DSN allows explicitly (allowCleartextPasswords, allowAllFiles) is wanted"},
	})
}

type secrets struct{}

type secretSrc struct {
	Tables []myTable   `json:"tables"`
	User   string      `json:"user"`
	Pre    string      `json:"password_prefix"`
	Core   string      `json:"password"`
	Params []string    `json:"params,omitempty"`
	TLS    string      `json:"tls,omitempty"` // on, bad-key, no-ca, or files given for each other
	URI    string      `json:"uri,omitempty"` // what stands for mysql://
	Form   string      `json:"dsn_form,omitempty"`
	Auth   simsql.Auth `json:"server"`
	File   bool        `json:"not_mysql,omitempty"` // a local file instead
	Other  core.Text   `json:"file,omitempty"`
	sv     *simsql.Server
}

type secretData struct {
	Srcs    []secretSrc `json:"sources"`
	Op      string      `json:"op"` // source, diff, lint, schemalex, schemadiff, schemalint
	Out     string      `json:"out,omitempty"`
	Latency int         `json:"latency_us,omitempty"`
	Chunk   int         `json:"chunk,omitempty"`
	Canary  string      `json:"file_content"`
}

func (secrets) Name() string { return "secrets" }

func word(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[r.Intn(62)]
	}
	return string(b)
}

const secretFile = "/home/me/secret.txt"

func (secrets) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d secretData
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	d.Op = pick("source", "diff", "diff", "lint", "schemalex", "schemadiff", "schemadiff", "schemalint")
	n := 1
	if d.Op == "diff" || strings.HasPrefix(d.Op, "schema") && d.Op != "schemalint" {
		n = 2
	}
	d.Canary = word(r, 24)
	d.Out = pick("", "", "/sim/out.sql", "/sim/none/out.sql")
	d.Latency = []int{0, 0, 100, 5000}[r.Intn(4)]
	d.Chunk = []int{0, 0, 1 + r.Intn(60), 100 + r.Intn(1000)}[r.Intn(4)]
	plugins := []string{"mysql_native_password", "caching_sha2_password", "caching_sha2_password", "sha256_password", "mysql_clear_password", "mysql_clear_password", "mysql_old_password", "dialog", "auth_gssapi_client"}
	for i := 0; i < n; i++ {
		s := secretSrc{Tables: myTables(r, r.Intn(3)), User: pick("root", "app_user", "me", "a.b", "x-y") + fmt.Sprint(i), Core: word(r, 12)}
		if r.Intn(3) == 0 {
			s.Pre = pick("p@", "a:b", "%41", "x/y?", "'\"", " ", "(", "日本", "a=b&c")
		}
		if n == 2 && r.Intn(5) == 0 {
			s.File = true
			s.Other = core.Text(pick("", "CREATE TABLE a (id INT);", "CREATE TABLE ("))
		}
		switch r.Intn(6) {
		case 0:
			s.TLS = pick("on", "on", "bad-key", "no-ca", "ca-is-key", "swapped", "key-everywhere")
		}
		for _, p := range []string{"allowCleartextPasswords=true", "allowCleartextPasswords=false", "allowOldPasswords=true", "allowOldPasswords=false", "allowNativePasswords=false", "allowAllFiles=true", "allowAllFiles=false", "interpolateParams=true", "charset=utf8mb4", "multiStatements=true"} {
			if r.Intn(25) == 0 {
				s.Params = append(s.Params, p)
			}
		}
		if r.Intn(3) > 0 {
			s.Auth.Plugin = plugins[r.Intn(len(plugins))]
		}
		if r.Intn(2) == 0 {
			s.Auth.Switch = plugins[r.Intn(len(plugins))]
			s.Auth.NoData = r.Intn(6) == 0
		} else if r.Intn(8) == 0 {
			s.Auth.Bare = true
		}
		s.Auth.Full = r.Intn(2) == 0
		s.Auth.Anyway = r.Intn(2) == 0
		if r.Intn(3) == 0 {
			s.Auth.Infile = pick(secretFile, secretFile, fmt.Sprintf(tlsFile, i, "key"), "/sim/in.sql", "Reader::x", "/x/Reader::data", `"`+secretFile+`"`)
			s.Auth.InfileN = 1 + r.Intn(3)
		}
		if !s.File && r.Intn(5) == 0 {
			s.Form = pick("no-slash", "no-paren", "no-net", "bad-net", "?timeout=soon", "?parseTime=maybe", "?tls=nosuch", "?collation=nosuch", "?loc=Nowhere", "?x", "?maxAllowedPacket=abc", "?tls=%zz", "?rejectReadOnly=1", "?nosuch=1")
		} else if !s.File && d.Op != "source" && r.Intn(8) == 0 {
			s.URI = pick("MYSQL://", "Mysql://", "mysql:/", "mysql:", "my_sql://", "none", "://", " mysql://", "mysqls://", "http://", "file://", "local-git://")
		}
		if s.URI != "" {
			s.Pre = ""
		}
		d.Srcs = append(d.Srcs, s)
	}
	var fs []core.Fault
	add := func(site, kind string, nth, arg int) {
		fs = append(fs, core.Fault{Site: site, Kind: kind, Nth: nth, Arg: arg})
	}
	conn := func() string { return fmt.Sprintf("conn%d", 1+r.Intn(1+2*n)) }
	for k := []int{0, 0, 1, 1, 2}[r.Intn(5)]; k > 0; k-- {
		sv := fmt.Sprintf("s%d:", r.Intn(n))
		switch r.Intn(8) {
		case 0:
			add(conn(), pick("refuse", "unreachable", "dial-delay", "dial-hang"), 0, r.Intn(4000))
		case 1:
			add(sv+"list", pick("err", "err-rows", "drop", "drop-rows", "garbage", "slow"), 1, r.Intn(50))
		case 2:
			add(sv+"create", pick("err", "err-rows", "drop", "drop-rows", "garbage", "slow"), 1+r.Intn(2), r.Intn(50))
		case 3, 4:
			add(sv+"handshake", pick("too-many", "slow", "blocked", "auth-drop", "denied", "denied"), 1+r.Intn(2), r.Intn(3000))
		case 5:
			add(conn(), pick("c2s-rst", "c2s-fin", "c2s-blackhole", "s2c-rst", "s2c-fin", "s2c-blackhole", "s2c-stall"), 0, r.Intn([]int{60, 200, 2000}[r.Intn(3)]))
		case 6:
			if d.Out == "/sim/out.sql" {
				add(pick("write:", "open:", "close:")+d.Out, pick("eio", "enospc"), 1, 0)
			} else {
				add("write:stdout", pick("eio", "epipe"), 1, 0)
			}
		case 7:
			add(pick("read:", "open:")+fmt.Sprintf(tlsFile, r.Intn(n), pick("ca", "cert", "key")), "eio", 1, 0)
		}
	}
	s := core.RandSched(r, false)
	s.YieldMalloc = 0
	return d, fs, s
}

// showsKey tells whether a text has any 16 characters in a row of a private key
// in PEM, without what all keys begin with.
func showsKey(t, key string) bool {
	if len(t) < 16 {
		return false
	}
	for n, l := range strings.Split(key, "\n") {
		if strings.HasPrefix(l, "-----") {
			continue
		}
		i := 0
		if n == 1 {
			i = 30
		}
		for ; i+16 <= len(l); i += 4 {
			if strings.Contains(t, l[i:i+16]) {
				return true
			}
		}
	}
	return false
}

func (s *secretSrc) pass() string { return s.Pre + s.Core }

func (s *secretSrc) has(p string) bool {
	for _, x := range s.Params {
		if x == p {
			return true
		}
	}
	return false
}

// dsn gives the source's DSN, without mysql://.
func (s *secretSrc) dsn(i int) string {
	p := append([]string{"timeout=2s", "readTimeout=2s", "writeTimeout=2s"}, s.Params...)
	if s.TLS != "" {
		p = append(p, "tls=true")
		for _, n := range []string{"ca", "cert", "secret"} {
			f := n
			if n == "secret" {
				f = "key"
			}
			switch {
			case s.TLS == "key-everywhere", s.TLS == "ca-is-key" && f == "ca":
				f = "key"
			case s.TLS == "swapped" && f == "key":
				f = "cert"
			case s.TLS == "swapped" && f == "cert":
				f = "key"
			}
			p = append(p, "ssl-"+n+"="+url.QueryEscape(fmt.Sprintf(tlsFile, i, f)))
		}
	}
	up := s.User + ":" + s.pass() + "@"
	rest := "/db?" + strings.Join(p, "&")
	switch s.Form {
	case "":
	case "no-slash":
		return up + fmt.Sprintf("tcp(db%d:3306)", i)
	case "no-paren":
		return up + fmt.Sprintf("tcp(db%d:3306/db", i)
	case "no-net":
		return up + fmt.Sprintf("db%d:3306", i) + rest
	case "bad-net":
		return up + fmt.Sprintf("pipe(db%d:3306)", i) + rest
	default:
		return up + fmt.Sprintf("tcp(db%d:3306)", i) + "/db?timeout=2s&readTimeout=2s&writeTimeout=2s&" + s.Form[1:]
	}
	return up + fmt.Sprintf("tcp(db%d:3306)", i) + rest
}

func (s *secretSrc) uri(i int) string {
	if s.File {
		return fmt.Sprintf("/sim/in%d.sql", i)
	}
	switch s.URI {
	case "":
		return "mysql://" + s.dsn(i)
	case "none":
		return s.dsn(i)
	}
	return s.URI + s.dsn(i)
}

func (secrets) JudgeDeadlock(e *core.Env, msg string) {
	if e.Done {
		e.Fail("leak", "goroutines are left after the calls: %s", msg)
		return
	}
	e.Fail("stuck", "%s", msg)
}

func (secrets) Run(e *core.Env) {
	var d secretData
	e.Decode(&d)
	k := simk.New(e)
	defer simk.Drop()
	k.WriteFile(secretFile, []byte("canary "+d.Canary+"\n"))
	k.WriteFile("/sim/in.sql", []byte("CREATE TABLE t (id INT COMMENT '"+d.Canary+"');\n"))
	n := simsql.NewNet(e)
	n.Tap = true
	n.Latency = time.Duration(d.Latency) * time.Microsecond
	n.Chunk = d.Chunk
	var keys []string // every private key
	my := &myData{Pass: "x"}
	for i := range d.Srcs {
		my.Tables = append(my.Tables, d.Srcs[i].Tables)
	}
	for i := range d.Srcs {
		s := &d.Srcs[i]
		h := newHost(e, n, i, my)
		s.sv = h.srv
		h.srv.User, h.srv.Pass, h.srv.Auth = s.User, s.pass(), s.Auth
		if s.File {
			k.WriteFile(s.uri(i), []byte(s.Other))
		}
		k.MkdirAll(fmt.Sprintf("/tls/%d", i))
		name := fmt.Sprintf("ca%d-client%d", i, i)
		t := tlsSrc{Server: fmt.Sprintf("ca%d-db%d", i, i)}
		if s.TLS != "" {
			h.srv.TLS = (&tlsData{Srcs: []tlsSrc{t}}).serverTLS(0)
			e.Probe("tls/" + s.TLS)
		}
		if s.TLS != "no-ca" {
			putPem(k, fmt.Sprintf(tlsFile, i, "ca"), fmt.Sprintf("ca%d", i), false)
		}
		putPem(k, fmt.Sprintf(tlsFile, i, "cert"), name, false)
		other := name
		if s.TLS == "bad-key" {
			other = fmt.Sprintf("ca%d-client%d", i, 1-i)
		}
		putPem(k, fmt.Sprintf(tlsFile, i, "key"), other, true)
		keys = append(keys, pems[other].key)
	}
	e.Probe("op/" + d.Op)
	var b bytes.Buffer
	var err error
	if strings.HasPrefix(d.Op, "schema") {
		var args []string
		if d.Out != "" {
			args = append(args, "-o", d.Out)
		}
		for i := range d.Srcs {
			args = append(args, d.Srcs[i].uri(i))
		}
		code := execCmd(e, k, d.Op, args)
		e.Logf("%s -> %d", d.Op, code)
		e.Probe(fmt.Sprint("exit/", code != 0))
	} else {
		var l []schemalex.SchemaSource
		for i := range d.Srcs {
			s := &d.Srcs[i]
			var src schemalex.SchemaSource
			if d.Op == "source" {
				src = schemalex.NewMySQLSource(s.dsn(i))
			} else if src, err = schemalex.NewSchemaSource(s.uri(i)); err != nil {
				break
			}
			l = append(l, src)
		}
		if err == nil {
			switch d.Op {
			case "source":
				err = l[0].WriteSchema(&b)
			case "diff":
				err = diff.Sources(&b, l[0], l[1])
			case "lint":
				err = lint.New().Run(context.Background(), l[0], &b)
			}
		}
		e.Logf("%s -> %d bytes, %v", d.Op, b.Len(), err)
		e.Probe(fmt.Sprint("error/", err != nil))
	}
	if e.Failed() {
		return
	}
	for i := 0; i < 100 && n.Open() > 0; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	n.Drop()

	// everything somebody can read
	seen := map[string]string{"standard output": string(k.Stdout), "standard error": string(k.Stderr), "the output": b.String()}
	if err != nil {
		seen["the error"] = err.Error()
		seen["the error (%+v)"] = fmt.Sprintf("%+v", err)
	}
	if f, ok := k.ReadFile(d.Out); ok {
		seen["the output file"] = string(f)
	}
	for i := range d.Srcs {
		s := &d.Srcs[i]
		for w, t := range seen {
			if !s.File && strings.Contains(t, s.Core) {
				e.Fail("password-shown", "the password %s of source %d is in %s: %s", s.Core, i, w, clip(t, 600))
				return
			}
			if showsKey(t, keys[i]) {
				e.Fail("key-shown", "the private key of source %d is in %s: %s", i, w, clip(t, 600))
				return
			}
		}
	}
	for w, t := range seen {
		if strings.Contains(t, d.Canary) {
			e.Fail("file-shown", "the content of a file nobody named is in %s: %s", w, clip(t, 600))
			return
		}
	}
	for i := range d.Srcs {
		s := &d.Srcs[i]
		e.Logf("server %d: users %q, %d logins, %d clear, %d old, %d bytes of files, queries %q", i, s.sv.Users, s.sv.LoggedIn, s.sv.Cleartext, s.sv.Old, len(s.sv.Stolen), s.sv.Queries)
		if s.sv.LoggedIn > 0 {
			p := s.Auth.Switch
			if p == "" {
				p = s.Auth.Plugin
			}
			e.Probe("login/" + p)
		}
		for _, u := range s.sv.Users {
			if u != s.User || s.File {
				e.Fail("wrong-user", "server %d was asked to let %q in", i, u)
			}
		}
		if len(s.sv.Stolen) > 0 && !s.has("allowAllFiles=true") {
			e.Fail("file-sent", "server %d got a local file by asking for %s: %q", i, s.Auth.Infile, clip(string(s.sv.Stolen), 100))
			return
		}
		if s.sv.Cleartext > 0 && !s.has("allowCleartextPasswords=true") {
			e.Fail("cleartext", "source %d answered mysql_clear_password although the DSN does not allow it", i)
			return
		}
		if s.sv.Old > 0 && !s.has("allowOldPasswords=true") {
			e.Fail("old-password", "source %d answered mysql_old_password although the DSN does not allow it", i)
			return
		}
	}
	for _, c := range n.Sent() {
		for i := range d.Srcs {
			s := &d.Srcs[i]
			if bytes.Contains(c.Raw, []byte(s.Core)) && !s.has("allowCleartextPasswords=true") {
				e.Fail("password-sent", "the password of source %d was sent to %s unencrypted", i, c.Addr)
				return
			}
			if showsKey(string(c.Raw), keys[i]) && !s.has("allowAllFiles=true") {
				e.Fail("key-sent", "the private key of source %d was sent to %s", i, c.Addr)
				return
			}
			if c.Addr == fmt.Sprintf("db%d:3306", i) && bytes.Contains(c.Raw, []byte(d.Canary)) && !s.has("allowAllFiles=true") {
				e.Fail("file-sent", "a local file was sent to %s", c.Addr)
				return
			}
		}
	}
	e.Done = true
}

func (secrets) Shrink(raw json.RawMessage) (l []interface{}) {
	var d secretData
	json.Unmarshal(raw, &d)
	dec := func() *secretData { var x secretData; json.Unmarshal(raw, &x); return &x }
	for i := range d.Srcs {
		for j := range d.Srcs[i].Tables {
			x := dec()
			x.Srcs[i].Tables = append(x.Srcs[i].Tables[:j], x.Srcs[i].Tables[j+1:]...)
			l = append(l, x)
		}
		for j := range d.Srcs[i].Params {
			x := dec()
			x.Srcs[i].Params = append(x.Srcs[i].Params[:j], x.Srcs[i].Params[j+1:]...)
			l = append(l, x)
		}
		for _, f := range []func(s *secretSrc) bool{
			func(s *secretSrc) bool { c := s.TLS != ""; s.TLS = ""; return c },
			func(s *secretSrc) bool { c := s.Pre != ""; s.Pre = ""; return c },
			func(s *secretSrc) bool { c := s.Auth != simsql.Auth{}; s.Auth = simsql.Auth{}; return c },
			func(s *secretSrc) bool { c := s.Auth.Infile != ""; s.Auth.Infile = ""; return c },
			func(s *secretSrc) bool { c := s.Auth.Plugin != ""; s.Auth.Plugin = ""; return c },
			func(s *secretSrc) bool { c := s.Auth.Switch != ""; s.Auth.Switch = ""; return c },
		} {
			x := dec()
			if f(&x.Srcs[i]) {
				l = append(l, x)
			}
		}
	}
	for _, f := range []func(x *secretData) bool{
		func(x *secretData) bool { c := x.Out != ""; x.Out = ""; return c },
		func(x *secretData) bool { c := x.Latency > 0; x.Latency = 0; return c },
		func(x *secretData) bool { c := x.Chunk > 0; x.Chunk = 0; return c },
	} {
		x := dec()
		if f(x) {
			l = append(l, x)
		}
	}
	return
}
