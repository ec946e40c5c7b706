//go:build go1.22

package props

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/simk"
	"github.com/schemalex/schemalex/verifsim/simsql"
)

func init() {
	core.Register("C14", tlsSource{})
	core.Describe("C14", core.Meta{
		Rule:   "One to three MySQL sources (alone, one after another, at the same time, or in a diff) reach simulated servers that speak TLS with right, foreign, expired, wrong-name, client-only or self-signed certificates, or no TLS at all, while certificate files are missing, damaged, swapped or replaced, clocks jump past the certificates' end, and dials, connections, single bytes and statements fail; every byte the clients sent and every login is inspected.",
		Real:   []string{"schemalex MySQL source, diff", "database/sql", "go-sql-driver/mysql", "crypto/tls and crypto/x509 on both ends"},
		Stub:   []string{"MySQL servers", "TCP", "file system", "goroutine scheduler decisions", "clock, timers and randomness"},
		Assume: []string{"cryptography holds"},
	})
}

type tlsSource struct{}

type tlsSrc struct {
	Tables []myTable `json:"tables"`
	Mode   string    `json:"tls"`              // the DSN's tls parameter
	CA     string    `json:"ssl_ca,omitempty"` // a certificate's name, or missing, empty, garbage, cut, dir, nul, unset
	Cert   string    `json:"ssl_cert,omitempty"`
	Key    string    `json:"ssl_secret,omitempty"`
	Server string    `json:"server"` // the server's certificate, or none
	Max    int       `json:"server_max_tls,omitempty"`
	Need   bool      `json:"client_cert_required,omitempty"` // of CA 0 for server 0, …
	Host   string    `json:"host,omitempty"`                 // instead of the server's name
	Paths  string    `json:"paths,omitempty"`                // how the source names its files: short, long, shared (ssl-ca common to all)
	NoPass bool      `json:"no_password,omitempty"`
	Rotate int       `json:"files_replaced_after_ms,omitempty"` // ssl-cert and ssl-secret
	RotTo  string    `json:"files_replaced_with,omitempty"`
}

type tlsData struct {
	Srcs     []tlsSrc `json:"sources"`
	Same     bool     `json:"one_server,omitempty"` // both sources are for server 0
	Op       string   `json:"op"`                   // each, concurrent, diff
	Times    int      `json:"times"`
	Jump     int      `json:"clock_jump_years,omitempty"`
	RTimeout int      `json:"read_timeout_ms"`
	Latency  int      `json:"latency_us,omitempty"`
	Chunk    int      `json:"chunk,omitempty"`
}

func (tlsSource) Name() string { return "tls-source" }

func (s *tlsSrc) verified() bool {
	ok, err := strconv.ParseBool(s.Mode)
	return err == nil && ok
}

// pemName tells whether a file holds what the PEMs of these names hold.
func pemName(s string) bool {
	for _, n := range strings.Split(s, "+") {
		if _, ok := pems[n]; !ok {
			return false
		}
	}
	return true
}

func pemText(s string, key bool) (text string) {
	for _, n := range strings.Split(s, "+") {
		if key {
			return pems[n].key
		}
		text += pems[n].cert
	}
	return
}

// first is the certificate among them that is somebody's own.
func first(s string) string { return strings.Split(s, "+")[0] }

// server is the index of the server a source is for.
func (d *tlsData) server(i int) int {
	if d.Same {
		return 0
	}
	return i
}

func (d *tlsData) addr(i int) string {
	sv := d.server(i)
	if d.Srcs[i].Host != "" {
		return d.Srcs[i].Host + ":3306"
	}
	return fmt.Sprintf("db%d:3306", sv)
}

// file is where a source has its CA, certificate or key.
func (d *tlsData) file(i int, what string) string {
	switch p := d.Srcs[i].Paths; {
	case p == "shared" && what == "ca":
		return "/tls/shared/ca.pem"
	case p == "long" || p == "shared":
		return fmt.Sprintf("/home/operator/.config/mysql/tls/%d/%s.pem", i, what)
	}
	return fmt.Sprintf("/tls/%d/%s.pem", i, what)
}

func init() {
	// the machine trusts a public authority
	old, was := os.LookupEnv("GODEBUG")
	os.Setenv("GODEBUG", "x509usefallbackroots=1")
	p := x509.NewCertPool()
	p.AppendCertsFromPEM([]byte(pems["pub"].cert))
	x509.SetFallbackRoots(p)
	if was {
		os.Setenv("GODEBUG", old)
	} else {
		os.Unsetenv("GODEBUG")
	}
	sys, err := x509.SystemCertPool()
	if err != nil || !sys.Equal(p) {
		panic("the public authority is not the system's")
	}
}

func (tlsSource) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d tlsData
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	d.Op = pick("each", "concurrent", "concurrent", "diff")
	d.Times = 1 + r.Intn(2)
	n := 1 + r.Intn(2)
	if d.Op == "diff" {
		n, d.Times = 2, 1
	}
	d.Latency = []int{0, 0, 100, 5000}[r.Intn(4)]
	d.Chunk = []int{0, 0, 1 + r.Intn(60), 100 + r.Intn(1000)}[r.Intn(4)]
	d.RTimeout = []int{2000, 10000}[r.Intn(2)]
	for i := 0; i < n; i++ {
		s := tlsSrc{Tables: myTables(r, r.Intn(3))}
		s.CA = fmt.Sprintf("ca%d", i)
		s.Cert = fmt.Sprintf("ca%d-client%d", i, i)
		s.Key = s.Cert
		s.Server = fmt.Sprintf("ca%d-db%d", i, i)
		s.Need = r.Intn(2) == 0
		s.Max = []int{0, 0, 0, 12, 12}[r.Intn(5)]
		s.Mode = pick("true", "true", "true", "true", "1", "True", "TRUE")
		s.Paths = pick("", "", "", "long", "shared")
		if r.Intn(5) == 0 {
			s.Host = [][]string{{"localhost", "127.0.0.1", "10.0.0.5", "[::1]"}, {"127.0.0.2", "127.0.0.2", "10.0.0.6", "[fd00::6]"}}[i][r.Intn(4)]
		}
		s.NoPass = r.Intn(8) == 0
		switch r.Intn(16) {
		case 14:
			s.CA = pick(s.CA+"+pub", "ca0+ca1", "ca1+ca0", "pub")
			if s.CA == "pub" && r.Intn(2) == 0 {
				s.Server = fmt.Sprintf("pub-db%d", i)
			}
		case 15:
			s.Cert += fmt.Sprintf("+ca%d", i) // a chain
		case 0:
			s.Mode = pick("", "false", "0", "skip-verify", "preferred", "registered", "registered")
		case 1, 2, 3:
			s.Server = pick("none", "none", fmt.Sprintf("ca%d-db%d", 1-i, i), fmt.Sprintf("ca%d-db%d", i, 1-i), fmt.Sprintf("ca%d-old", i), fmt.Sprintf("ca%d-other", i), fmt.Sprintf("ca%d-asclient", i), "self", fmt.Sprintf("pub-db%d", i), fmt.Sprintf("pub-db%d", i), fmt.Sprintf("ca%d-intdb", i), fmt.Sprintf("ca%d-intdb+ca%d-int", i, i), fmt.Sprintf("ca%d-intdb+ca%d-int", 1-i, 1-i), "pub-db0+pub")
		case 4:
			*[]*string{&s.CA, &s.Cert, &s.Key}[r.Intn(3)] = pick("missing", "empty", "garbage", "cut", "dir", "nul", "unset", "unset")
			if !pemName(s.CA) && r.Intn(2) == 0 {
				s.Server = fmt.Sprintf("pub-db%d", i)
			}
		case 5:
			s.Cert = fmt.Sprintf("ca%d-client%d", r.Intn(2), r.Intn(2))
			if r.Intn(3) > 0 {
				s.Key = s.Cert
			}
		case 6:
			s.CA = fmt.Sprintf("ca%d", 1-i)
		case 7:
			s.Max = 11
		case 8, 9:
			s.Rotate = 1 + r.Intn(4)
			s.RotTo = fmt.Sprintf("ca%d-client%d", i, 1-i)
		}
		d.Srcs = append(d.Srcs, s)
	}
	if n == 2 && r.Intn(4) == 0 {
		// two users of one server, with files of their own
		d.Same = true
		a, b := &d.Srcs[0], &d.Srcs[1]
		b.Tables, b.Server, b.Need, b.Max, b.NoPass, b.Host = a.Tables, a.Server, a.Need, a.Max, a.NoPass, a.Host
		switch r.Intn(4) {
		case 0: // it trusts another authority
		default:
			b.CA = a.CA
			b.Cert = pick("ca0-client1", "ca0-client1", "ca1-client1")
			b.Key, b.Rotate = b.Cert, 0
		}
		if r.Intn(2) == 0 {
			d.Op = "concurrent"
		}
	}
	if n == 2 && (d.Srcs[0].Paths == "shared" || d.Srcs[1].Paths == "shared") {
		if d.Srcs[0].CA == d.Srcs[1].CA {
			d.Srcs[0].Paths, d.Srcs[1].Paths = "shared", "shared"
		} else if d.Srcs[0].Paths == d.Srcs[1].Paths {
			d.Srcs[1].Paths = "long"
		}
	}
	if r.Intn(12) == 0 {
		d.Jump = []int{3, 8, 10, 14}[r.Intn(4)]
	}
	var fs []core.Fault
	add := func(site, kind string, nth, arg int) {
		fs = append(fs, core.Fault{Site: site, Kind: kind, Nth: nth, Arg: arg})
	}
	conn := func() string { return fmt.Sprintf("conn%d", 1+r.Intn(1+2*n)) }
	for k := []int{0, 0, 0, 1, 1, 2}[r.Intn(6)]; k > 0; k-- {
		sv := fmt.Sprintf("s%d:", r.Intn(n))
		switch r.Intn(10) {
		case 0, 1:
			f := d.file(r.Intn(n), pick("ca", "cert", "key"))
			if r.Intn(4) == 0 {
				add("open:"+f, pick("enoent", "eacces", "emfile", "eintr"), 1, 0)
			} else {
				add("read:"+f, pick("eio", "eintr", "short", "short", "delay", "estale"), 1+r.Intn(2), 1+r.Intn(200))
			}
		case 2:
			add(conn(), pick("refuse", "dial-delay", "dial-hang"), 0, r.Intn(4000))
		case 3:
			add(conn(), pick("c2s-rst", "c2s-fin", "c2s-blackhole"), 0, r.Intn([]int{40, 400, 2000}[r.Intn(3)]))
		case 4, 5:
			add(conn(), pick("s2c-rst", "s2c-fin", "s2c-blackhole", "s2c-stall"), 0, r.Intn([]int{100, 1000, 4000}[r.Intn(3)]))
		case 6, 7:
			plain := false
			for i := range d.Srcs {
				plain = plain || !d.Srcs[i].verified()
			}
			if plain { // nothing protects their bytes
				add(conn(), "s2c-fin", 0, r.Intn(2000))
			} else if r.Intn(2) == 0 {
				add(conn(), "c2s-flip", 0, 37+r.Intn(1200))
			} else {
				add(conn(), "s2c-flip", 0, 90+r.Intn(2500))
			}
		case 8:
			add(sv+"handshake", pick("auth-drop", "denied", "slow"), 1+r.Intn(2), r.Intn(1000))
		case 9:
			add(sv+pick("list", "create"), pick("err", "err-rows", "drop", "drop-rows", "slow"), 1+r.Intn(2), r.Intn(50))
		}
	}
	s := core.RandSched(r, false)
	s.YieldMalloc = 0 // what a handshake allocates depends on what the process did before
	return d, fs, s
}

// fileFault tells whether one of a source's files could not be read.
func (d *tlsData) fileFault(e *core.Env, i int) bool {
	for _, f := range e.Took() {
		for _, n := range []string{"ca", "cert", "key"} {
			p := d.file(i, n)
			if (f.Site == "open:"+p || f.Site == "read:"+p) && f.Kind != "eintr" && f.Kind != "short" && f.Kind != "delay" {
				return true
			}
		}
	}
	return false
}

func (d *tlsData) dsn(i int) string {
	s := d.Srcs[i]
	p := []string{"timeout=2s", fmt.Sprintf("readTimeout=%dms", d.RTimeout), "writeTimeout=2s"}
	if s.Mode != "" {
		p = append(p, "tls="+s.Mode)
	}
	for _, x := range [][3]string{{"ssl-ca", "ca", s.CA}, {"ssl-cert", "cert", s.Cert}, {"ssl-secret", "key", s.Key}} {
		if x[2] != "unset" && s.verified() {
			p = append(p, x[0]+"="+url.QueryEscape(d.file(i, x[1])))
		}
	}
	pass := fmt.Sprintf(":secret%d", d.server(i))
	if s.NoPass {
		pass = ""
	}
	return fmt.Sprintf("tlsuser%d%s@tcp(%s)/db?%s", i, pass, d.addr(i), strings.Join(p, "&"))
}

func putPem(k *simk.Kernel, path, what string, key bool) {
	text := pemText(what, key)
	some := pems["ca0-client0"].cert
	if key {
		some = pems["ca0-client0"].key
	}
	switch what {
	case "missing", "unset":
		return
	case "empty":
	case "garbage":
		text = strings.Replace(some, "MI", "XX", 1)
		text = strings.Replace(text, "MC", "XX", 1)
	case "cut":
		text = some[:len(some)/2]
	case "nul":
		text = string(make([]byte, len(some)))
	case "dir":
		k.MkdirAll(path)
		return
	}
	k.WriteFile(path, []byte(text))
}

func (d *tlsData) serverTLS(i int) *tls.Config {
	s := d.Srcs[i]
	if s.Server == "none" {
		return nil
	}
	crt, err := tls.X509KeyPair([]byte(pemText(s.Server, false)), []byte(pemText(s.Server, true)))
	if err != nil {
		panic(err)
	}
	c := &tls.Config{Certificates: []tls.Certificate{crt}, ClientAuth: tls.RequestClientCert}
	switch s.Max {
	case 12:
		c.MaxVersion = tls.VersionTLS12
	case 11:
		c.MinVersion, c.MaxVersion = tls.VersionTLS10, tls.VersionTLS11
	}
	if s.Need {
		c.ClientAuth = tls.RequireAndVerifyClientCert
		c.ClientCAs = x509.NewCertPool()
		c.ClientCAs.AppendCertsFromPEM([]byte(pems[fmt.Sprintf("ca%d", i)].cert))
	}
	return c
}

// trusted tells whether the source may talk to its server at all.
func (d *tlsData) trusted(i int) bool {
	s := d.Srcs[i]
	if !pemName(s.CA) || !pemName(s.Cert) || !pemName(s.Key) {
		return false
	}
	if first(s.Cert) != s.Key && s.Rotate == 0 || d.Jump >= 9 {
		return false
	}
	// of a server's possible certificates these are right for each authority
	for _, ca := range strings.Split(s.CA, "+") {
		if first(s.Server) == ca+fmt.Sprintf("-db%d", d.server(i)) || s.Server == ca+"-intdb+"+ca+"-int" {
			return true
		}
	}
	return false
}

// works tells whether it must succeed when nothing fails.
func (d *tlsData) works(i int) bool {
	s := d.Srcs[i]
	switch {
	case s.verified():
		if !d.trusted(i) || s.Rotate > 0 {
			return false
		}
	case s.Mode == "" || s.Mode == "false" || s.Mode == "0":
		return !s.Need
	case s.Mode == "preferred":
		return !s.Need && s.Max != 11
	case s.Mode == "skip-verify":
		return s.Server != "none" && !s.Need && s.Max != 11
	case s.Mode == "registered":
		return !s.Need && d.registered(i) && d.Jump < 9 && s.Max != 11
	}
	if s.Max == 11 {
		return false
	}
	return !s.Need || strings.HasPrefix(s.Cert, fmt.Sprintf("ca%d-", d.server(i)))
}

// registered tells whether the server is one that the configuration the caller
// registered for the source verifies.
func (d *tlsData) registered(i int) bool {
	s := d.Srcs[i].Server
	return s == fmt.Sprintf("ca%d-db%d", i, d.server(i)) || s == fmt.Sprintf("ca%d-intdb+ca%d-int", i, i)
}

func (tlsSource) JudgeDeadlock(e *core.Env, msg string) {
	if e.Done {
		e.Fail("leak", "goroutines are left after the calls: %s", msg)
		return
	}
	e.Fail("stuck", "%s", msg)
}

func (tlsSource) Run(e *core.Env) {
	var d tlsData
	e.Decode(&d)
	k := simk.New(e)
	defer simk.Drop()
	if d.Jump > 0 {
		e.Fired("clock/jump")
		time.Sleep(time.Duration(d.Jump) * 8766 * time.Hour)
	}
	n := simsql.NewNet(e)
	n.Tap = true
	n.Latency = time.Duration(d.Latency) * time.Microsecond
	n.Chunk = d.Chunk
	my := &myData{Pass: "x"}
	for i := range d.Srcs {
		my.Tables = append(my.Tables, d.Srcs[i].Tables)
	}
	var hosts []*myHost
	want := make([]string, len(d.Srcs))
	for i := range d.Srcs {
		s := &d.Srcs[i]
		h := newHost(e, n, i, my)
		hosts = append(hosts, h)
		h.srv.User, h.srv.Pass = fmt.Sprintf("tlsuser%d", i), fmt.Sprintf("secret%d", i)
		if s.NoPass {
			h.srv.Pass = ""
		}
		if d.Same {
			h.srv.Also = "tlsuser1"
		}
		n.Add(d.addr(i), hosts[d.server(i)].srv)
		h.srv.TLS = d.serverTLS(i)
		h.srv.NeedTLS = s.Need
		for _, f := range []string{"ca", "cert", "key"} {
			p := d.file(i, f)
			k.MkdirAll(p[:strings.LastIndex(p, "/")])
		}
		putPem(k, d.file(i, "ca"), s.CA, false)
		putPem(k, d.file(i, "cert"), s.Cert, false)
		putPem(k, d.file(i, "key"), s.Key, true)
		e.Probe("server/" + strings.Replace(s.Server, fmt.Sprint("ca", 1-i), "foreign", -1))
		e.Probe("host/" + s.Host)
		if s.Mode == "registered" {
			p := x509.NewCertPool()
			p.AppendCertsFromPEM([]byte(pems[fmt.Sprintf("ca%d", i)].cert))
			name := fmt.Sprintf("mine%d", i)
			mysql.RegisterTLSConfig(name, &tls.Config{RootCAs: p})
		}
		var l []string
		for _, t := range s.Tables {
			l = append(l, string(t.Def)+";")
		}
		want[i] = strings.Join(l, "\n\n")
	}
	rot := make(chan bool, len(d.Srcs))
	nrot := 0
	for i := range d.Srcs {
		i, s := i, d.Srcs[i]
		if s.Rotate == 0 || !s.verified() {
			continue
		}
		nrot++
		e.Fired("files/replaced")
		go func() {
			time.Sleep(time.Duration(s.Rotate) * 700 * time.Microsecond)
			putPem(k, d.file(i, "cert"), s.RotTo, false)
			if s.Rotate%2 == 0 {
				time.Sleep(2 * time.Millisecond)
			}
			putPem(k, d.file(i, "key"), s.RotTo, true)
			rot <- true
		}()
	}
	source := func(i int) schemalex.SchemaSource {
		dsn := d.dsn(i)
		if d.Srcs[i].Mode == "registered" {
			dsn = strings.Replace(dsn, "tls=registered", fmt.Sprintf("tls=mine%d", i), 1)
		}
		if i%2 == 1 {
			s, err := schemalex.NewSchemaSource("mysql://" + dsn)
			if err != nil {
				panic(err)
			}
			return s
		}
		return schemalex.NewMySQLSource(dsn)
	}
	type result struct {
		i   int
		out string
		err error
	}
	var res []result
	call := func(i int) result {
		var b bytes.Buffer
		err := source(i).WriteSchema(io.Writer(&b))
		return result{i, b.String(), err}
	}
	e.Probe("op/" + d.Op)
	switch d.Op {
	case "diff":
		var b bytes.Buffer
		err := diff.Sources(&b, source(0), source(1))
		res = append(res, result{-1, b.String(), err})
	case "each":
		for t := 0; t < d.Times; t++ {
			for i := range d.Srcs {
				res = append(res, call(i))
			}
		}
	default:
		ch := make(chan result, 8)
		cnt := 0
		for t := 0; t < d.Times; t++ {
			for i := range d.Srcs {
				cnt++
				go func() { ch <- call(i) }()
			}
		}
		for ; cnt > 0; cnt-- {
			res = append(res, <-ch)
		}
		sort.SliceStable(res, func(a, b int) bool { return res[a].i < res[b].i })
	}
	for ; nrot > 0; nrot-- {
		<-rot
	}
	for i := 0; i < 100 && n.Open() > 0; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if c := n.Open(); c > 0 {
		e.Fail("connection-leak", "%d of %d connections are still open after the calls returned", c, n.Dials)
	}
	n.Drop()

	faulty := false
	for _, f := range e.FiredKinds() {
		switch f {
		case "clock/jump", "files/replaced", "read/eintr", "read/short", "read/delay", "open/eintr":
		default:
			faulty = true
		}
	}
	slow := time.Duration(d.Latency) * time.Microsecond * 8
	if d.Chunk > 0 {
		slow += time.Duration(d.Latency) * time.Microsecond / 16 * time.Duration(20000/d.Chunk)
	}
	if slow > time.Duration(d.RTimeout)*time.Millisecond/2 {
		faulty = true
	}
	for _, x := range res {
		e.Logf("source %d: %d bytes, err=%v", x.i, len(x.out), x.err)
	}
	for i, h := range hosts {
		e.Logf("server %d: %d connections, logins %v, peers %q", i, h.srv.Accepted, h.srv.Logins, h.srv.PeerCerts)
	}
	// what the servers and the wire saw
	for i := range d.Srcs {
		s := &d.Srcs[i]
		h := hosts[d.server(i)]
		user := fmt.Sprintf("tlsuser%d", i)
		mustTLS := s.verified() || s.Mode == "skip-verify" || s.Mode == "registered"
		for _, c := range n.Sent() {
			if mustTLS && c.Addr == d.addr(i) && (!d.Same || bytes.Contains(c.Raw, []byte(user))) {
				for _, w := range []string{"tlsuser", "SHOW TABLES", "SHOW CREATE", "ssl-ca=", "ssl-cert=", "ssl-secret="} {
					if bytes.Contains(c.Raw, []byte(w)) {
						e.Fail("plaintext", "source %d with tls=%s sent %q unencrypted", i, s.Mode, w)
						return
					}
				}
			}
		}
		var peers []string
		for _, l := range h.srv.Logins {
			if l.User != user {
				continue
			}
			peers = append(peers, l.Peer)
			switch {
			case mustTLS && !l.Secure:
				e.Fail("plaintext", "source %d with tls=%s logged in over an unencrypted connection", i, s.Mode)
				return
			case s.verified() && !d.trusted(i):
				e.Fail("untrusted", "source %d logged in to a server with certificate %s although it trusts %s only (ssl-cert %s, ssl-secret %s)", i, s.Server, s.CA, s.Cert, s.Key)
				return
			case s.Mode == "registered" && !d.registered(i):
				e.Fail("untrusted", "source %d with a registered TLS configuration logged in to a server with certificate %s", i, s.Server)
				return
			}
		}
		if !d.Same {
			peers = append(peers, h.srv.PeerCerts...) // before a login
		}
		if s.verified() {
			for _, p := range peers {
				if p != peerOf(s.Cert) && !(s.Rotate > 0 && p == peerOf(s.RotTo)) {
					e.Fail("wrong-client-certificate", "source %d presented %q, not its certificate %s", i, p, s.Cert)
					return
				}
			}
		}
	}
	// what the callers were told
	for _, x := range res {
		if x.i < 0 {
			bad := -1
			for i := range d.Srcs {
				if s := &d.Srcs[i]; s.verified() && (!d.trusted(i) || d.fileFault(e, i)) {
					bad = i
				}
			}
			switch {
			case x.err == nil && bad >= 0:
				e.Fail("error-lost", "diff returned nil, but source %d cannot be read securely", bad)
			case x.err != nil && x.out != "":
				e.Fail("output-with-error", "diff wrote %d bytes and returned %v", len(x.out), x.err)
			case x.err == nil:
				var w bytes.Buffer
				if err := diff.Strings(&w, want[0], want[1]); err != nil || w.String() != x.out {
					e.Fail("wrong-output", "the output is not the diff of the two schemas (%v): %s", err, firstDiff(w.String(), x.out))
				}
			case !faulty && d.works(0) && d.works(1):
				var w bytes.Buffer
				if err := diff.Strings(&w, want[0], want[1]); err == nil {
					e.Fail("spurious-error", "nothing failed, but diff returned %v", x.err)
				}
			}
			continue
		}
		s := &d.Srcs[x.i]
		switch {
		case x.err == nil && s.verified() && !d.trusted(x.i):
			e.Fail("error-lost", "source %d returned nil without a server it can trust (certificate %s, ssl-ca %s, ssl-cert %s, ssl-secret %s)", x.i, s.Server, s.CA, s.Cert, s.Key)
		case x.err == nil && x.out != want[x.i]:
			e.Fail("wrong-output", "source %d delivered something else: %s", x.i, firstDiff(want[x.i], x.out))
		case x.err == nil && s.verified() && d.fileFault(e, x.i) && d.Times == 1 && (len(d.Srcs) == 1 || s.Paths != "shared"):
			e.Fail("error-lost", "source %d returned nil although one of its files could not be read", x.i)
		case x.err == nil:
			e.Probe("result/ok")
			if s.verified() {
				e.Probe("result/ok-tls")
			}
		case x.out != "":
			e.Fail("output-with-error", "source %d delivered %d bytes and returned %v", x.i, len(x.out), x.err)
		case !faulty && d.works(x.i):
			e.Fail("spurious-error", "nothing failed, but source %d returned %v", x.i, x.err)
		default:
			e.Probe("result/error")
		}
	}
	e.Done = true
}

// peerOf is what a server notes of a client certificate.
func peerOf(name string) string {
	return fmt.Sprintf("Simulated CA %s/%s", name[2:3], first(name)[strings.Index(name, "-")+1:])
}

func (tlsSource) Shrink(raw json.RawMessage) (l []interface{}) {
	var d tlsData
	json.Unmarshal(raw, &d)
	dec := func() *tlsData { var x tlsData; json.Unmarshal(raw, &x); return &x }
	if len(d.Srcs) == 2 && d.Op != "diff" && !d.Same {
		x := dec()
		x.Srcs = x.Srcs[:1]
		l = append(l, x)
	}
	for i := range d.Srcs {
		for j := range d.Srcs[i].Tables {
			x := dec()
			x.Srcs[i].Tables = append(x.Srcs[i].Tables[:j], x.Srcs[i].Tables[j+1:]...)
			l = append(l, x)
		}
		for _, f := range []func(s *tlsSrc) bool{
			func(s *tlsSrc) bool { c := s.Rotate != 0; s.Rotate, s.RotTo = 0, ""; return c },
			func(s *tlsSrc) bool { c := s.Max != 0; s.Max = 0; return c },
			func(s *tlsSrc) bool { c := s.Need; s.Need = false; return c },
		} {
			x := dec()
			if f(&x.Srcs[i]) {
				l = append(l, x)
			}
		}
	}
	for _, f := range []func(x *tlsData) bool{
		func(x *tlsData) bool { c := x.Times > 1; x.Times = 1; return c },
		func(x *tlsData) bool { c := x.Jump > 0; x.Jump = 0; return c },
		func(x *tlsData) bool { c := x.Latency > 0; x.Latency = 0; return c },
		func(x *tlsData) bool { c := x.Chunk > 0; x.Chunk = 0; return c },
	} {
		x := dec()
		if f(x) {
			l = append(l, x)
		}
	}
	return
}
