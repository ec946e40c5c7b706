//go:build go1.22

package simsql

import (
	"bytes"
	"crypto/sha1"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"time"

	"github.com/schemalex/schemalex/verifsim/core"
)

// Table is one table of a server.
type Table struct {
	Name string
	Def  func() string // what SHOW CREATE TABLE says
	View bool
}

// Server is a simulated MySQL server.
type Server struct {
	Others map[string]bool // databases besides DB, without tables
	e      *core.Env
	net    *Net
	Name   string
	DB     string
	User   string
	Pass   string
	// Also is another user with the same password.
	Also string

	// List and Lookup give the tables; Exec runs other statements.
	List   func() []*Table
	Lookup func(name string) *Table
	Exec   func(sess *Session, sql string) error

	TLS      *tls.Config
	NeedTLS  bool
	MaxConns int

	Auth Auth

	open int
	// what happened
	Users     []string // of whom a login was tried
	Cleartext int      // answers to mysql_clear_password
	Old       int      // answers to mysql_old_password
	Stolen    []byte   // files the client sent
	Queries   []string
	Accepted  int
	LoggedIn  int
	Plaintext int // logins over unencrypted connections
	PeerCerts []string
	// Logins tells of each login that was tried.
	Logins []Login
	Quits  int
	// AfterQuery is called after every statement.
	AfterQuery func(n int)
	// OnListed is called with the table names a SHOW TABLES sent.
	OnListed func(names []string)
}

// Login is what the server knows of somebody who logged in or tried to.
type Login struct {
	User, Peer string
	Secure, OK bool
}

// NewServer makes a server.
func NewServer(e *core.Env, name string) *Server {
	return &Server{e: e, Name: name, DB: "db", User: "user", Pass: "pass"}
}

// Session is a connection's state.
type Session struct {
	S    *Server
	DB   string   // the current database
	Txn  []string // statements since BEGIN
	In   bool
	NoFK bool // foreign_key_checks is off
}

// SQLError is an error of the server.
type SQLError struct {
	Code  int
	State string
	Msg   string
}

func (e *SQLError) Error() string { return fmt.Sprintf("ERROR %d (%s): %s", e.Code, e.State, e.Msg) }

// Err makes one.
func Err(code int, state, f string, a ...interface{}) *SQLError {
	return &SQLError{code, state, fmt.Sprintf(f, a...)}
}

type wire struct {
	c   net.Conn
	seq byte
}

func (w *wire) read() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(w.c, h[:]); err != nil {
		return nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	w.seq = h[3] + 1
	b := make([]byte, n)
	_, err := io.ReadFull(w.c, b)
	return b, err
}

// write sends packets in one segment each, as a server flushing its buffer does.
func (w *wire) write(ps ...[]byte) error {
	var out []byte
	for _, p := range ps {
		n := len(p)
		out = append(out, byte(n), byte(n>>8), byte(n>>16), w.seq)
		out = append(out, p...)
		w.seq++
	}
	_, err := w.c.Write(out)
	return err
}

func errPacket(code int, state, msg string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8)}
	return append(append(b, "#"+state...), msg...)
}

func okPacket() []byte  { return []byte{0, 0, 0, 2, 0, 0, 0} }
func eofPacket() []byte { return []byte{0xfe, 0, 0, 2, 0} }

func lenenc(b []byte, n int) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	b = append(b, 0xfe)
	return binary.LittleEndian.AppendUint64(b, uint64(n))
}

func lenstr(b []byte, s string) []byte { return append(lenenc(b, len(s)), s...) }

func colDef(name string) []byte {
	var b []byte
	for _, s := range []string{"def", "information_schema", "T", "T", name, name} {
		b = lenstr(b, s)
	}
	b = append(b, 0x0c, 33, 0, 0, 1, 0, 0, 0xfd, 1, 0, 31, 0, 0)
	return b
}

const (
	capSSL       = 1 << 11
	capProto41   = 1 << 9
	capSecure    = 1 << 15
	capPlugin    = 1 << 19
	capConnectDB = 1 << 3
	serverCaps   = 1 | capProto41 | capSecure | capPlugin | capConnectDB | 1<<13 | 1<<2
)

func (s *Server) fault(site string) *core.Fault { return s.e.Hit(s.Name + ":" + site) }

func (s *Server) serve(c *Conn, idx int) {
	runtime.SimHold()
	s.Accepted++
	s.open++
	full := s.MaxConns > 0 && s.open > s.MaxConns
	runtime.SimUnhold()
	defer func() {
		runtime.SimHold()
		s.open--
		runtime.SimUnhold()
	}()
	w := &wire{c: c}
	f := s.fault("handshake")
	if full || f != nil && f.Kind == "too-many" {
		s.e.Fired("sql/too-many-connections")
		w.write(errPacket(1040, "08004", "Too many connections"))
		return
	}
	if f != nil && f.Kind == "slow" {
		s.e.Fired("sql/slow-handshake")
		time.Sleep(time.Duration(f.Arg) * time.Millisecond)
	}
	if f != nil && f.Kind == "blocked" {
		s.e.Fired("sql/host-blocked")
		w.write(errPacket(1129, "HY000", "Host '10.0.0.9' is blocked because of many connection errors"))
		return
	}
	scramble := make([]byte, 20)
	for i := range scramble {
		scramble[i] = byte(33 + (idx*31+i*7)%90)
	}
	caps := serverCaps
	if s.TLS != nil {
		caps |= capSSL
	}
	hs := append([]byte{10}, "5.7.30-sim\x00"...)
	hs = binary.LittleEndian.AppendUint32(hs, uint32(idx))
	hs = append(hs, scramble[:8]...)
	hs = append(hs, 0, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	hs = append(hs, make([]byte, 10)...)
	hs = append(hs, scramble[8:]...)
	hs = append(hs, 0)
	plugin := s.Auth.Plugin
	if plugin == "" {
		plugin = "mysql_native_password"
	}
	hs = append(hs, plugin+"\x00"...)
	if w.write(hs) != nil {
		return
	}
	b, err := w.read()
	if err != nil || len(b) < 32 {
		return
	}
	cc := binary.LittleEndian.Uint32(b)
	secure, peer := false, "none"
	if cc&capSSL != 0 && len(b) == 32 {
		if s.TLS == nil {
			return
		}
		tc := tls.Server(c, s.TLS)
		if err := tc.Handshake(); err != nil {
			s.e.Logf("server %s: TLS handshake: %v", s.Name, err)
			return
		}
		secure = true
		runtime.SimHold()
		if len(tc.ConnectionState().PeerCertificates) == 0 {
			s.PeerCerts = append(s.PeerCerts, "none")
		}
		for _, p := range tc.ConnectionState().PeerCertificates[:min(1, len(tc.ConnectionState().PeerCertificates))] {
			peer = p.Issuer.CommonName + "/" + p.Subject.CommonName
			s.PeerCerts = append(s.PeerCerts, peer)
		}
		runtime.SimUnhold()
		w.c = tc
		if b, err = w.read(); err != nil || len(b) < 32 {
			return
		}
	}
	user, rest := cstr(b[32:])
	var auth []byte
	if len(rest) > 0 && len(rest) > int(rest[0]) {
		auth, rest = rest[1:1+int(rest[0])], rest[1+int(rest[0]):]
	}
	runtime.SimHold()
	s.Users = append(s.Users, user)
	s.Logins = append(s.Logins, Login{user, peer, secure, false})
	login := len(s.Logins) - 1
	runtime.SimUnhold()
	db := ""
	if cc&capConnectDB != 0 {
		db, rest = cstr(rest)
	}
	if !secure {
		runtime.SimHold()
		s.Plaintext++
		runtime.SimUnhold()
	}
	if f != nil && f.Kind == "auth-drop" {
		s.e.Fired("sql/auth-drop")
		return
	}
	if s.NeedTLS && !secure {
		w.write(errPacket(3159, "HY000", "Connections using insecure transport are prohibited while --require_secure_transport=ON."))
		return
	}
	ok, gone := s.auth(w, scramble, auth, secure)
	if gone {
		return
	}
	if !ok || user != s.User && (s.Also == "" || user != s.Also) && !s.Auth.Anyway || f != nil && f.Kind == "denied" {
		if f != nil && f.Kind == "denied" {
			s.e.Fired("sql/access-denied")
		}
		w.write(errPacket(1045, "28000", "Access denied for user '"+user+"'@'10.0.0.9' (using password: YES)"))
		return
	}
	if db != s.DB && db != "" && !s.Others[db] && !s.Auth.Anyway {
		w.write(errPacket(1049, "42000", "Unknown database '"+db+"'"))
		return
	}
	runtime.SimHold()
	s.LoggedIn++
	s.Logins[login].OK = true
	runtime.SimUnhold()
	if w.write(okPacket()) != nil {
		return
	}
	sess := &Session{S: s, DB: db}
	for {
		b, err := w.read()
		if err != nil || len(b) == 0 {
			return
		}
		switch b[0] {
		case 1:
			runtime.SimHold()
			s.Quits++
			runtime.SimUnhold()
			return
		case 14:
			if w.write(okPacket()) != nil {
				return
			}
		case 3:
			if !s.query(w, sess, string(b[1:])) {
				return
			}
		default:
			if w.write(errPacket(1047, "08S01", "Unknown command")) != nil {
				return
			}
		}
	}
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

func native(scramble []byte, pass string) []byte {
	if pass == "" {
		return nil
	}
	a := sha1.Sum([]byte(pass))
	b := sha1.Sum(a[:])
	h := sha1.New()
	h.Write(scramble)
	h.Write(b[:])
	c := h.Sum(nil)
	for i := range c {
		c[i] ^= a[i]
	}
	return c
}

var sqlErrs = []*SQLError{
	Err(1317, "70100", "Query execution was interrupted"),
	Err(1205, "HY000", "Lock wait timeout exceeded; try restarting transaction"),
	Err(1142, "42000", "SHOW command denied to user 'user'@'10.0.0.9'"),
	Err(1030, "HY000", "Got error 28 from storage engine"),
	Err(1053, "08S01", "Server shutdown in progress"),
	Err(3024, "HY000", "Query execution was interrupted, maximum statement execution time exceeded"),
	Err(1024, "HY000", "Error reading file './db/t.frm' (errno: 5 - Input/output error)"),
	Err(1280, "42000", "Incorrect index name 'x'"),
	Err(1536, "HY000", "Cannot create stored routine. Check warnings"),
	Err(1412, "HY000", "Table definition has changed, please retry transaction"),
	Err(1146, "42S02", "Table 'db.t' doesn't exist"), // in the engine
	Err(1932, "42S02", "Table 'db.t' doesn't exist in engine"),
	Err(1017, "HY000", "Can't find file: './db/t.frm' (errno: 2 - No such file or directory)"),
	Err(1033, "HY000", "Incorrect information in file: './db/t.frm'"),
	Err(1194, "HY000", "Table 't' is marked as crashed and should be repaired"),
	Err(1356, "HY000", "View 'db.v' references invalid table(s) or column(s) or function(s) or definer/invoker of view lack rights to use them"),
	Err(1049, "42000", "Unknown database 'db'"),
	Err(1044, "42000", "Access denied for user 'user'@'%' to database 'db'"),
	Err(1213, "40001", "Deadlock found when trying to get lock; try restarting transaction"),
	Err(1792, "25006", "Cannot execute statement in a READ ONLY transaction"),
	Err(1226, "42000", "User 'user' has exceeded the 'max_questions' resource (current value: 5)"),
	Err(1040, "08004", "Too many connections"),
	Err(1290, "HY000", "The MySQL server is running with the --read-only option so it cannot execute this statement"),
	Err(1836, "HY000", "Running in read-only mode"),
	Err(1064, "42000", "You have an error in your SQL syntax"),
	Err(1105, "HY000", "Unknown error"),
	Err(1820, "HY000", "You must reset your password using ALTER USER statement before executing this statement."),
	Err(4031, "HY000", "The client was disconnected by the server because of inactivity."),
}

func (s *Server) query(w *wire, sess *Session, q string) bool {
	runtime.SimHold()
	s.Queries = append(s.Queries, q)
	n := len(s.Queries)
	runtime.SimUnhold()
	defer func() {
		if s.AfterQuery != nil {
			runtime.SimHold()
			s.AfterQuery(n)
			runtime.SimUnhold()
		}
	}()
	verb := "other"
	up := strings.ToUpper(strings.TrimSpace(q))
	switch {
	case strings.HasPrefix(up, "SHOW FULL TABLES"), strings.HasPrefix(up, "SHOW TABLES"):
		verb = "list"
	case strings.HasPrefix(up, "SHOW CREATE TABLE"):
		verb = "create"
	case strings.HasPrefix(up, "SET "):
		verb = "set"
	}
	if s.Auth.Infile != "" && n == s.Auth.InfileN {
		return s.infile(w)
	}
	f := s.fault(verb)
	if f != nil {
		switch f.Kind {
		case "err":
			s.e.Fired("sql/error")
			x := sqlErrs[f.Arg%len(sqlErrs)]
			return w.write(errPacket(x.Code, x.State, x.Msg)) == nil
		case "drop":
			s.e.Fired("sql/connection-killed")
			return false
		case "slow":
			s.e.Fired("sql/slow")
			time.Sleep(time.Duration(f.Arg) * time.Millisecond)
		case "garbage":
			s.e.Fired("sql/garbage")
			w.write([]byte{0x13, 0x37, 0xff, 0x01})
			return true
		}
	}
	rows := func(cols []string, data [][]string) bool {
		ps := [][]byte{{byte(len(cols))}}
		for _, c := range cols {
			ps = append(ps, colDef(c))
		}
		ps = append(ps, eofPacket())
		head := len(ps)
		for _, r := range data {
			var b []byte
			for i, v := range r {
				if f != nil && f.Kind == "null" && i == len(r)-1 {
					s.e.Fired("sql/null-answer")
					b = append(b, 0xfb)
					continue
				}
				b = lenstr(b, v)
			}
			if f != nil && f.Kind == "norows" {
				s.e.Fired("sql/empty-answer")
				continue
			}
			ps = append(ps, b)
		}
		ps = append(ps, eofPacket())
		if f != nil && (f.Kind == "err-rows" || f.Kind == "drop-rows" || f.Kind == "err-cols") {
			x := sqlErrs[f.Arg%len(sqlErrs)]
			k := head + f.Arg%(len(data)+1)
			if f.Kind == "err-cols" {
				k = 1 + f.Arg%(head-1)
			}
			ps = ps[:k:k]
			s.e.Fired("sql/" + map[string]string{"err-rows": "error-amid-rows", "drop-rows": "connection-killed-amid-rows", "err-cols": "error-amid-columns"}[f.Kind])
			if f.Kind != "drop-rows" {
				ps = append(ps, errPacket(x.Code, x.State, x.Msg))
			}
			w.write(ps...)
			return f.Kind != "drop-rows"
		}
		if f != nil && f.Kind == "trickle" {
			s.e.Fired("sql/trickle")
			for _, p := range ps {
				if w.write(p) != nil {
					return false
				}
				time.Sleep(time.Duration(1+f.Arg) * time.Millisecond)
			}
			return true
		}
		return w.write(ps...) == nil
	}
	if sess.DB == "" && !s.Auth.Anyway && (verb == "list" || verb == "create") {
		return w.write(errPacket(1046, "3D000", "No database selected")) == nil
	}
	switch verb {
	case "list":
		full := strings.HasPrefix(up, "SHOW FULL")
		runtime.SimHold()
		var data [][]string
		var names []string
		for _, t := range s.List() {
			if s.Others[sess.DB] {
				break
			}
			r := []string{t.Name}
			if full {
				r = append(r, map[bool]string{true: "VIEW", false: "BASE TABLE"}[t.View])
			}
			if strings.Contains(up, "BASE TABLE") && t.View {
				continue
			}
			data = append(data, r)
			names = append(names, t.Name)
		}
		if s.OnListed != nil {
			s.OnListed(names)
		}
		runtime.SimUnhold()
		cols := []string{"Tables_in_" + s.DB}
		if full {
			cols = append(cols, "Table_type")
		}
		return rows(cols, data)
	case "create":
		name, err := ident(strings.TrimSpace(strings.TrimSpace(q)[len("SHOW CREATE TABLE"):]))
		if err != nil {
			return w.write(errPacket(1064, "42000", "You have an error in your SQL syntax near '"+clip(q)+"'")) == nil
		}
		runtime.SimHold()
		t := s.Lookup(name)
		if s.Others[sess.DB] {
			t = nil
		}
		var def string
		if t != nil {
			def = t.Def()
		}
		runtime.SimUnhold()
		if t == nil {
			return w.write(errPacket(1146, "42S02", "Table '"+s.DB+"."+name+"' doesn't exist")) == nil
		}
		if t.View {
			return rows([]string{"View", "Create View", "character_set_client", "collation_connection"}, [][]string{{name, "CREATE VIEW " + name + " AS select 1", "utf8", "utf8_general_ci"}})
		}
		return rows([]string{"Table", "Create Table"}, [][]string{{name, def}})
	}
	if up == "SELECT @@MAX_ALLOWED_PACKET" {
		return rows([]string{"@@max_allowed_packet"}, [][]string{{"4194304"}})
	}
	var err error
	if s.Exec != nil {
		runtime.SimHold()
		err = s.Exec(sess, q)
		runtime.SimUnhold()
	} else {
		err = defaultExec(q)
	}
	if err != nil {
		var x *SQLError
		if !errors.As(err, &x) {
			x = Err(1105, "HY000", "%v", err)
		}
		return w.write(errPacket(x.Code, x.State, x.Msg)) == nil
	}
	return w.write(okPacket()) == nil
}

func clip(s string) string {
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

var sysVars = map[string]bool{"sql_mode": true, "time_zone": true, "wait_timeout": true, "net_read_timeout": true, "foreign_key_checks": true, "foreign_key_check": false, "autocommit": true, "character_set_client": true, "lock_wait_timeout": true, "max_execution_time": true}

func checkSet(q string) error {
	r := strings.TrimSpace(q)[4:]
	r = strings.TrimSpace(r)
	if strings.HasPrefix(strings.ToUpper(r), "NAMES ") {
		return nil
	}
	i := strings.IndexByte(r, '=')
	if i < 0 {
		return Err(1064, "42000", "You have an error in your SQL syntax near '%s'", clip(r))
	}
	name := strings.ToLower(strings.TrimSpace(r[:i]))
	for _, c := range name {
		if !(c >= 'a' && c <= 'z' || c == '_' || c >= '0' && c <= '9') {
			return Err(1064, "42000", "You have an error in your SQL syntax near '%s'", clip(r))
		}
	}
	if !sysVars[name] {
		return Err(1193, "HY000", "Unknown system variable '%s'", name)
	}
	return nil
}

func defaultExec(q string) error {
	if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "SET ") {
		return checkSet(q)
	}
	return nil
}

// ident parses a possibly qualified, possibly quoted table name that must be all of s.
func ident(s string) (string, error) {
	bad := errors.New("bad identifier")
	s = strings.TrimRight(s, "; \t\n")
	if s == "" {
		return "", bad
	}
	name := ""
	for {
		if s == "" {
			return "", bad
		}
		if s[0] == '`' {
			i := 1
			name = ""
			for ; ; i++ {
				if i >= len(s) {
					return "", bad
				}
				if s[i] == '`' {
					if i+1 < len(s) && s[i+1] == '`' {
						i++
						name += "`"
						continue
					}
					break
				}
				name += s[i : i+1]
			}
			s = s[i+1:]
		} else {
			i := 0
			for i < len(s) && (s[i] == '_' || s[i] == '$' || s[i] >= 0x80 || s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
				i++
			}
			if i == 0 {
				return "", bad
			}
			name, s = s[:i], s[i:]
		}
		if s == "" {
			return name, nil
		}
		if s[0] != '.' {
			return "", bad
		}
		s = s[1:]
	}
}
