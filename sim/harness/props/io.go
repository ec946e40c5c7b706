//go:build go1.22

package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/gen"
	"github.com/schemalex/schemalex/verifsim/simk"
)

var errInjected = errors.New("injected error")

var streamErrs = map[string]error{
	"error": errInjected, "unexpected-eof": io.ErrUnexpectedEOF, "timeout": os.ErrDeadlineExceeded,
	"closed-pipe": io.ErrClosedPipe, "no-progress": io.ErrNoProgress, "os-closed": os.ErrClosed,
}

// stream is a reader with planned faults.
type stream struct {
	e       *core.Env
	site    string
	data    []byte
	off     int
	chunk   int  // most bytes per read (0: no limit)
	eofWith bool // the last bytes come with io.EOF
	broken  error
}

func (s *stream) Read(p []byte) (int, error) {
	if s.broken != nil {
		return 0, s.broken
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if f := s.e.Hit(s.site); f != nil {
		switch f.Kind {
		case "delay":
			s.e.Fired("stream/delay")
			time.Sleep(time.Duration(f.Arg) * time.Millisecond)
		case "short":
			s.e.Fired("stream/short")
			if f.Arg < n && f.Arg > 0 {
				n = f.Arg
			}
		case "empty":
			s.e.Fired("stream/empty")
			return 0, nil
		case "data+error", "data+unexpected-eof", "data+timeout", "data+closed-pipe":
			s.e.Fired("stream/" + f.Kind)
			s.broken = streamErrs[f.Kind[len("data+"):]]
			if f.Arg < n {
				n = f.Arg
			}
			k := copy(p[:n], s.data[s.off:])
			s.off += k
			return k, s.broken
		default:
			if err, ok := streamErrs[f.Kind]; ok {
				s.e.Fired("stream/" + f.Kind)
				s.broken = err
				return 0, err
			}
		}
	}
	if s.off >= len(s.data) {
		return 0, io.EOF
	}
	k := copy(p[:n], s.data[s.off:])
	s.off += k
	if s.eofWith && s.off == len(s.data) {
		return k, io.EOF
	}
	return k, nil
}

// sink is a writer with planned faults.
type sink struct {
	e     *core.Env
	site  string
	buf   bytes.Buffer
	fired bool // an error was returned
	calls int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if f := s.e.Hit(s.site); f != nil {
		switch f.Kind {
		case "delay":
			s.e.Fired("sink/delay")
			time.Sleep(time.Duration(f.Arg) * time.Millisecond)
		case "short":
			n := f.Arg
			if n > len(p) {
				n = len(p)
			}
			s.buf.Write(p[:n])
			s.fired = true
			s.e.Fired("sink/short")
			return n, io.ErrShortWrite
		case "full+error":
			s.buf.Write(p)
			s.fired = true
			s.e.Fired("sink/full+error")
			return len(p), errInjected
		default:
			if err, ok := streamErrs[f.Kind]; ok {
				s.fired = true
				s.e.Fired("sink/" + f.Kind)
				return 0, err
			}
		}
	}
	return s.buf.Write(p)
}

func init() {
	core.Register("C05", sources{})
	core.Describe("C05", core.Meta{
		Rule:   "One source (a caller's reader, a pipe fed by another goroutine, a file, stdin, ParseFile) with drawn contents is written to a drawn destination, while reads, opens, fstat and writes are delayed, shortened, interrupted or fail as planned, or the file is atomically replaced by another simulated process; nil must mean the exact contents, and no failure may be reported when nothing failed.",
		Real:   []string{"schemalex sources", "io.Copy, os.File, internal/poll, io.Pipe"},
		Stub:   []string{"system calls on files and standard streams (in-memory kernel)", "goroutine scheduler decisions", "clock"},
		Assume: []string{"a read that reports end of file early cannot be told from a shorter file"},
	})
}

// stmtEnd is an offset at which a text cut off still looks complete: just after
// a semicolon, a line or a closing parenthesis.
func stmtEnd(r *rand.Rand, t string) int {
	var l []int
	for i := range t {
		switch t[i] {
		case ';', '\n', ')':
			l = append(l, i, i+1)
		}
	}
	if len(l) == 0 {
		return r.Intn(len(t) + 1)
	}
	return l[r.Intn(len(l))]
}

// ---- C05 ---------------------------------------------------------------------

type sources struct{}

type sourceData struct {
	Kind    string    `json:"kind"`
	Text    core.Text `json:"text"`
	Size    int       `json:"size,omitempty"` // the text is repeated to this many bytes
	Tail    core.Text `json:"tail,omitempty"` // its last bytes
	Old     core.Text `json:"replaced_by,omitempty"`
	At      int       `json:"replaced_at_ms,omitempty"`
	Chunk   int       `json:"chunk,omitempty"`
	EOFWith bool      `json:"eof_with_data,omitempty"`
	Chunks  []int     `json:"chunks,omitempty"`
	Via     string    `json:"via,omitempty"`
	Path    string    `json:"path,omitempty"`
	Name    string    `json:"name,omitempty"` // the file's path, if not simPath
	Dst     string    `json:"dst"`
	Special string    `json:"special,omitempty"`
	Fail    int       `json:"producer_fails_at,omitempty"`
	// Prior is what the file held when it was read before, undisturbed.
	Prior core.Text `json:"read_before,omitempty"`
	Same  bool      `json:"same_source,omitempty"`
	// Reader is what kind of reader the caller gives, of which Used bytes
	// were read already.
	Reader string    `json:"reader,omitempty"`
	Used   core.Text `json:"read_already,omitempty"`
}

// seekStream is a stream that can go back.
type seekStream struct{ *stream }

func (s seekStream) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(s.off)
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 || off > int64(len(s.data)) {
		return 0, os.ErrInvalid
	}
	s.off = int(off)
	return off, nil
}

// reader is the reader of a reader source.
func (d *sourceData) reader(e *core.Env, k *simk.Kernel) io.Reader {
	all := []byte(string(d.Used) + string(d.Text))
	st := &stream{e: e, site: "src", data: all, chunk: d.Chunk, eofWith: d.EOFWith}
	n := len(d.Used)
	switch d.Reader {
	case "seeker":
		st.off = n
		return seekStream{st}
	case "bufio":
		st.off = n
		return bufio.NewReaderSize(st, 16+len(d.Used))
	case "multi":
		st.off = n
		return io.MultiReader(strings.NewReader(""), st, strings.NewReader(""))
	}
	var r io.Reader
	switch d.Reader {
	case "bytes":
		r = bytes.NewReader(all)
	case "strings":
		r = strings.NewReader(string(all))
	case "buffer":
		r = bytes.NewBuffer(all)
	case "section":
		r = io.NewSectionReader(bytes.NewReader([]byte("SELECT 1;"+string(all)+"-- more")), 9, int64(len(all)))
	case "os":
		k.WriteFile("/sim/cwd/in", all)
		f, err := os.Open("in")
		if err != nil {
			return st
		}
		r = f
	default:
		st.off = n
		return st
	}
	io.ReadFull(r, make([]byte, n))
	return r
}

func (sources) Name() string { return "stream-and-file-sources" }

const simPath = "/sim/a.sql"

func (sources) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d sourceData
	t, _ := gen.Text(r)
	switch r.Intn(10) {
	case 0:
		t = ""
	case 1, 2:
		// longer than the buffers copied through
		t = strings.Repeat(t+"\n", 1+r.Intn(1+200000/(len(t)+1)))
	}
	if len(t) > 300000 {
		t = t[:300000]
	}
	odd := []string{"\xef\xbb\xbf", "\xff\xfe", "\x1a", "\r\n", "\n", "\r", "\x00", " ", "\t", "\x04", "\xc2\xa0", "\xe2\x80\xa8", ";", "\x1f\x8b\x08"}
	if r.Intn(6) == 0 {
		t = odd[r.Intn(len(odd))] + t
	}
	if r.Intn(6) == 0 {
		d.Tail = core.Text(odd[r.Intn(len(odd))])
	}
	d.Text = core.Text(t)
	d.Kind = []string{"reader", "pipe", "file", "file", "stdin", "parsefile"}[r.Intn(6)]
	d.Chunk = []int{0, 0, 1 + r.Intn(10), 100 + r.Intn(5000)}[r.Intn(4)]
	if d.Chunk > 0 && len(t)/d.Chunk > 3000 {
		d.Chunk = len(t)/3000 + 1
	}
	d.EOFWith = r.Intn(2) == 0
	if d.Kind == "reader" && r.Intn(2) == 0 {
		d.Reader = []string{"", "seeker", "bufio", "multi", "bytes", "strings", "buffer", "section", "os"}[r.Intn(9)]
		if r.Intn(2) == 0 {
			d.Used = core.Text("CREATE TABLE `before` (`id` INT);\n"[:1+r.Intn(34)])
		}
	}
	d.Dst = []string{"buffer", "sink", "sink"}[r.Intn(3)]
	d.Via = []string{"direct", "uri", "uri", "uri-file", "uri-file", "uri-FILE", "uri-localhost", "uri-slash"}[r.Intn(8)]
	d.Fail = -1
	var fs []core.Fault
	add := func(site, kind string, nth, arg int) {
		fs = append(fs, core.Fault{Site: site, Kind: kind, Nth: nth, Arg: arg})
	}
	pickS := func(l ...string) string { return l[r.Intn(len(l))] }
	nf := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]
	nth := func() int { return 1 + r.Intn([]int{1, 2, 3, 8}[r.Intn(4)]) }
	for ; nf > 0; nf-- {
		if d.Dst == "sink" && r.Intn(4) == 0 {
			add("dst", pickS("error", "short", "full+error", "delay"), nth(), r.Intn(50))
			continue
		}
		switch d.Kind {
		case "reader":
			add("src", pickS("error", "unexpected-eof", "timeout", "closed-pipe", "os-closed", "data+error", "data+unexpected-eof", "short", "empty", "delay"), nth(), r.Intn(100))
		case "pipe":
			if r.Intn(2) == 0 {
				d.Fail = r.Intn(len(t) + 1)
			}
		case "file", "parsefile":
			switch r.Intn(6) {
			case 0:
				add("open:"+simPath, pickS("enoent", "eacces", "emfile", "eintr", "eio"), 1, 0)
			case 1:
				add("fstat:"+simPath, pickS("eio", "estale"), 1, 0)
			default:
				add("read:"+simPath, pickS("eio", "estale", "eintr", "eagain", "etimedout", "short", "delay", "eisdir"), nth(), 1+r.Intn(500))
			}
		case "stdin":
			add("read:stdin", pickS("eio", "eintr", "eagain", "short", "delay"), nth(), 1+r.Intn(500))
		}
	}
	if r.Intn(10) == 0 && len(t) < 5000 {
		// the input ends, or fails, where it could have ended
		fs = nil
		n := stmtEnd(r, t)
		switch d.Kind {
		case "reader":
			d.Chunk = 0
			add("src", pickS("data+error", "data+unexpected-eof", "data+timeout", "data+closed-pipe"), 1, n)
		case "pipe":
			d.Fail = n
		case "file", "parsefile", "stdin":
			p := simPath
			if d.Kind == "stdin" {
				p = "stdin"
			}
			add("read:"+p, "short", 1, n)
			add("read:"+p, "eio", 2, 0)
		}
	}
	if (d.Kind == "file" || d.Kind == "parsefile") && r.Intn(3) == 0 {
		o, _ := gen.Text(r)
		d.Old = core.Text(o)
		d.At = r.Intn(3)
	}
	if r.Intn(15) == 0 && (d.Kind == "file" || d.Kind == "parsefile") {
		d.Path = []string{"/sim/missing.sql", "/sim", "/sim/a.sql/x", "missing", "-", "MISSING.sql", "a.sql"}[r.Intn(7)]
		if d.Path == "-" {
			d.Via = "direct"
		}
	}
	if (d.Kind == "file" || d.Kind == "parsefile") && r.Intn(3) == 0 {
		d.Name = oddName(r)
		for i := range fs {
			fs[i].Site = strings.Replace(fs[i].Site, simPath, absName(d.Name), 1)
		}
	}
	if (d.Kind == "file" || d.Kind == "parsefile") && d.Old == "" && r.Intn(4) == 0 {
		d.Special = pickS("fifo", "proc", "sysfs")
	}
	if (d.Kind == "file" || d.Kind == "parsefile" && len(t) < 20000) && d.Path == "" && r.Intn(5) == 0 {
		d.Same = r.Intn(2) == 0
		switch b := []byte(t); r.Intn(4) {
		case 0, 1:
			// as long as what follows
			for i := range b {
				if r.Intn(10) == 0 && b[i] >= '0' && b[i] <= '9' {
					b[i] = '0' + (b[i]-'0'+1)%10
				}
			}
			if r.Intn(2) == 0 && len(b) > 0 {
				b[r.Intn(len(b))] ^= 1
			}
			d.Prior = core.Text(b)
		case 2:
			d.Prior = core.Text(b) + "\nCREATE TABLE `earlier` (`id` INT);\n"
		case 3:
			p, _ := gen.Text(r)
			d.Prior = core.Text(p)
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		d.Chunks = append(d.Chunks, 1+r.Intn(200))
	}
	s := core.RandSched(r, r.Intn(3) == 0)
	if d.Kind != "parsefile" && len(t) > 0 && r.Intn(8) == 0 {
		// about as long as the buffers on the way, or much longer
		d.Size = []int{512, 4096, 8192, 32 << 10, 64 << 10, 128 << 10, 1 << 20, 1<<20 + r.Intn(5<<20)}[r.Intn(8)] - 1 + r.Intn(3)
		if d.Chunk > 0 && d.Size/d.Chunk > 3000 {
			d.Chunk = d.Size/3000 + 1
		}
	}
	if d.Kind != "parsefile" && d.Kind != "pipe" && len(t) > 0 && r.Intn(400) == 0 {
		d.Size = []int{10e6, 16 << 20, 32 << 20, 64 << 20}[r.Intn(4)] + 1 + r.Intn(3<<20)
		d.Chunk, d.Tail, d.Chunks, d.Prior = 0, "", nil, ""
	}
	if len(t) > 20000 || d.Size > 20000 {
		s.YieldMalloc, s.YieldStmt = 0, 0
	}
	return d, fs, s
}

// oddName is a path that means something else, or nothing, to who takes it for
// a URI, a pattern or an option.
func oddName(r *rand.Rand) string {
	dirs := []string{"/sim/", "/sim/", "", "", "./", "../", "/sim/a b/", "/sim/x#1/", "/sim/%2f/", "sub/dir/", "./:/", "/"}
	names := []string{"a b.sql", "a#b.sql", "a?b.sql", "a?.sql", "a%20b.sql", "100%.sql", "a%zz.sql", "a+b.sql", "%2e.sql", "ü.sql", "a\nb.sql", "a\\b.sql", "a&b=c.sql", "*.sql", "~", "-a.sql", "a;b.sql", "a\"b.sql", "$HOME.sql", "a.sql ", " a.sql", "...", "a@b.sql", "mysql", "file", "\xff.sql", "a#", "a?", "{a,b}.sql", "A.SQL"}
	n := names[r.Intn(len(names))]
	d := dirs[r.Intn(len(dirs))]
	if d != "" && r.Intn(3) == 0 {
		n = []string{"a:b.sql", "user:pw@tcp(db:3306)", "mysql:a", "file:a#b", ":"}[r.Intn(5)]
	}
	return d + n
}

// misread lists what the path would be to who takes it for a URI.
func misread(p string) (l []string) {
	for _, q := range []string{p, strings.Trim(p, " "), strings.ToLower(p), p + ".sql", strings.TrimSuffix(p, filepath.Ext(p)), filepath.Base(p), "/" + filepath.Base(p), filepath.Join(filepath.Dir(p), "schema.sql"), p + "~", p + ".bak"} {
		for _, c := range []string{"#", "?", "#?", ""} {
			x := q
			if i := strings.IndexAny(q, c); i >= 0 {
				x = q[:i]
			}
			l = append(l, x)
			if y, err := url.PathUnescape(x); err == nil {
				l = append(l, y)
			}
			if y, err := url.QueryUnescape(x); err == nil {
				l = append(l, y)
			}
		}
	}
	return
}

func absName(p string) string {
	if !filepath.IsAbs(p) {
		p = simk.Cwd + "/" + p
	}
	return filepath.Clean(p)
}

// fileURI is a file:// URI for the path.
func fileURI(via, p string) string {
	u := (&url.URL{Scheme: "file", Path: absName(p)}).String()
	u = "//" + strings.TrimLeft(u[len("file:"):], "/")
	u = "file:/" + u
	switch via {
	case "uri-FILE":
		u = "FILE" + u[4:]
	case "uri-localhost":
		u = "file://localhost" + u[7:]
	case "uri-slash":
		u = "file:" + u[7:]
	}
	return u
}

// whole is the contents of the source.
func (d *sourceData) whole() core.Text {
	t := d.Text
	if n := len(t); n > 0 && d.Size > 0 {
		t = core.Text(strings.Repeat(string(t), d.Size/n+1)[:d.Size])
	}
	return t + d.Tail
}

// hard tells whether a planned fault that fired is one the caller must hear of.
func hardFault(kind string) bool {
	for _, ok := range []string{"short", "delay", "empty", "eintr"} {
		if strings.HasSuffix(kind, "/"+ok) && kind != "sink/short" {
			return false
		}
	}
	return true
}

func (sources) Run(e *core.Env) {
	var d sourceData
	e.Decode(&d)
	d.Text = d.whole()
	k := simk.New(e)
	defer simk.Drop()
	e.Probe("kind/" + d.Kind)
	want := string(d.Text)
	alt := want
	var src schemalex.SchemaSource
	var err error
	path := simPath
	if d.Name != "" {
		path = d.Name
		e.Probe("file/odd-name")
	}
	if d.Name != "" || d.Path != "" || len(e.Case.Faults) > 0 && strings.HasPrefix(e.Case.Faults[0].Site, "open:") {
		p := path
		if d.Path != "" {
			p = d.Path
		}
		for _, p := range misread(p) {
			if absName(p) != absName(path) && absName(p) != absName(d.Path) && !strings.HasSuffix(p, "/") && !strings.HasPrefix(absName(p)+"/", "/sim/a.sql/") {
				k.Decoy(p, []byte("CREATE TABLE `decoy` (`id` INT);\n"))
			}
		}
	}
	file := path
	if k.WriteFile(file, []byte(d.Text)); d.Special != "" {
		k.SetSpecial(file, d.Special)
		e.Probe("file/" + d.Special)
	}
	if d.Path != "" {
		path = d.Path
		e.Fired("config/bad-path")
	}
	var parser *schemalex.Parser
	if d.Prior != "" {
		e.Pause(true)
		k.WriteFile(file, []byte(d.Prior))
		if d.Kind == "parsefile" {
			parser = schemalex.New()
			parser.ParseFile(file)
			if !d.Same {
				parser = nil
			}
		} else if s := d.fileSource(path); s != nil {
			var b bytes.Buffer
			err := s.WriteSchema(&b)
			if err != nil {
				e.Fail("spurious-error", "nothing failed, but WriteSchema returned %v", err)
			} else if b.String() != string(d.Prior) {
				e.Fail("incomplete", "nil error, but %d bytes were written instead of %d: %s", b.Len(), len(d.Prior), firstDiff(string(d.Prior), b.String()))
			}
			if d.Same {
				src = s
			}
		}
		k.WriteFile(file, []byte(d.Text))
		if d.Special != "" {
			k.SetSpecial(file, d.Special)
		}
		e.Pause(false)
		e.Probe("read-before")
	}
	prodFailed := false
	done := make(chan bool, 1)
	joined := false
	defer func() {
		if joined {
			<-done
		}
	}()
	replace := func() {
		if d.Old == "" {
			return
		}
		alt = string(d.Old)
		joined = true
		go func() {
			time.Sleep(time.Duration(d.At) * time.Millisecond)
			k.WriteFile(file, []byte(d.Old)) // as rename(2) over the path does
			e.Probe("file-replaced")
			done <- true
		}()
	}
	switch d.Kind {
	case "reader":
		rd := d.reader(e, k)
		if f, ok := rd.(*os.File); ok {
			defer f.Close()
		}
		e.Probe("reader/" + d.Reader)
		src = schemalex.NewReaderSource(rd)
	case "pipe":
		pr, pw := io.Pipe()
		go func() {
			defer func() { done <- true }()
			b := []byte(d.Text)
			sent := 0
			for i := 0; len(b) > 0; i++ {
				n := len(b)
				if i < len(d.Chunks) && d.Chunks[i] < n {
					n = d.Chunks[i]
				}
				if d.Fail >= 0 && sent+n > d.Fail {
					n = d.Fail - sent
				}
				if n > 0 {
					if _, err := pw.Write(b[:n]); err != nil {
						return
					}
					sent += n
					b = b[n:]
				}
				if d.Fail >= 0 && sent >= d.Fail {
					prodFailed = true
					e.Fired("pipe/producer-error")
					pw.CloseWithError(errInjected)
					return
				}
			}
			if d.Fail >= 0 {
				prodFailed = true
				e.Fired("pipe/producer-error")
				pw.CloseWithError(errInjected)
				return
			}
			pw.Close()
		}()
		src = schemalex.NewReaderSource(pr)
		joined = true
		defer pr.Close()
	case "file":
		if src == nil {
			src = d.fileSource(path)
		}
		replace()
	case "stdin":
		k.Stdin = []byte(d.Text)
		k.StdinChunks = append([]int(nil), d.Chunks...)
		os.Stdin = os.NewFile(0, "/dev/stdin")
		src, err = schemalex.NewSchemaSource("-")
	case "parsefile":
		replace()
		parseFile(e, k, &d, path, parser)
		return
	}
	if err != nil || src == nil {
		if d.Path == "" {
			e.Fail("no-source", "creating the source failed: %v", err)
		}
		return
	}
	var buf bytes.Buffer
	out := &sink{e: e, site: "dst"}
	var dst io.Writer = &buf
	if d.Dst == "sink" {
		dst = out
	}
	err = src.WriteSchema(dst)
	got := buf.String() + out.buf.String()
	e.Logf("err=%v, %d of %d bytes", err, len(got), len(want))
	hard := hardFired(e) || prodFailed
	if fds := k.OpenFds(); len(fds) > 0 && d.Kind == "file" {
		e.Fail("fd-leak", "still open: %v", fds)
	}
	if err == nil {
		e.Probe("result/ok")
		if out.fired {
			e.Fail("write-error-lost", "the destination reported an error, WriteSchema returned nil")
		} else if d.Path != "" {
			e.Fail("bad-path-accepted", "path %q gave no error", d.Path)
		} else if got != want && got != alt {
			e.Fail("incomplete", "nil error, but %d bytes were written instead of %d: %s", len(got), len(want), firstDiff(want, got))
		}
		return
	}
	e.Probe("result/error")
	if !hard && !out.fired {
		e.Fail("spurious-error", "nothing failed, but WriteSchema returned %v", err)
		return
	}
	if !strings.HasPrefix(want, got) && !strings.HasPrefix(alt, got) {
		e.Fail("garbage", "after an error the destination holds bytes that are not in the source: %s", firstDiff(want, got))
	}
}

func (d *sourceData) fileSource(path string) (src schemalex.SchemaSource) {
	switch d.Via {
	case "uri":
		src, _ = schemalex.NewSchemaSource(path)
	case "uri-file", "uri-FILE", "uri-localhost", "uri-slash":
		src, _ = schemalex.NewSchemaSource(fileURI(d.Via, path))
	default:
		src = schemalex.NewLocalFileSource(path)
	}
	return src
}

func hardFired(e *core.Env) bool {
	for _, k := range e.FiredKinds() {
		if hardFault(k) {
			return true
		}
	}
	return false
}

func parseFile(e *core.Env, k *simk.Kernel, d *sourceData, file string, parser *schemalex.Parser) {
	ref := func(t core.Text) string {
		s, err := schemalex.New().Parse([]byte(t))
		return dumpParse(s, err)
	}
	// the reference calls see no file, so no fault reaches them
	want := ref(d.Text)
	alt := want
	if d.Old != "" {
		alt = ref(d.Old)
	}
	if parser == nil {
		parser = schemalex.New()
	}
	s, err := parser.ParseFile(file)
	got := dumpParse(s, err)
	strip := func(s string) string {
		s = strings.Replace(s, " in file "+file, "", 1)
		return strings.Replace(s, "["+file+" ", "[ ", 1)
	}
	e.Logf("parsefile err=%v hard=%v", err, hardFired(e))
	if err == nil {
		e.Probe("result/ok")
		if d.Path != "" {
			e.Fail("bad-path-accepted", "path %q gave no error", d.Path)
		} else if got != want && got != alt {
			e.Fail("incomplete", "ParseFile returned a schema that is not the file's: %s", firstDiff(want, got))
		}
	} else {
		e.Probe("result/error")
		if !hardFired(e) && d.Path == "" && normParseErr(strip(got)) != normParseErr(want) && normParseErr(strip(got)) != normParseErr(alt) {
			e.Fail("spurious-error", "nothing failed, but ParseFile returned %v", err)
		}
		if s != nil {
			e.Fail("partial-result", "ParseFile returned statements and an error")
		}
	}
	if fds := k.OpenFds(); len(fds) > 0 {
		e.Fail("fd-leak", "still open: %v", fds)
	}
}

// normParseErr keeps only whether parsing failed: the texts of the errors
// differ by the file name.
func normParseErr(s string) string {
	if strings.HasPrefix(s, "error: ") {
		return "error"
	}
	return s
}

func (sources) Shrink(raw json.RawMessage) (l []interface{}) {
	var d sourceData
	json.Unmarshal(raw, &d)
	if d.Old != "" {
		x := d
		x.Old = ""
		l = append(l, x)
	}
	for _, t := range gen.ShrinkText(string(d.Text)) {
		x := d
		x.Text = core.Text(t)
		if x.Fail > len(t) {
			x.Fail = len(t)
		}
		l = append(l, x)
	}
	if d.Size > 0 {
		x := d
		x.Size = 0
		l = append(l, x)
		x.Size = d.Size / 2
		l = append(l, x)
	}
	if d.Tail != "" {
		x := d
		x.Tail = ""
		l = append(l, x)
	}
	if d.Prior != "" {
		x := d
		x.Prior = ""
		l = append(l, x)
		x.Prior, x.Same = "SELECT 1;\n", true
		if len(d.Prior) > 12 {
			l = append(l, x)
		}
	}
	if len(d.Chunks) > 0 {
		x := d
		x.Chunks = nil
		l = append(l, x)
	}
	if d.Chunk != 0 {
		x := d
		x.Chunk = 0
		l = append(l, x)
	}
	return
}

var _ = fmt.Sprint
