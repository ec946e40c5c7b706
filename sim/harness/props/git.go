//go:build go1.22

package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"path"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/gen"
	"github.com/schemalex/schemalex/verifsim/simgit"
	"github.com/schemalex/schemalex/verifsim/simk"
)

func init() {
	core.Register("C08", git{})
	core.Describe("C08", core.Meta{
		Rule:   "One to three callers read files at revisions of simulated git repositories through local-git sources (directly, or inside diff and lint) while git is missing, cannot be started, stalls, exits with an error or is killed before, amid or after its output, or the pipe to it fails; nil must mean exactly the blob, and git must have exited with status 0.",
		Real:   []string{"schemalex git source, diff, lint", "os/exec, os.File, os.Pipe handling, internal/poll"},
		Stub:   []string{"git (a model of `git show REV:PATH` and `git cat-file`)", "process creation and waiting, pipes (in-memory kernel)", "goroutine scheduler decisions", "clock"},
		Assume: []string{"git that exits with status 0 has written the whole blob"},
	})
}

type git struct{}

type gitCall struct {
	Repo int    `json:"repo"`
	Rev  string `json:"rev"`
	File string `json:"file"`
	Rev2 string `json:"rev2,omitempty"`
	Op   string `json:"op"` // direct, uri, diff, lint
	Dst  bool   `json:"faulty_dst,omitempty"`
	Dir  string `json:"dir,omitempty"` // how the directory is given
}

type gitData struct {
	Repos  []*simgit.Repo `json:"repos"`
	Calls  []gitCall      `json:"calls"`
	Pipe   int            `json:"pipe_capacity,omitempty"`
	NoGit  bool           `json:"git_missing,omitempty"`
	BadDir bool           `json:"dir_missing,omitempty"`
	IsFile bool           `json:"dir_is_file,omitempty"`
	// Prev is what the first call's revision held when it was read before,
	// undisturbed.
	Prev    map[string]string `json:"read_before,omitempty"`
	Same    bool              `json:"same_source,omitempty"`
	sources map[string]schemalex.SchemaSource
}

// path is the file's path from the top of the repository.
func (c gitCall) path() string {
	if !strings.HasPrefix(c.File, "./") && !strings.HasPrefix(c.File, "../") {
		return c.File
	}
	if c.Dir == "sub" {
		return path.Join("db", c.File)
	}
	return path.Clean(c.File)
}

func (git) Name() string { return "local-git-source" }

func (git) Gen(r *rand.Rand, run uint64) (interface{}, []core.Fault, core.Sched) {
	var d gitData
	files := []string{"schema.sql", "db/schema.sql", "my schema.sql", "a=b&c.sql", "50%25.sql", "a+b#1.sql", "db/übung?.sql", "-n.sql"}
	revs := []string{"HEAD", "master", "deadbeef", "v1.0", "HEAD~2", "feature/x", ""}
	for i := 1 + r.Intn(2); i > 0; i-- {
		rp := &simgit.Repo{Revs: map[string]map[string]string{}, Conv: r.Intn(2) == 0}
		rp.Dir = [][]string{{"/sim/repo", simk.Cwd, "/sim"}, {"/sim/other repo", "/sim/repo/inner", simk.Cwd + "/repo"}}[len(d.Repos)][r.Intn(3)]
		s := gen.Any(r, 1+r.Intn(4), 5)
		for j := 1 + r.Intn(3); j > 0; j-- {
			t := map[string]string{}
			for m := 1 + r.Intn(2); m > 0; m-- {
				s = gen.Evolve(r, s)
				txt := s.SQL()
				switch r.Intn(6) {
				case 0:
					txt = strings.Repeat(txt+"\n", 1+r.Intn(1+100000/(len(txt)+1)))
				case 1:
					txt = gen.Damage(r, txt, 1)
				case 2:
					txt = []string{"", "\n", "-- nothing\n", "CREATE TABLE `a` (`id` INT)\x00"}[r.Intn(4)]
				}
				t[files[r.Intn(len(files))]] = strings.ToValidUTF8(txt, "?")
			}
			rp.Revs[revs[r.Intn(len(revs))]] = t
		}
		if r.Intn(2) == 0 {
			// what is checked out is not what is committed
			rp.Work = map[string]string{}
			for _, f := range files {
				if r.Intn(2) == 0 {
					rp.Work[f] = gen.Evolve(r, s).SQL()
				}
			}
		}
		d.Repos = append(d.Repos, rp)
	}
	pick := func(rp *simgit.Repo) (rev, file string) {
		for _, v := range revs {
			if t, ok := rp.Revs[v]; ok && (rev == "" && file == "" || r.Intn(2) == 0) {
				rev = v
				for _, f := range files {
					if _, ok := t[f]; ok && (file == "" || r.Intn(2) == 0) {
						file = f
					}
				}
				if _, ok := t[file]; !ok {
					file = ""
					for _, f := range files {
						if _, ok := t[f]; ok {
							file = f
						}
					}
				}
			}
		}
		if r.Intn(12) == 0 {
			rev = "nosuchrev"
		}
		if r.Intn(12) == 0 {
			file = []string{"nosuchfile.sql", "db", "db/", ""}[r.Intn(4)]
		}
		if r.Intn(12) == 0 && file != "" {
			file = []string{"./", "./", "../", "/"}[r.Intn(4)] + strings.TrimPrefix(file, "db/")
		}
		if r.Intn(12) == 0 {
			// what git takes for a range or an option
			rev = []string{"HEAD.." + rev, rev + ".." + rev, rev + "...HEAD", "^" + rev, "--output=" + rev, "--format=%B", "-G.", "-s", "--grep=x"}[r.Intn(9)]
		}
		return
	}
	for n := []int{1, 1, 1, 2, 3}[r.Intn(5)]; n > 0; n-- {
		c := gitCall{Repo: r.Intn(len(d.Repos)), Op: []string{"direct", "direct", "uri", "diff", "lint"}[r.Intn(5)], Dst: r.Intn(4) == 0}
		rp := d.Repos[c.Repo]
		c.Rev, c.File = pick(rp)
		c.Dir = []string{"", "", "", "slash", "sub", "rel"}[r.Intn(6)]
		for _, v := range revs {
			if _, ok := rp.Revs[v]; ok && (c.Rev2 == "" || r.Intn(2) == 0) {
				c.Rev2 = v
			}
		}
		d.Calls = append(d.Calls, c)
	}
	for i, c := range d.Calls {
		for _, t := range d.Repos[c.Repo].Revs {
			for _, b := range t {
				if len(b) > 15000 && c.Op != "uri" {
					d.Calls[i].Op = "direct"
				}
			}
		}
	}
	d.Pipe = []int{65536, 65536, 4096, 100 + r.Intn(5000)}[r.Intn(4)]
	var fs []core.Fault
	for n := []int{0, 0, 1, 1, 1, 2}[r.Intn(6)]; n > 0; n-- {
		nth := 1 + r.Intn([]int{1, 2, 4}[r.Intn(3)])
		switch r.Intn(10) {
		case 0:
			fs = append(fs, core.Fault{Site: "pipe:pipe", Kind: []string{"emfile", "enfile"}[r.Intn(2)], Nth: nth})
		case 1:
			fs = append(fs, core.Fault{Site: "fork:/usr/bin/git", Kind: []string{"eagain", "enomem", "eacces", "enoent"}[r.Intn(4)], Nth: nth})
		case 2:
			fs = append(fs, core.Fault{Site: "read:pipe", Kind: []string{"eio", "eintr", "short", "delay", "enomem"}[r.Intn(5)], Nth: 1 + r.Intn(6), Arg: 1 + r.Intn(300)})
		case 3:
			fs = append(fs, core.Fault{Site: "open:/dev/null", Kind: []string{"emfile", "eacces"}[r.Intn(2)], Nth: nth})
		case 4:
			fs = append(fs, core.Fault{Site: fmt.Sprintf("dst%d", r.Intn(len(d.Calls))), Kind: []string{"error", "short", "full+error"}[r.Intn(3)], Nth: nth, Arg: r.Intn(100)})
		default:
			fs = append(fs, core.Fault{Site: "git", Kind: []string{"exit", "exit", "kill", "stall", "trickle", "noise", "slow"}[r.Intn(7)], Nth: nth, Arg: r.Intn([]int{1, 50, 5000}[r.Intn(3)])})
		}
	}
	switch r.Intn(25) {
	case 0:
		d.NoGit = true
	case 1:
		d.BadDir = true
		d.IsFile = r.Intn(3) == 0
	}
	if c := d.Calls[0]; r.Intn(5) == 0 {
		d.Prev = map[string]string{"db/other.sql": "CREATE TABLE `other` (`id` INT);"}
		d.Same = r.Intn(2) == 0
		for f, b := range d.Repos[c.Repo].Revs[c.Rev] {
			switch r.Intn(4) {
			case 0:
			case 1:
				d.Prev[f] = b
			default:
				d.Prev[f] = b + "\nCREATE TABLE `earlier` (`id` INT);\n"
			}
		}
	}
	return d, fs, core.RandSched(r, r.Intn(3) == 0)
}

func (git) Run(e *core.Env) {
	var d gitData
	e.Decode(&d)
	k := simk.New(e)
	defer simk.Drop()
	k.PipeCap = d.Pipe
	simgit.Install(e, k, d.Repos)
	if d.NoGit {
		delete(k.Progs, "/usr/bin/git")
		e.Fired("config/no-git")
	}
	if d.BadDir {
		e.Fired("config/bad-dir")
		if d.IsFile {
			k.WriteFile("/sim/nowhere", []byte("not a directory"))
		}
	}
	if d.Prev != nil {
		c := d.Calls[0]
		revs := d.Repos[c.Repo].Revs
		now, ok := revs[c.Rev]
		revs[c.Rev] = d.Prev
		d.sources = map[string]schemalex.SchemaSource{}
		e.Pause(true)
		err := d.call(0, &sink{e: e, site: "dst0"})
		e.Logf("earlier read: %v", err)
		e.Pause(false)
		e.Probe("read-before")
		if revs[c.Rev] = now; !ok {
			delete(revs, c.Rev)
		}
		if !d.Same {
			d.sources = nil
		}
	}
	done := make(chan bool)
	results := make([]error, len(d.Calls))
	outs := make([]*sink, len(d.Calls))
	for i := range d.Calls {
		i := i
		outs[i] = &sink{e: e, site: fmt.Sprintf("dst%d", i)}
		f := func() {
			results[i] = d.call(i, outs[i])
		}
		if len(d.Calls) == 1 {
			f()
			break
		}
		go func() {
			defer func() { done <- true }()
			f()
		}()
	}
	if len(d.Calls) > 1 {
		for range d.Calls {
			<-done
		}
	}
	faulty := d.NoGit || d.BadDir
	for _, f := range e.FiredKinds() {
		if hardFault(f) && !strings.HasPrefix(f, "sink/") && !strings.HasPrefix(f, "config/") {
			switch f {
			case "git/stall", "git/trickle", "git/noise", "git/slow":
			default:
				faulty = true
			}
		}
	}
	for i, c := range d.Calls {
		err, got := results[i], outs[i].buf.String()
		rp := d.Repos[c.Repo]
		blob, ok := rp.Revs[c.Rev][c.path()]
		e.Logf("call %d %s err=%v %d bytes", i, c.Op, err, len(got))
		e.Probe("op/" + c.Op)
		var want string
		var wantErr error
		if !ok {
			wantErr = fmt.Errorf("no such revision or file")
		} else {
			want, wantErr = d.ref(c, blob)
		}
		switch {
		case err == nil && outs[i].fired:
			e.Fail("write-error-lost", "a write to the destination failed, but %s returned nil", c.Op)
		case err == nil && (d.NoGit || d.BadDir):
			e.Fail("error-lost", "git could not run, but %s returned nil and %d bytes", c.Op, len(got))
		case err == nil && wantErr != nil:
			e.Fail("error-lost", "%s of %s:%s returned nil, expected an error: %v", c.Op, c.Rev, c.File, wantErr)
		case err == nil && got != want:
			e.Fail("incomplete", "%s of %s:%s returned nil, but delivered %d bytes instead of %d: %s", c.Op, c.Rev, c.File, len(got), len(want), firstDiff(want, got))
		case err == nil:
			e.Probe("result/ok")
		default:
			e.Probe("result/error")
			if wantErr == nil && !faulty && !outs[i].fired {
				e.Fail("spurious-error", "nothing failed, but %s of %s:%s returned %v", c.Op, c.Rev, c.File, err)
			}
			if len(got) > 0 && !outs[i].fired && wantErr == nil && !strings.HasPrefix(want, got) {
				e.Fail("garbage", "after an error the destination holds bytes that are not in the file: %s", firstDiff(want, got))
			}
		}
	}
	if u := k.Unreaped(); len(u) > 0 {
		e.Fail("zombie", "%d child processes were not waited for", len(u))
	}
	if fds := k.OpenFds(); len(fds) > 0 {
		e.Fail("fd-leak", "still open: %v", fds)
	}
}

func (d *gitData) source(c gitCall, rev string, viaURI bool) (s schemalex.SchemaSource, err error) {
	key := fmt.Sprint(c.Dir, c.Repo, rev, c.File, viaURI)
	runtime.SimHold()
	s = d.sources[key]
	runtime.SimUnhold()
	if s != nil {
		return s, nil
	}
	if d.sources != nil {
		defer func() {
			runtime.SimHold()
			d.sources[key] = s
			runtime.SimUnhold()
		}()
	}
	dir := d.Repos[c.Repo].Dir
	switch c.Dir {
	case "slash":
		dir += "/"
	case "sub":
		dir += "/db"
	case "rel":
		if rel, err := filepath.Rel(simk.Cwd, dir); err == nil && !viaURI {
			dir = rel
			if rel == "." && len(c.Rev)%2 == 0 {
				dir = ""
			}
		}
	}
	if d.BadDir {
		dir = "/sim/nowhere"
	}
	if viaURI {
		u := url.URL{Scheme: "local-git", Path: dir, RawQuery: url.Values{"file": {c.File}, "commitish": {rev}}.Encode()}
		return schemalex.NewSchemaSource(u.String())
	}
	return schemalex.NewLocalGitSource(dir, c.File, rev), nil
}

func (d *gitData) call(i int, dst io.Writer) error {
	c := d.Calls[i]
	src, err := d.source(c, c.Rev, c.Op == "uri")
	if err != nil {
		return err
	}
	switch c.Op {
	case "diff":
		to, err := d.source(c, c.Rev2, true)
		if err != nil {
			return err
		}
		return diff.Sources(dst, src, to)
	case "lint":
		return lint.New().Run(context.Background(), src, dst)
	}
	return src.WriteSchema(dst)
}

// ref is what the call gives when git works.
func (d *gitData) ref(c gitCall, blob string) (string, error) {
	var b bytes.Buffer
	switch c.Op {
	case "diff":
		b2, ok := d.Repos[c.Repo].Revs[c.Rev2][c.path()]
		if !ok {
			return "", fmt.Errorf("no such file at %s", c.Rev2)
		}
		if err := diff.Strings(&b, blob, b2); err != nil {
			return "", err
		}
		return b.String(), nil
	case "lint":
		if err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(blob)), &b); err != nil {
			return "", err
		}
		return b.String(), nil
	}
	return blob, nil
}

func (git) Shrink(raw json.RawMessage) (l []interface{}) {
	var d gitData
	json.Unmarshal(raw, &d)
	dec := func() *gitData { var x gitData; json.Unmarshal(raw, &x); return &x }
	for i := range d.Calls {
		if len(d.Calls) > 1 {
			x := dec()
			x.Calls = append(x.Calls[:i], x.Calls[i+1:]...)
			l = append(l, x)
		}
		if d.Calls[i].Op != "direct" {
			x := dec()
			x.Calls[i].Op = "direct"
			l = append(l, x)
		}
	}
	if d.Prev != nil {
		x := dec()
		x.Prev = nil
		l = append(l, x)
		x = dec()
		x.Same = true
		l = append(l, x)
	}
	for i, rp := range d.Repos {
		for rev, t := range rp.Revs {
			for f, b := range t {
				if len(b) > 40 {
					x := dec()
					x.Repos[i].Revs[rev][f] = "CREATE TABLE `a` (`b` INT);"
					l = append(l, x)
				}
			}
		}
	}
	return
}
