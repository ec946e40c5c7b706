//go:build go1.22

// Package simgit is a small model of the git command line for the simulated kernel.
package simgit

import (
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/schemalex/schemalex/verifsim/core"
	"github.com/schemalex/schemalex/verifsim/simk"
)

// Repo is a repository: what each revision holds.
type Repo struct {
	Dir  string                       `json:"dir"`
	Revs map[string]map[string]string `json:"revs"`               // revision name -> path -> contents; "" is the index
	Work map[string]string            `json:"work,omitempty"`     // the working tree
	Conv bool                         `json:"textconv,omitempty"` // a text conversion filter is configured
}

// Install puts git on the simulated machine with the given repositories.
func Install(e *core.Env, k *simk.Kernel, repos []*Repo) {
	for _, r := range repos {
		k.MkdirAll(r.Dir + "/.git")
		k.MkdirAll(r.Dir + "/db")
		for f, b := range r.Work {
			k.WriteFile(path.Join(r.Dir, f), []byte(b))
		}
	}
	k.Progs["/usr/bin/git"] = func(p *simk.Proc) (int, syscall.Signal) { return run(e, p, repos) }
}

func find(repos []*Repo, dir string) *Repo {
	for ; ; dir = path.Dir(dir) {
		for _, r := range repos {
			if path.Clean(r.Dir) == dir {
				return r
			}
		}
		if dir == "/" {
			return nil
		}
	}
}

func run(e *core.Env, p *simk.Proc, repos []*Repo) (int, syscall.Signal) {
	e.Probe("git/started")
	dir := p.Dir
	args := append([]string(nil), p.Argv[1:]...)
	gitDir := ""
	for _, v := range p.Env {
		if strings.HasPrefix(v, "GIT_DIR=") {
			gitDir = v[8:]
		}
	}
global:
	for len(args) > 0 {
		switch a := args[0]; {
		case a == "-C" && len(args) > 1:
			if path.IsAbs(args[1]) {
				dir = path.Clean(args[1])
			} else if args[1] != "" {
				dir = path.Join(dir, args[1])
			}
			args = args[2:]
		case a == "-c" && len(args) > 1:
			args = args[2:]
		case a == "--git-dir" && len(args) > 1:
			gitDir = args[1]
			args = args[2:]
		case strings.HasPrefix(a, "--git-dir="):
			gitDir = a[10:]
			args = args[1:]
		case strings.HasPrefix(a, "-"):
			args = args[1:]
		default:
			break global
		}
	}
	if gitDir != "" {
		if !path.IsAbs(gitDir) {
			gitDir = path.Join(dir, gitDir)
		}
		dir = strings.TrimSuffix(path.Clean(gitDir), "/.git")
	}
	die := func(msg string) (int, syscall.Signal) {
		p.Out(2, []byte("fatal: "+msg+"\n"))
		return 128, 0
	}
	st := e.Hit("git")
	if st != nil && st.Kind == "slow" {
		e.Fired("git/slow")
		p.Sleep(time.Duration(st.Arg) * time.Millisecond)
	}
	repo := find(repos, dir)
	if repo == nil {
		return die("not a git repository (or any of the parent directories): .git")
	}
	if len(args) == 0 {
		return 1, 0
	}
	verb := args[0]
	if verb != "show" && verb != "cat-file" {
		return die("'" + verb + "' is not a git command the simulation knows")
	}
	var spec string
	opts := true
	for _, a := range args[1:] {
		switch {
		case a == "--":
		case a == "--end-of-options":
			opts = false
		case opts && strings.HasPrefix(a, "-") && strings.Contains(a, ":"):
			// a revision and path taken for an option
			if verb == "show" && (strings.Contains(a, "=") || strings.HasPrefix(a, "-G")) {
				e.Probe("git/option")
				if f := strings.TrimPrefix(a, "--format="); f != a {
					p.Out(1, []byte(strings.Replace(f, "%B", "a commit", -1)+"\n"))
				}
				return 0, 0
			}
			p.Out(2, []byte("error: unknown option `"+a+"'\n"))
			return 129, 0
		case a != "blob" && !(opts && strings.HasPrefix(a, "-")):
			spec = a
		}
	}
	i := strings.IndexByte(spec, ':')
	if i < 0 {
		return die("ambiguous argument '" + spec + "': unknown revision or path not in the working tree.")
	}
	rev, file := spec[:i], spec[i+1:]
	if n := strings.Index(rev, ".."); verb == "show" && (n > 0 || strings.HasPrefix(rev, "^")) {
		// a range, or an excluded commit: there is nothing to show
		e.Probe("git/range")
		if _, ok := repo.Revs[strings.TrimLeft(rev[n+1:], ".^")][file]; ok {
			return 0, 0
		}
	}
	tree, ok := repo.Revs[rev]
	if !ok {
		return die("invalid object name '" + rev + "'.")
	}
	if strings.HasPrefix(file, "./") || strings.HasPrefix(file, "../") {
		rel := strings.TrimPrefix(strings.TrimPrefix(dir, path.Clean(repo.Dir)), "/")
		file = path.Join(rel, file)
	}
	blob, ok := tree[file]
	if !ok {
		if d := strings.TrimSuffix(file, "/"); rev != "" {
			var l []string
			for f := range tree {
				if d == "" || strings.HasPrefix(f, d+"/") {
					l = append(l, strings.Replace(f[len(d):], "/", "", -1)+"\n")
				}
			}
			sort.Strings(l)
			list := strings.Join(l, "")
			if list != "" && verb == "show" {
				e.Probe("git/tree")
				p.Out(1, []byte("tree "+spec+"\n\n"+list))
				return 0, 0
			}
			if list != "" {
				return die("git cat-file " + spec + ": bad file")
			}
		}
		return die("path '" + file + "' does not exist in '" + rev + "'")
	}
	out := []byte(blob)
	if repo.Conv {
		for _, a := range args {
			if a == "--textconv" {
				out = []byte("-- converted\n" + blob)
			}
		}
	}
	cut := len(out)
	if st != nil {
		switch st.Kind {
		case "exit", "kill", "stall":
			cut = st.Arg % (len(out) + 1)
		}
	}
	chunk := 4096
	if st != nil && st.Kind == "trickle" {
		e.Fired("git/trickle")
		chunk = 1 + st.Arg
	}
	for off := 0; off < cut; {
		if p.Killed() {
			return 0, syscall.SIGKILL
		}
		n := chunk
		if off+n > cut {
			n = cut - off
		}
		if err := p.Out(1, out[off:off+n]); err != nil {
			return 0, syscall.SIGPIPE
		}
		off += n
		if chunk < 4096 && off < cut {
			p.Sleep(time.Millisecond)
		}
	}
	if st != nil {
		switch st.Kind {
		case "exit":
			e.Fired("git/exit")
			p.Out(2, []byte("error: object file is corrupt\nfatal: loose object is corrupt\n"))
			return []int{1, 128, 129, 255, 141}[st.Arg%5], 0
		case "kill":
			e.Fired("git/kill")
			return 0, []syscall.Signal{syscall.SIGKILL, syscall.SIGSEGV, syscall.SIGTERM, syscall.SIGBUS}[st.Arg%4]
		case "stall":
			e.Fired("git/stall")
			p.Sleep(time.Duration(1+st.Arg%90) * time.Second)
			if err := p.Out(1, out[cut:]); err != nil {
				return 0, syscall.SIGPIPE
			}
		case "noise":
			e.Fired("git/noise")
			p.Out(2, []byte("warning: unable to access '/root/.gitconfig': Permission denied\n"))
		}
	}
	return 0, 0
}
