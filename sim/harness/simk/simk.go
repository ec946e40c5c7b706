//go:build go1.22

// Package simk is the simulated kernel: an in-memory file system, standard
// streams, pipes and child processes, with planned faults.
package simk

import (
	"fmt"
	"io"
	"path"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/schemalex/schemalex/verifsim/core"
)

// Inode is a file or directory.
type Inode struct {
	Data []byte
	Dir  bool
	Mode uint32
	ino  uint64
	// Closed notes whether the last writer closed the file.
	Writers int
	Name    string
	// Special is what kind of file stat(2) says it is: a "fifo", or a file
	// like those of "proc" (no size) and "sysfs" (a size it does not have).
	Special string
}

type file struct {
	node   *Inode
	off    int64
	flags  int
	pipe   *pipe
	wr     bool
	std    string // "stdin", "stdout", "stderr", "null"
	name   string
	dents  int
	closed bool
}

// Cwd is the simulated working directory.
const Cwd = "/sim/cwd"

// Kernel is one simulated machine.
type Kernel struct {
	e     *core.Env
	nodes map[string]*Inode
	fds   map[int]*file
	next  int
	ino   uint64

	Stdin    []byte
	stdinOff int
	// StdinChunks gives the sizes of successive stdin reads (0: all).
	StdinChunks []int
	Stdout      []byte
	Stderr      []byte
	PipeCap     int
	Used        int64 // bytes on disk written through the kernel

	procs map[int]*proc
	pid   int
	// Progs maps a path to a program.
	Progs map[string]Program

	dead     bool
	ExitCode int
	Exited   chan struct{}
	Opened   map[string]int
	OpenNow  map[string]int
}

// Program is the body of a simulated executable.
type Program func(p *Proc) (code int, sig syscall.Signal)

// Proc is what a simulated program sees.
type Proc struct {
	K    *Kernel
	Argv []string
	Dir  string
	Env  []string
	out  *file
	err  *file
	in   *file
	kill chan struct{}
}

type proc struct {
	done   chan struct{}
	kill   chan struct{}
	killed bool
	st     syscall.WaitStatus
	reaped bool
}

// New makes a kernel and installs it.
func New(e *core.Env) *Kernel {
	k := &Kernel{e: e, nodes: map[string]*Inode{}, fds: map[int]*file{}, next: syscall.SimFdBase, procs: map[int]*proc{}, pid: syscall.SimPidBase, Progs: map[string]Program{}, PipeCap: 65536, ExitCode: -1, Exited: make(chan struct{}), Opened: map[string]int{}, OpenNow: map[string]int{}}
	for _, d := range []string{"/", "/sim", Cwd, "/tmp", "/dev", "/usr", "/usr/bin"} {
		k.Mkdir(d)
	}
	k.fds[0] = &file{std: "stdin", name: "stdin"}
	k.fds[1] = &file{std: "stdout", name: "stdout", wr: true}
	k.fds[2] = &file{std: "stderr", name: "stderr", wr: true}
	syscall.SimK = &syscall.SimKernel{
		Open: k.open, Read: k.read, Write: k.write, Pread: k.pread, Pwrite: k.pwrite,
		Close: k.close, Seek: k.seek, Fstat: k.fstat, Stat: k.stat, Unlink: k.unlink,
		Rename: k.rename, Mkdir: k.mkdir, Access: k.access,
		Chmod:    func(p string, m uint32) (error, bool) { return nil, true },
		Fchmod:   func(fd int, m uint32) error { return nil },
		Truncate: k.truncate, Ftruncate: k.ftruncate, Fsync: k.fsync,
		Getdents: k.getdents, Pipe: k.mkpipe, Dup: k.dup, Getcwd: func() string { return Cwd },
		Chdir:     func(p string) (error, bool) { return syscall.EPERM, true },
		StartProc: k.start, WaitProc: k.wait, KillProc: k.killProc, Exit: k.exit,
	}
	return k
}

// Drop uninstalls the kernel.
func Drop() { syscall.SimK = nil }

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

// Mkdir makes a directory.
func (k *Kernel) Mkdir(p string) {
	defer hold()()
	k.ino++
	k.nodes[p] = &Inode{Dir: true, Mode: 0o755, ino: k.ino, Name: p}
}

// MkdirAll makes a directory and its parents.
func (k *Kernel) MkdirAll(p string) {
	for i := 1; i <= len(p); i++ {
		if (i == len(p) || p[i] == '/') && k.nodes[p[:i]] == nil {
			k.Mkdir(p[:i])
		}
	}
}

// WriteFile sets a file's contents.
func (k *Kernel) WriteFile(p string, data []byte) *Inode {
	defer hold()()
	k.ino++
	n := &Inode{Data: append([]byte(nil), data...), Mode: 0o644, ino: k.ino, Name: p}
	k.nodes[abs(p)] = n
	return n
}

// Decoy makes a file, unless something else is or must be there.
func (k *Kernel) Decoy(p string, data []byte) {
	if p = abs(p); k.nodes[p] == nil && !strings.HasPrefix(Cwd+"/", strings.TrimSuffix(p, "/")+"/") {
		k.WriteFile(p, data)
	}
}

// SetSpecial makes a file a special one.
func (k *Kernel) SetSpecial(p, kind string) {
	defer hold()()
	if n := k.nodes[abs(p)]; n != nil {
		n.Special = kind
	}
}

// ReadFile returns a file's contents.
func (k *Kernel) ReadFile(p string) ([]byte, bool) {
	defer hold()()
	n := k.nodes[abs(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Files lists the regular files.
func (k *Kernel) Files() []string {
	defer hold()()
	var l []string
	for p, n := range k.nodes {
		if !n.Dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// OpenFds counts the descriptors (other than the standard ones) still open.
func (k *Kernel) OpenFds() (names []string) {
	defer hold()()
	for fd, f := range k.fds {
		if fd > 2 && !f.closed {
			names = append(names, f.name)
		}
	}
	sort.Strings(names)
	return
}

var errnos = map[string]syscall.Errno{
	"eio": syscall.EIO, "enospc": syscall.ENOSPC, "edquot": syscall.EDQUOT, "eintr": syscall.EINTR,
	"enoent": syscall.ENOENT, "eacces": syscall.EACCES, "emfile": syscall.EMFILE, "enfile": syscall.ENFILE,
	"efbig": syscall.EFBIG, "enomem": syscall.ENOMEM, "eagain": syscall.EAGAIN, "estale": syscall.ESTALE,
	"epipe": syscall.EPIPE, "erofs": syscall.EROFS, "etimedout": syscall.ETIMEDOUT, "eisdir": syscall.EISDIR,
}

func hold() func() {
	runtime.SimHold()
	return runtime.SimUnhold
}

// fault handles the fault kinds shared by all calls.
func (k *Kernel) fault(op, name string) (*core.Fault, error) {
	runtime.SimYield()
	site := op + ":" + name
	f := k.e.Hit(site)
	if f == nil {
		return nil, nil
	}
	if e, ok := errnos[f.Kind]; ok {
		k.e.Fired(op + "/" + f.Kind)
		k.e.Logf("fault %s #%d %s", site, k.e.Count(site), f.Kind)
		return f, e
	}
	switch f.Kind {
	case "delay":
		k.e.Fired(op + "/delay")
		time.Sleep(time.Duration(f.Arg) * time.Millisecond)
	}
	return f, nil
}

func (k *Kernel) newfd(f *file) int {
	defer hold()()
	fd := k.next
	k.next++
	k.fds[fd] = f
	return fd
}

func (k *Kernel) get(fd int) *file {
	defer hold()()
	if k.dead {
		return nil
	}
	f := k.fds[fd]
	if f == nil || f.closed {
		return nil
	}
	return f
}

func (k *Kernel) open(p string, flags int, mode uint32) (int, error, bool) {
	if k.dead {
		return -1, syscall.EIO, true
	}
	if p == "" {
		return -1, syscall.ENOENT, true
	}
	ap := abs(p)
	if _, err := k.fault("open", ap); err != nil {
		return -1, err, true
	}
	defer hold()()
	switch ap {
	case "/dev/null":
		return k.newfd(&file{std: "null", name: ap, wr: true}), nil, true
	case "/dev/stdin":
		return k.newfd(&file{std: "stdin", name: "stdin"}), nil, true
	case "/dev/stdout":
		return k.newfd(&file{std: "stdout", name: "stdout", wr: true}), nil, true
	}
	n := k.nodes[ap]
	acc := flags & syscall.O_ACCMODE
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT, true
		}
		dir := k.nodes[path.Dir(ap)]
		if dir == nil {
			return -1, syscall.ENOENT, true
		}
		if !dir.Dir {
			return -1, syscall.ENOTDIR, true
		}
		k.ino++
		n = &Inode{Mode: mode & 0o777, ino: k.ino, Name: ap}
		k.nodes[ap] = n
	} else {
		if flags&syscall.O_EXCL != 0 && flags&syscall.O_CREAT != 0 {
			return -1, syscall.EEXIST, true
		}
		if n.Dir && acc != syscall.O_RDONLY {
			return -1, syscall.EISDIR, true
		}
	}
	if strings.HasSuffix(p, "/") && !n.Dir {
		return -1, syscall.ENOTDIR, true
	}
	if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
		n.Data = nil
	}
	k.Opened[ap]++
	k.OpenNow[ap]++
	return k.newfd(&file{node: n, flags: flags, wr: acc != syscall.O_RDONLY, name: ap}), nil, true
}

func (k *Kernel) readStdin(p []byte) int {
	max := len(p)
	if len(k.StdinChunks) > 0 {
		if c := k.StdinChunks[0]; c > 0 && c < max {
			max = c
		}
		k.StdinChunks = k.StdinChunks[1:]
	}
	n := copy(p[:max], k.Stdin[k.stdinOff:])
	k.stdinOff += n
	return n
}

func (k *Kernel) read(fd int, p []byte) (int, error) {
	f := k.get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	ft, err := k.fault("read", f.name)
	if err != nil {
		return -1, err
	}
	if f = k.get(fd); f == nil {
		return -1, syscall.EBADF
	}
	if ft != nil && ft.Kind == "short" && ft.Arg > 0 && ft.Arg < len(p) {
		k.e.Fired("read/short")
		p = p[:ft.Arg]
	}
	if f.pipe != nil {
		if f.wr {
			return -1, syscall.EBADF
		}
		return f.pipe.read(p)
	}
	defer hold()()
	switch {
	case f.std == "null":
		return 0, nil
	case f.std == "stdin":
		return k.readStdin(p), nil
	case f.std != "":
		return -1, syscall.EBADF
	case f.node.Dir:
		return -1, syscall.EISDIR
	}
	if f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if f.off >= int64(len(f.node.Data)) {
		return 0, nil
	}
	n := copy(p, f.node.Data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (k *Kernel) pread(fd int, p []byte, off int64) (int, error) {
	f := k.get(fd)
	if f == nil || f.node == nil {
		return -1, syscall.EBADF
	}
	if _, err := k.fault("read", f.name); err != nil {
		return -1, err
	}
	defer hold()()
	if off >= int64(len(f.node.Data)) {
		return 0, nil
	}
	return copy(p, f.node.Data[off:]), nil
}

func (k *Kernel) write(fd int, p []byte) (int, error) {
	f := k.get(fd)
	if f == nil || !f.wr {
		return -1, syscall.EBADF
	}
	ft, err := k.fault("write", f.name)
	if err != nil {
		return -1, err
	}
	if f = k.get(fd); f == nil {
		return -1, syscall.EBADF
	}
	if ft != nil && ft.Kind == "short" && ft.Arg >= 0 && ft.Arg < len(p) && len(p) > 1 {
		k.e.Fired("write/short")
		n := ft.Arg
		if n == 0 {
			n = 1
		}
		p = p[:n]
	}
	if f.pipe != nil {
		return f.pipe.write(p)
	}
	defer hold()()
	switch {
	case f.std == "null":
		return len(p), nil
	case f.std == "stdout":
		k.Stdout = append(k.Stdout, p...)
		return len(p), nil
	case f.std == "stderr":
		k.Stderr = append(k.Stderr, p...)
		return len(p), nil
	}
	if full := k.e.FaultFor("disk", "full"); full != nil && f.node != nil {
		room := int64(full.Arg) - k.Used
		if room < int64(len(p)) {
			k.e.Fired("disk/full")
			if room <= 0 {
				return -1, syscall.ENOSPC
			}
			p = p[:room]
		}
		k.Used += int64(len(p))
	}
	if f.flags&syscall.O_APPEND != 0 {
		f.off = int64(len(f.node.Data))
	}
	n := f.pwrite(p, f.off)
	f.off += int64(n)
	return n, nil
}

func (f *file) pwrite(p []byte, off int64) int {
	end := off + int64(len(p))
	for int64(len(f.node.Data)) < end {
		f.node.Data = append(f.node.Data, make([]byte, end-int64(len(f.node.Data)))...)
	}
	return copy(f.node.Data[off:], p)
}

func (k *Kernel) pwrite(fd int, p []byte, off int64) (int, error) {
	f := k.get(fd)
	if f == nil || f.node == nil || !f.wr {
		return -1, syscall.EBADF
	}
	if _, err := k.fault("write", f.name); err != nil {
		return -1, err
	}
	defer hold()()
	return f.pwrite(p, off), nil
}

func (k *Kernel) close(fd int) error {
	f := k.get(fd)
	if f == nil {
		return syscall.EBADF
	}
	ft, err := k.fault("close", f.name)
	if f.pipe != nil {
		defer f.pipe.closeEnd(f.wr)
	}
	defer hold()()
	f.closed = true
	if fd > 2 {
		delete(k.fds, fd)
	}
	if f.node != nil {
		k.OpenNow[f.name]--
	}
	if err != nil {
		// The kernel could not write the cached pages back: the tail is lost.
		if f.node != nil && f.wr && ft.Arg >= 0 && ft.Arg < len(f.node.Data) {
			f.node.Data = f.node.Data[:ft.Arg]
		}
		return err
	}
	return nil
}

func (k *Kernel) seek(fd int, off int64, whence int) (int64, error) {
	defer hold()()
	f := k.get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	if f.node == nil || f.node.Special == "fifo" {
		return -1, syscall.ESPIPE
	}
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.node.Data)) + off
	}
	return f.off, nil
}

func fill(st *syscall.Stat_t, n *Inode) {
	*st = syscall.Stat_t{Ino: n.ino, Nlink: 1, Size: int64(len(n.Data)), Dev: 7}
	if n.Dir {
		st.Mode = syscall.S_IFDIR | n.Mode
	} else {
		st.Mode = syscall.S_IFREG | n.Mode
		switch n.Special {
		case "fifo":
			st.Mode = syscall.S_IFIFO | n.Mode
			st.Size = 0
		case "proc":
			st.Size = 0
		case "sysfs":
			st.Size = 4096
		}
	}
}

func (k *Kernel) fstat(fd int, st *syscall.Stat_t) error {
	f := k.get(fd)
	if f == nil {
		return syscall.EBADF
	}
	if _, err := k.fault("fstat", f.name); err != nil {
		return err
	}
	defer hold()()
	if f.node != nil {
		fill(st, f.node)
		return nil
	}
	*st = syscall.Stat_t{Mode: syscall.S_IFIFO | 0o600, Nlink: 1}
	if f.std == "null" {
		st.Mode = syscall.S_IFCHR | 0o666
	}
	return nil
}

func (k *Kernel) stat(p string, st *syscall.Stat_t) (error, bool) {
	defer hold()()
	ap := abs(p)
	if k.Progs[ap] != nil {
		*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0o755, Nlink: 1, Size: 4096}
		return nil, true
	}
	n := k.nodes[ap]
	if n == nil {
		return syscall.ENOENT, true
	}
	fill(st, n)
	return nil, true
}

func (k *Kernel) access(p string, mode uint32) (error, bool) {
	defer hold()()
	ap := abs(p)
	if k.Progs[ap] != nil {
		return nil, true
	}
	n := k.nodes[ap]
	if n == nil {
		return syscall.ENOENT, true
	}
	if !n.Dir && mode&1 != 0 {
		return syscall.EACCES, true
	}
	return nil, true
}

func (k *Kernel) unlink(p string, flags int) (error, bool) {
	ap := abs(p)
	n := k.nodes[ap]
	if n == nil {
		return syscall.ENOENT, true
	}
	if _, err := k.fault("unlink", ap); err != nil {
		return err, true
	}
	defer hold()()
	delete(k.nodes, ap)
	return nil, true
}

func (k *Kernel) rename(from, to string) (error, bool) {
	if k.dead {
		return syscall.EIO, true
	}
	af, at := abs(from), abs(to)
	n := k.nodes[af]
	if n == nil {
		return syscall.ENOENT, true
	}
	if _, err := k.fault("rename", at); err != nil {
		return err, true
	}
	defer hold()()
	delete(k.nodes, af)
	k.nodes[at] = n
	return nil, true
}

func (k *Kernel) mkdir(p string) (error, bool) {
	defer hold()()
	ap := abs(p)
	if k.nodes[ap] != nil {
		return syscall.EEXIST, true
	}
	k.Mkdir(ap)
	return nil, true
}

func (k *Kernel) truncate(p string, n int64) (error, bool) {
	defer hold()()
	nd := k.nodes[abs(p)]
	if nd == nil {
		return syscall.ENOENT, true
	}
	return trunc(nd, n), true
}

func trunc(nd *Inode, n int64) error {
	for int64(len(nd.Data)) < n {
		nd.Data = append(nd.Data, 0)
	}
	nd.Data = nd.Data[:n]
	return nil
}

func (k *Kernel) ftruncate(fd int, n int64) error {
	defer hold()()
	f := k.get(fd)
	if f == nil || f.node == nil {
		return syscall.EBADF
	}
	return trunc(f.node, n)
}

func (k *Kernel) fsync(fd int) error {
	f := k.get(fd)
	if f == nil {
		return syscall.EBADF
	}
	_, err := k.fault("fsync", f.name)
	return err
}

func (k *Kernel) getdents(fd int, buf []byte) (int, error) { return 0, nil }

func (k *Kernel) dup(fd int) (int, error) {
	defer hold()()
	f := k.get(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	g := *f
	if g.pipe != nil {
		g.pipe.openEnd(g.wr)
	}
	return k.newfd(&g), nil
}

// exit ends the simulated process.
func (k *Kernel) exit(code int) {
	if !k.dead {
		k.dead = true
		k.ExitCode = code & 255
		close(k.Exited)
	}
	runtime.Goexit()
}

// Dead tells whether the simulated process has exited.
func (k *Kernel) Dead() bool { return k.dead }

// ---- pipes ------------------------------------------------------------------

type pipe struct {
	mu      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	cap     int
	readers int
	writers int
	grab    func() int
}

func (k *Kernel) mkpipe() (int, int, error) {
	if k.dead {
		return -1, -1, syscall.EIO
	}
	if _, err := k.fault("pipe", "pipe"); err != nil {
		return -1, -1, err
	}
	p := &pipe{cap: k.PipeCap, readers: 1, writers: 1}
	p.cond = sync.NewCond(&p.mu)
	r := k.newfd(&file{pipe: p, name: "pipe"})
	w := k.newfd(&file{pipe: p, name: "pipe", wr: true})
	return r, w, nil
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 {
		if p.writers == 0 {
			return 0, nil
		}
		p.cond.Wait()
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	p.cond.Broadcast()
	return n, nil
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for len(b) > 0 {
		if p.readers == 0 {
			if n > 0 {
				return n, nil
			}
			return -1, syscall.EPIPE
		}
		room := p.cap - len(p.buf)
		if room <= 0 {
			p.cond.Wait()
			continue
		}
		if room > len(b) {
			room = len(b)
		}
		p.buf = append(p.buf, b[:room]...)
		b = b[room:]
		n += room
		p.cond.Broadcast()
	}
	return n, nil
}

func (p *pipe) closeEnd(wr bool) {
	p.mu.Lock()
	if wr {
		p.writers--
	} else {
		p.readers--
	}
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *pipe) openEnd(wr bool) {
	p.mu.Lock()
	if wr {
		p.writers++
	} else {
		p.readers++
	}
	p.mu.Unlock()
}

// ---- processes ----------------------------------------------------------------

func (k *Kernel) start(name string, argv []string, dir string, env []string, fds []uintptr) (int, error) {
	if k.dead {
		return -1, syscall.EIO
	}
	if _, err := k.fault("fork", name); err != nil {
		return -1, err
	}
	defer hold()()
	prog := k.Progs[abs(name)]
	if prog == nil {
		return -1, syscall.ENOENT
	}
	if dir != "" {
		n := k.nodes[abs(dir)]
		if n == nil {
			return -1, syscall.ENOENT
		}
		if !n.Dir {
			return -1, syscall.ENOTDIR
		}
	}
	p := &Proc{K: k, Argv: argv, Dir: abs(dir), Env: env, kill: make(chan struct{})}
	if dir == "" {
		p.Dir = Cwd
	}
	child := func(i int) *file {
		if i >= len(fds) {
			return nil
		}
		f := k.fds[int(fds[i])]
		if f == nil {
			return nil
		}
		g := *f
		if g.pipe != nil {
			g.pipe.openEnd(g.wr)
		}
		return &g
	}
	p.in, p.out, p.err = child(0), child(1), child(2)
	k.pid++
	pid := k.pid
	pr := &proc{done: make(chan struct{}), kill: p.kill}
	k.procs[pid] = pr
	go func() {
		defer func() {
			for _, f := range []*file{p.in, p.out, p.err} {
				if f != nil && f.pipe != nil {
					f.pipe.closeEnd(f.wr)
				}
			}
			close(pr.done)
		}()
		code, sig := prog(p)
		if pr.killed && sig == 0 {
			sig = syscall.SIGKILL
		}
		if sig != 0 {
			pr.st = syscall.WaitStatus(uint32(sig))
		} else {
			pr.st = syscall.WaitStatus(uint32(code&0xff) << 8)
		}
	}()
	return pid, nil
}

func (k *Kernel) wait(pid int) (syscall.WaitStatus, error) {
	pr := k.procs[pid]
	if pr == nil || pr.reaped {
		return 0, syscall.ECHILD
	}
	<-pr.done
	runtime.SimYield()
	pr.reaped = true
	return pr.st, nil
}

func (k *Kernel) killProc(pid int, sig syscall.Signal) error {
	defer hold()()
	pr := k.procs[pid]
	if pr == nil || pr.reaped {
		return syscall.ESRCH
	}
	if sig != 0 && !pr.killed {
		pr.killed = true
		close(pr.kill)
	}
	return nil
}

// Unreaped lists children that were started and never waited for.
func (k *Kernel) Unreaped() (l []int) {
	defer hold()()
	for pid, p := range k.procs {
		if !p.reaped {
			l = append(l, pid)
		}
	}
	sort.Ints(l)
	return
}

// Killed tells whether the program was killed.
func (p *Proc) Killed() bool {
	select {
	case <-p.kill:
		return true
	default:
		return false
	}
}

// Sleep sleeps unless the program is killed.
func (p *Proc) Sleep(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-p.kill:
		return false
	case <-t.C:
		return true
	}
}

// Out writes to the program's standard output (1) or error (2).
func (p *Proc) Out(fd int, b []byte) error {
	f := p.out
	if fd == 2 {
		f = p.err
	}
	if f == nil {
		return syscall.EBADF
	}
	switch {
	case f.std == "stdout":
		p.K.Stdout = append(p.K.Stdout, b...)
	case f.std == "stderr":
		p.K.Stderr = append(p.K.Stderr, b...)
	case f.pipe != nil:
		if _, err := f.pipe.write(b); err != nil {
			return err
		}
	case f.node != nil:
		f.off += int64(f.pwrite(b, f.off))
	}
	return nil
}

var _ = fmt.Sprint
