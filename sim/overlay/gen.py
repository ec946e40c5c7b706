#!/usr/bin/env python3
"""Generate the simulator's build overlay.

usage: gen.py GOROOT REPO BUILDDIR HARNESSDIR

Patches a handful of Go standard library files (anchored replacements that fail
loudly when an anchor is missing), maps the harness packages to virtual
directories below REPO/verifsim, and makes importable copies of the commands
in REPO/cmd. Nothing is written below GOROOT or REPO.
"""
import glob, json, os, re, subprocess, sys

goroot, repo, build, harness = sys.argv[1:5]
src = os.path.join(goroot, "src")
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(build, "overlay")
os.makedirs(out, exist_ok=True)
replace = {}


def die(msg):
    print("gen.py: " + msg, file=sys.stderr)
    sys.exit(2)


def put(target, text):
    f = os.path.join(out, target.strip("/").replace("/", "__"))
    old = None
    if os.path.exists(f):
        old = open(f, encoding="utf-8").read()
    if old != text:
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(text)
    replace[target] = f


class Patch:
    def __init__(self, rel):
        self.path = os.path.join(src, rel)
        self.text = open(self.path, encoding="utf-8").read()

    def sub(self, anchor, new, count=1):
        n = self.text.count(anchor)
        if n != count:
            die("%s: anchor occurs %d times, want %d:\n%s" % (self.path, n, count, anchor))
        self.text = self.text.replace(anchor, new)
        return self

    def after(self, anchor, extra):
        return self.sub(anchor, anchor + extra)

    def func(self, sig_re, prelude):
        """insert prelude at the start of the body of the function whose header matches"""
        m = list(re.finditer(r"(?m)^func " + sig_re + r"[^\n]*\{\n", self.text))
        if len(m) != 1:
            die("%s: function %s found %d times" % (self.path, sig_re, len(m)))
        e = m[0].end()
        self.text = self.text[:e] + prelude + self.text[e:]
        return self

    def imp(self, anchor, pkg):
        return self.sub(anchor, anchor + '\n\t"%s"' % pkg)

    def done(self):
        put(self.path, self.text)


def add(rel, name):
    put(os.path.join(src, rel), open(os.path.join(here, name)).read())


# ---- runtime -------------------------------------------------------------
add("runtime/zz_sim.go", "runtime_sim.go")

p = Patch("runtime/proc.go")
p.func(r"runqput\(pp \*p, gp \*g, next bool\) ", "\tif Sim.On && gp.bubble != nil {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n")
p.sub("""		t := pp.runqtail
		if t == h {
			return nil, false
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
""", """		t := pp.runqtail
		if t == h {
			if Sim.On {
				return simPick(), false
			}
			return nil, false
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
""")
p.sub("""		runqput(pp, gp, true)
	} else {
		lock(&sched.lock)
		globrunqput(gp)
		unlock(&sched.lock)
	}

	if mainStarted {
		wakep()
	}

	schedule()
}
""", """		runqput(pp, gp, true)
	} else if Sim.On && gp.bubble != nil {
		simEnqueue(gp)
	} else {
		lock(&sched.lock)
		globrunqput(gp)
		unlock(&sched.lock)
	}

	if mainStarted {
		wakep()
	}

	schedule()
}
""")
p.func(r"preemptone\(pp \*p\) bool ", "\tif Sim.On {\n\t\treturn false\n\t}\n")
p.func(r"retake\(now int64\) uint32 ", "\tif Sim.On {\n\t\treturn 0\n\t}\n")
p.func(r"newproc\(fn \*funcval\) ", "\tsimYield()\n")
# a g from the free list is a new goroutine: it gets a priority of its own
p.sub("\tgp.bubble = nil\n\tgp.fipsOnlyBypass = false\n", "\tgp.bubble = nil\n\tgp.simGen = 0\n\tgp.fipsOnlyBypass = false\n")
p.done()

p = Patch("runtime/runtime2.go")
p.sub("	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simPrio uint32\n	simGen  uint32\n")
p.sub("	waitReasonSyncCondWait:          true,\n	waitReasonSynctestWaitGroupWait: true,\n",
      "	waitReasonSyncCondWait:          true,\n	waitReasonSemacquire:            true,\n	waitReasonSyncMutexLock:         true,\n"
      "	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSyncWaitGroupWait:     true,\n"
      "	waitReasonSelect:                false,\n	waitReasonSynctestWaitGroupWait: true,\n")
p.done()

p = Patch("runtime/chan.go")
p.func(r"makechan\(t \*chantype, size int\) \*hchan ", "\tsimYield()\n")
p.func(r"chansend\(c \*hchan, ep unsafe\.Pointer, block bool, callerpc uintptr\) bool ", "\tsimYield()\n")
p.func(r"chanrecv\(c \*hchan, ep unsafe\.Pointer, block bool\) \(selected, received bool\) ", "\tsimYield()\n")
p.func(r"closechan\(c \*hchan\) ", "\tsimYield()\n")
p.done()

p = Patch("runtime/select.go")
p.sub("		j := cheaprandn(uint32(norder + 1))\n", "		j := simSelect(uint32(norder + 1))\n")
p.func(r"selectgo\(cas0 \*scase, order0 \*uint16, pc0 \*uintptr, nsends, nrecvs int, block bool\) \(int, bool\) ", "\tsimYield()\n")
p.done()

p = Patch("runtime/time.go")
p.sub("			t.rand = cheaprand()\n", "			if Sim.On {\n				t.rand = uint32(simMix(&Sim.RandRng))\n			} else {\n				t.rand = cheaprand()\n			}\n")
p.done()

p = Patch("runtime/sema.go")
p.sub("	s.ticket = cheaprand() | 1\n", "	if Sim.On {\n		s.ticket = uint32(simMix(&Sim.RandRng)) | 1\n	} else {\n		s.ticket = cheaprand() | 1\n	}\n")
p.func(r"internal_sync_nanotime\(\) int64 ", "\tif b := getg().bubble; Sim.On && b != nil {\n\t\treturn b.now\n\t}\n")
p.done()

p = Patch("runtime/rand.go")
p.func(r"rand\(\) uint64 ", "\tif x, ok := simRand64(); ok {\n\t\treturn x\n\t}\n")
p.sub("func maps_rand() uint64 {\n	return rand()\n}", "func maps_rand() uint64 {\n	return simMapRand()\n}")
p.done()

p = Patch("runtime/iface.go")
# type assertion and switch caches are refilled (an allocation) at random
p.sub("	if cheaprand()&1023 != 0 {\n", "	if Sim.On || cheaprand()&1023 != 0 {\n", 2)
p.done()

p = Patch("runtime/malloc.go")
p.func(r"mallocgc\(size uintptr, typ \*_type, needzero bool\) unsafe\.Pointer ", "\tif Sim.On {\n\t\tsimMalloc(size)\n\t}\n")
p.done()

p = Patch("internal/runtime/maps/runtime_alg.go")
p.sub("		hashkey[i] = uintptr(bootstrapRand())\n	}\n", "		hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(2*i+1))\n	}\n	if hashRandomBytes > 0 {\n		return // simulation: one fixed, portable hash function\n	}\n")
p.done()

# a switch while a map is being written: other users of the map must not get at it
for f, n in (("map", 3), ("runtime", 1), ("runtime_fast32", 2), ("runtime_fast64", 2), ("runtime_faststr", None)):
    p = Patch("internal/runtime/maps/%s.go" % f)
    old = "	m.writing ^= 1 // toggle, see comment on writing\n"
    p.sub(old, old + "	simMapYield()\n", n or p.text.count(old))
    if f == "map":
        p.text += "\n//go:linkname simMapYield\nfunc simMapYield()\n"
    p.done()

# ---- sync ----------------------------------------------------------------
p = Patch("internal/sync/mutex.go")
p.imp('	"internal/race"', "runtime")
p.func(r"\(m \*Mutex\) Lock\(\) ", "\truntime.SimYield()\n")
p.func(r"\(m \*Mutex\) TryLock\(\) bool ", "\truntime.SimYield()\n")
p.func(r"\(m \*Mutex\) Unlock\(\) ", "\tdefer runtime.SimYield()\n")
p.done()
p = Patch("sync/rwmutex.go")
if '"runtime"' not in p.text:
    p.imp('	"internal/race"', "runtime")
p.func(r"\(rw \*RWMutex\) RLock\(\) ", "\truntime.SimYield()\n")
p.func(r"\(rw \*RWMutex\) Lock\(\) ", "\truntime.SimYield()\n")
p.func(r"\(rw \*RWMutex\) RUnlock\(\) ", "\tdefer runtime.SimYield()\n")
p.done()
p = Patch("sync/pool.go")
p.sub("	New func() any\n}\n", "	New func() any\n\n	simGen   uint32 // what the pool holds in a simulation\n	simStack []any\n}\n")
p.func(r"\(p \*Pool\) Put\(x any\) ", """	if runtime.SimInBubble() {
		runtime.SimYield()
		if race.Enabled && x != nil {
			if runtime.SimRand()&256 == 0 { // a pool orders those who share it
				return
			}
			race.ReleaseMerge((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
		}
		runtime.SimHold()
		if g := runtime.SimGen(); p.simGen != g {
			p.simGen, p.simStack = g, nil
		}
		if x != nil && len(p.simStack) < 64 {
			p.simStack = append(p.simStack, x)
		}
		runtime.SimUnhold()
		return
	}
""")
p.func(r"\(p \*Pool\) Get\(\) any ", """	if runtime.SimInBubble() {
		runtime.SimYield()
		runtime.SimHold()
		var x any
		if n := len(p.simStack); n > 0 && p.simGen == runtime.SimGen() {
			x, p.simStack[n-1] = p.simStack[n-1], nil
			p.simStack = p.simStack[:n-1]
		}
		runtime.SimUnhold()
		if race.Enabled && x != nil {
			race.Acquire((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
		}
		if x == nil && p.New != nil {
			x = p.New()
		}
		return x
	}
""")
p.done()

# ---- randomness ----------------------------------------------------------
p = Patch("crypto/internal/sysrand/rand.go")
p.imp('	"os"', "runtime")
p.func(r"Read\(b \[\]byte\) ", "\tif runtime.SimInBubble() {\n\t\tfor i := range b {\n\t\t\tb[i] = byte(runtime.SimRand() >> 24)\n\t\t}\n\t\treturn\n\t}\n")
p.done()

p = Patch("crypto/tls/cache.go")
# the cache holds weak pointers: what it gives depends on the garbage collector
p.func(r"\(wcc \*weakCertCache\) newCert\(der \[\]byte\) \(\*x509\.Certificate, error\) ", "\tif runtime.SimInBubble() {\n\t\treturn x509.ParseCertificate(der)\n\t}\n")
p.done()

p = Patch("crypto/internal/fips140cache/cache.go")
p.sub("	p := weak.Make(k)\n	if cached", "	if runtime.SimInBubble() {\n		return new()\n	}\n	p := weak.Make(k)\n	if cached")
p.done()

# ---- syscall -------------------------------------------------------------
add("syscall/zz_sim.go", "syscall_sim.go")
p = Patch("syscall/zsyscall_linux_amd64.go")
FD = "\tif simFd(%s) {\n\t\t%s\n\t}\n"
PATH = "\tif simPath() {\n\t\tif %s, ok := SimK.%s; ok {\n\t\t\treturn %s\n\t\t}\n\t}\n"
p.func(r"openat\(", PATH % ("fd, err", "Open(path, flags, mode)", "fd, err"))
p.func(r"read\(fd int", FD % ("fd", "return SimK.Read(fd, p)"))
p.func(r"write\(fd int", FD % ("fd", "return SimK.Write(fd, p)"))
p.func(r"pread\(fd int", FD % ("fd", "return SimK.Pread(fd, p, offset)"))
p.func(r"pwrite\(fd int", FD % ("fd", "return SimK.Pwrite(fd, p, offset)"))
p.func(r"Close\(fd int", FD % ("fd", "return SimK.Close(fd)"))
p.func(r"Seek\(fd int", FD % ("fd", "return SimK.Seek(fd, offset, whence)"))
p.func(r"Fstat\(fd int", FD % ("fd", "return SimK.Fstat(fd, stat)"))
p.func(r"Ftruncate\(fd int", FD % ("fd", "return SimK.Ftruncate(fd, length)"))
p.func(r"Fsync\(fd int", FD % ("fd", "return SimK.Fsync(fd)"))
p.func(r"Fdatasync\(fd int", FD % ("fd", "return SimK.Fsync(fd)"))
p.func(r"Fchmod\(fd int", FD % ("fd", "return SimK.Fchmod(fd, mode)"))
p.func(r"fcntl\(fd int", FD % ("fd", "if cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD {\n\t\t\treturn SimK.Dup(fd)\n\t\t}\n\t\treturn -1, EINVAL"))
p.func(r"Dup\(oldfd int", FD % ("oldfd", "return SimK.Dup(oldfd)"))
p.func(r"Getdents\(fd int", FD % ("fd", "return SimK.Getdents(fd, buf)"))
p.func(r"Truncate\(path string", PATH % ("err", "Truncate(path, length)", "err"))
p.func(r"fstatat\(fd int", PATH % ("err", "Stat(path, stat)", "err"))
p.func(r"unlinkat\(dirfd int", PATH % ("err", "Unlink(path, flags)", "err"))
p.func(r"Renameat\(olddirfd int", PATH % ("err", "Rename(oldpath, newpath)", "err"))
p.func(r"Mkdirat\(dirfd int", PATH % ("err", "Mkdir(path)", "err"))
p.func(r"faccessat\(dirfd int", PATH % ("err", "Access(path, mode)", "err"))
p.func(r"faccessat2\(dirfd int", PATH % ("err", "Access(path, mode)", "err"))
p.func(r"fchmodat\(dirfd int", PATH % ("err", "Chmod(path, mode)", "err"))
p.func(r"Chdir\(path string", PATH % ("err", "Chdir(path)", "err"))
p.func(r"sendfile\(outfd int", "\tif simFd(outfd) || simFd(infd) {\n\t\treturn 0, EINVAL\n\t}\n")
p.func(r"Splice\(rfd int", "\tif simFd(rfd) || simFd(wfd) {\n\t\treturn 0, EINVAL\n\t}\n")
p.func(r"Getcwd\(buf \[\]byte", "\tif simPath() {\n\t\tn = copy(buf, SimK.Getcwd())\n\t\tif n < len(buf) {\n\t\t\tbuf[n] = 0\n\t\t\tn++\n\t\t}\n\t\treturn n, nil\n\t}\n")
p.done()
p = Patch("syscall/syscall_linux.go")
p.func(r"Pipe2\(p \[\]int, flags int\) error ", "\tif simPath() {\n\t\tr, w, err := SimK.Pipe()\n\t\tif err == nil {\n\t\t\tp[0], p[1] = r, w\n\t\t}\n\t\treturn err\n\t}\n")
p.done()
p = Patch("internal/syscall/unix/copy_file_range_unix.go")
p.func(r"CopyFileRange\(", "\tif syscall.SimIs() {\n\t\treturn 0, syscall.ENOSYS\n\t}\n")
p.done()
p = Patch("internal/syscall/unix/fcntl_unix.go")
p.func(r"Fcntl\(fd int", "\tif fd >= syscall.SimFdBase || (fd >= 0 && fd <= 2 && syscall.SimIs()) {\n\t\treturn -1, syscall.EINVAL\n\t}\n")
p.done()
p = Patch("internal/syscall/unix/eaccess.go")
p.func(r"Eaccess\(path string, mode uint32\) error ", "\tif syscall.SimIs() {\n\t\tif err, ok := syscall.SimK.Access(path, mode); ok {\n\t\t\treturn err\n\t\t}\n\t}\n")
p.done()

# ---- os, net -------------------------------------------------------------
add("os/zz_sim.go", "os_sim.go")
p = Patch("os/exec_posix.go")
p.sub("	attrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n", "	if syscall.SimIs() {\n		return simStartProcess(name, argv, attr)\n	}\n	attrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n")
p.done()
p = Patch("os/exec_unix.go")
p.func(r"\(p \*Process\) wait\(\) ", "\tif p.Pid >= syscall.SimPidBase {\n\t\treturn p.simWait()\n\t}\n")
p.func(r"\(p \*Process\) signal\(sig Signal\) error ", "\tif p.Pid >= syscall.SimPidBase {\n\t\treturn p.simSignal(sig)\n\t}\n")
p.done()
p = Patch("os/file_unix.go")
p.func(r"newFile\(fd int, name string, kind newFileKind, nonBlocking bool\) ", "\tif syscall.SimIs() {\n\t\tkind, nonBlocking = kindNoPoll, false\n\t}\n")
p.sub("	runtime.SetFinalizer(f.file, (*file).close)\n", "	if !syscall.SimIs() {\n		runtime.SetFinalizer(f.file, (*file).close)\n	}\n")
p.func(r"epipecheck\(file \*File, e error\) ", "\tif syscall.SimIs() {\n\t\tif e == syscall.EPIPE && file.stdoutOrErr {\n\t\t\tsyscall.SimK.Exit(141)\n\t\t}\n\t\treturn\n\t}\n")
p.done()
p = Patch("os/proc.go")
p.func(r"Exit\(code int\) ", "\tif syscall.SimIs() {\n\t\tsyscall.SimK.Exit(code)\n\t}\n")
p.done()
add("net/zz_sim.go", "net_sim.go")
p = Patch("net/dial.go")
p.func(r"\(d \*Dialer\) DialContext\(ctx context\.Context, network, address string\) \(Conn, error\) ",
       "\tif SimDial != nil && syscall.SimIs() {\n\t\tif d.Timeout > 0 || !d.Deadline.IsZero() {\n\t\t\tif dl := d.deadline(ctx, time.Now()); !dl.IsZero() {\n\t\t\t\tsub, cancel := context.WithDeadline(ctx, dl)\n\t\t\t\tdefer cancel()\n\t\t\t\tctx = sub\n\t\t\t}\n\t\t}\n\t\treturn SimDial(ctx, network, address)\n\t}\n")
p.done()

# ---- harness packages ------------------------------------------------------
vroot = os.path.join(repo, "verifsim")
for root, _, files in os.walk(harness):
    for f in sorted(files):
        if f.endswith(".go"):
            full = os.path.join(root, f)
            replace[os.path.join(vroot, os.path.relpath(full, harness))] = full

# ---- schemalex itself, and the commands as importable packages -------------
pairs = []


def instr(text_src, target):
    f = os.path.join(out, "instr", target.strip("/").replace("/", "__"))
    pairs.append((text_src, f))
    replace[target] = f


for root, dirs, files in os.walk(repo):
    dirs[:] = sorted(d for d in dirs if d not in (".git", "testdata", "vendor", "verifsim") and not d.startswith("_"))
    rel = os.path.relpath(root, repo)
    if os.path.dirname(rel) == "cmd":
        continue
    for f in sorted(files):
        if f.endswith(".go") and not f.endswith("_test.go"):
            full = os.path.join(root, f)
            instr(full, full)

os.makedirs(os.path.join(out, "cmdsrc"), exist_ok=True)
for cmd in ("schemalex", "schemadiff", "schemalint"):
    files = [f for f in glob.glob(os.path.join(repo, "cmd", cmd, "*.go")) if not f.endswith("_test.go")]
    if not files:
        die("no source for command " + cmd)
    for f in sorted(files):
        text = open(f, encoding="utf-8").read()
        text, n = re.subn(r"(?m)^package main\b", "package %scmd" % cmd, text)
        if n == 0:
            continue  # another package clause (a build-ignored file, say)
        tmp = os.path.join(out, "cmdsrc", cmd + "__" + os.path.basename(f))
        with open(tmp, "w", encoding="utf-8") as fh:
            fh.write(text)
        instr(tmp, os.path.join(vroot, "cmd" + cmd, os.path.basename(f)))
    put(os.path.join(vroot, "cmd" + cmd, "zz_sim_main.go"),
        "package %scmd\n\n// Main runs the command.\nfunc Main() { main() }\n" % cmd)

r = subprocess.run([os.path.join(build, "instr")], input="".join("%s\t%s\n" % p for p in pairs), text=True)
if r.returncode != 0:
    die("instrumentation failed")

with open(os.path.join(build, "overlay.json"), "w") as fh:
    json.dump({"Replace": replace}, fh, indent=1, sort_keys=True)
