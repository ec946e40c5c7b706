// Simulation seam added to package syscall through a build overlay (see
// /verif/sim/overlay/gen.py). Calls made by simulated goroutines on simulated
// descriptors, and on paths the simulated kernel owns, go to SimK.

package syscall

import "runtime"

// SimFdBase is the first descriptor number of the simulated kernel.
// Descriptors 0, 1 and 2 of simulated goroutines are simulated too.
const SimFdBase = 1 << 24

type SimKernel struct {
	Open      func(path string, flags int, mode uint32) (int, error, bool)
	Read      func(fd int, p []byte) (int, error)
	Write     func(fd int, p []byte) (int, error)
	Pread     func(fd int, p []byte, off int64) (int, error)
	Pwrite    func(fd int, p []byte, off int64) (int, error)
	Close     func(fd int) error
	Seek      func(fd int, off int64, whence int) (int64, error)
	Fstat     func(fd int, st *Stat_t) error
	Stat      func(path string, st *Stat_t) (error, bool)
	Unlink    func(path string, flags int) (error, bool)
	Rename    func(from, to string) (error, bool)
	Mkdir     func(path string) (error, bool)
	Access    func(path string, mode uint32) (error, bool)
	Chmod     func(path string, mode uint32) (error, bool)
	Fchmod    func(fd int, mode uint32) error
	Truncate  func(path string, n int64) (error, bool)
	Ftruncate func(fd int, n int64) error
	Fsync     func(fd int) error
	Getdents  func(fd int, buf []byte) (int, error)
	Pipe      func() (r, w int, err error)
	Dup       func(fd int) (int, error)
	Getcwd    func() string
	Chdir     func(path string) (error, bool)
	StartProc func(name string, argv []string, dir string, env []string, fds []uintptr) (pid int, err error)
	WaitProc  func(pid int) (WaitStatus, error)
	KillProc  func(pid int, sig Signal) error
	Exit      func(code int)
}

// SimK is the simulated kernel, nil outside simulations.
var SimK *SimKernel

// SimPidBase is the first simulated process number.
const SimPidBase = 1 << 26

func simFd(fd int) bool {
	// Never for goroutines outside the simulation (finalizers, say).
	return SimK != nil && (fd >= SimFdBase || (fd >= 0 && fd <= 2)) && runtime.SimInBubble()
}

func simPath() bool { return SimK != nil && runtime.SimInBubble() }

// SimIs reports whether simulated system calls are to be used by the caller.
func SimIs() bool { return simPath() }
