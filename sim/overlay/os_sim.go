// Simulation seam added to package os through a build overlay.

package os

import (
	"runtime"
	"syscall"
)

func simStartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	var fds []uintptr
	for _, f := range attr.Files {
		if f == nil {
			fds = append(fds, ^uintptr(0))
			continue
		}
		fds = append(fds, f.Fd())
	}
	env := attr.Env
	if env == nil {
		env = Environ()
	}
	pid, e := syscall.SimK.StartProc(name, argv, attr.Dir, env, fds)
	runtime.KeepAlive(attr)
	if e != nil {
		return nil, &PathError{Op: "fork/exec", Path: name, Err: e}
	}
	return newPIDProcess(pid), nil
}

func (p *Process) simWait() (*ProcessState, error) {
	switch p.pidStatus() {
	case statusReleased:
		return nil, syscall.EINVAL
	case statusDone:
		return nil, NewSyscallError("wait", syscall.ECHILD)
	}
	st, err := syscall.SimK.WaitProc(p.Pid)
	if err != nil {
		return nil, NewSyscallError("wait", err)
	}
	p.doRelease(statusDone)
	return &ProcessState{pid: p.Pid, status: st, rusage: &syscall.Rusage{}}, nil
}

func (p *Process) simSignal(sig Signal) error {
	if p.pidStatus() == statusDone {
		return ErrProcessDone
	}
	s, ok := sig.(syscall.Signal)
	if !ok {
		return ErrProcessDone
	}
	if err := syscall.SimK.KillProc(p.Pid, s); err == syscall.ESRCH {
		return ErrProcessDone
	} else {
		return err
	}
}
