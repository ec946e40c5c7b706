//go:build go1.22

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/schemalex/schemalex/verifsim/core"
)

// raceWorkers is the number of workers that run the build with the race
// detector. It decides from the order of synchronisation in the simulated
// execution whether two accesses of one run could have been simultaneous.
var raceWorkers = map[string]uint64{"C01": 1, "C03": 2, "C06": 1, "C14": 1, "C15": 2}

// raceExe is that build, if it was made.
func raceExe() string {
	exe, _ := os.Executable()
	p := filepath.Join(filepath.Dir(exe), "simrace")
	if raceBuild {
		return exe
	}
	if _, err := os.Stat(p); err != nil {
		return ""
	}
	return p
}

// raceLog is where the detector writes what it found.
var raceLog string
var raceRead int64

// raceStart begins again with the detector set up, which reads its
// environment before main.
func raceStart() {
	if !raceBuild {
		return
	}
	const name = "VERIF_RACE_LOG"
	if os.Getenv(name) == "" {
		p := filepath.Join(os.TempDir(), "verifrace")
		exe, err := os.Executable()
		if err == nil {
			env := append(os.Environ(), name+"="+p, "GORACE=log_path="+p+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0 history_size=4")
			err = syscall.Exec(exe, os.Args, env)
		}
		panic(err)
	}
	raceLog = fmt.Sprintf("%s.%d", os.Getenv(name), os.Getpid())
	os.Remove(raceLog)
}

func raceStop() {
	if raceBuild {
		os.Remove(raceLog)
	}
}

// races gives the first report since the last call that is about two accesses
// by schemalex itself.
func races() string {
	if !raceBuild {
		return ""
	}
	f, err := os.Open(raceLog)
	if err != nil {
		return ""
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() <= raceRead {
		return ""
	}
	b := make([]byte, fi.Size()-raceRead)
	f.ReadAt(b, raceRead)
	raceRead = fi.Size()
	if raceRead > 64<<20 {
		os.Truncate(raceLog, 0)
	}
	for _, rep := range strings.Split(string(b), "==================\n") {
		if strings.HasPrefix(rep, "WARNING: DATA RACE") && bothOurs(rep) {
			return tail2(strings.Split(rep, "\n"), 60)
		}
	}
	return ""
}

// bothOurs tells whether the first frame of this module in each of the two
// stacks of a report is schemalex's, not the harness's.
func bothOurs(rep string) bool {
	const m = "  github.com/schemalex/schemalex"
	n := 0
	for _, part := range strings.Split(rep, "\n\n") {
		l := strings.Split(part, "\n")
		if l[0] == "WARNING: DATA RACE" {
			l = l[1:]
		}
		if len(l) == 0 || !(strings.Contains(l[0], " at 0x") && strings.Contains(l[0], " by ")) {
			continue
		}
		ok := false
		for _, f := range l[1:] {
			if strings.HasPrefix(f, m) {
				r := f[len(m):]
				ok = !strings.HasPrefix(r, "/verifsim/") || strings.HasPrefix(r, "/verifsim/cmd")
				break
			}
		}
		if !ok {
			return false
		}
		n++
	}
	return n == 2
}

// execute runs a case and takes a data race for a violation.
func execute(c *core.Case) (*core.Outcome, *core.Env) {
	races()
	o, e := core.Run(c)
	if r := races(); r != "" && o.Violation == nil {
		o.Violation = &core.Violation{Class: "data-race", Msg: r}
	}
	return o, e
}
