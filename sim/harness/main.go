//go:build go1.22

// Command verifsim runs the deterministic simulation checks (see /verif/DESIGN.md).
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"

	"github.com/schemalex/schemalex/verifsim/core"
	_ "github.com/schemalex/schemalex/verifsim/props"
)

func main() {
	raceStart()
	rc := command()
	raceStop()
	os.Exit(rc)
}

func command() int {
	runtime.GOMAXPROCS(1)
	runtime.MemProfileRate = 0
	debug.SetMaxStack(64 << 20)
	os.Unsetenv("PWD")
	os.Setenv("PATH", "/usr/bin")
	os.Setenv("HOME", "/sim")
	os.Setenv("TZ", "UTC")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simbin check|worker|runcase|replay|selftest|run")
		return 2
	}
	switch os.Args[1] {
	case "check":
		return check(os.Args[2:])
	case "worker":
		return worker(os.Args[2:])
	case "gencase": // for development: prop, seed, run [, cold]
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		run, _ := strconv.ParseUint(os.Args[4], 10, 64)
		c := core.GenCase(os.Args[2], seed, run)
		c.Cold = len(os.Args) > 5
		json.NewEncoder(os.Stdout).Encode(c)
		return 0
	case "runcase":
		return runcase(os.Args[2:])
	case "replay":
		return replay(os.Args[2:])
	case "selftest":
		return selftest(os.Args[2:])
	case "run":
		return runone(os.Args[2:])
	}
	fmt.Fprintln(os.Stderr, "unknown subcommand")
	return 2
}
