// Command simcli runs simulated cases of the command's properties. Every
// simulated run of the command is a process of its own: the command's main
// package is compiled in (as verif/climain, made by cmd/instrument from the
// tree under test) with the simulated operating system in place of os.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verif/climain"
	"verif/harness"
	"verif/simos"
	"verif/simrt"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == harness.ChildArg {
		child()
		return
	}
	harness.Main(harness.Post)
}

func child() {
	var c harness.Child
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := &c.World
	os.Args = w.Args
	simos.Boot(w)
	flag.CommandLine.Init(w.Args[0], flag.ExitOnError)
	flag.CommandLine.SetOutput(simos.Stderr)
	o := simrt.Run(c.Sched, func() {
		defer func() {
			if p := recover(); p != nil {
				simos.Died(fmt.Sprint(p))
			}
		}()
		climain.Main()
		simos.Exit(0)
	})
	if o.Panic != "" {
		simos.Died(o.Panic)
	}
	simos.Finish()
	c.Steps, c.Overrun, c.Deadlock, c.Clock = o.Steps, o.Overrun, o.Deadlock, simrt.TotalElapsed()
	if err := json.NewEncoder(os.Stdout).Encode(c); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}
