package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"

	"github.com/mjarkk/yarql/verifsim"
)

func initSim() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(96 << 20)
	verifsim.Slow = slow
	initEnums()
}

func main() {
	if len(os.Args) < 2 {
		harnessFail("usage: sim run|replay|minimise|check")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	o := &runOpts{}
	fs.StringVar(&o.prop, "prop", "", "property")
	fs.StringVar(&o.tier, "tier", "quick", "tier")
	fs.Uint64Var(&o.seed, "seed", 1, "base seed")
	fs.IntVar(&o.from, "from", 0, "first run")
	fs.IntVar(&o.n, "n", 100, "number of runs")
	fs.IntVar(&o.shard, "shard", 0, "shard")
	fs.IntVar(&o.shards, "shards", 1, "shards")
	fs.StringVar(&o.out, "out", "", "result file")
	fs.Float64Var(&o.secs, "secs", 0, "stop starting runs after so many seconds")
	fs.BoolVar(&o.verbose, "v", false, "show what happens")
	fs.BoolVar(&o.all, "all", false, "do not stop at a violation")
	fs.StringVar(&o.dir, "dir", "", "evidence directory")
	fs.StringVar(&o.race, "race", "", "simulator built with the race detector")
	fs.StringVar(&o.raceLog, "racelog", "", "prefix of the race detector's log")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "run":
		initSim()
		os.Exit(cmdRun(o))
	case "draw":
		initSim()
		os.Stdout.Write(draw(o.prop, o.seed, o.from, o.tier).json())
	case "replay":
		initSim()
		os.Exit(cmdReplay(o, fs.Arg(0)))
	case "minimise":
		initSim()
		os.Exit(cmdMinimise(o, fs.Arg(0), fs.Arg(1)))
	case "check":
		os.Exit(cmdCheck(o))
	default:
		harnessFail("unknown command %q", os.Args[1])
	}
}

func cl(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var _ = fmt.Sprint
