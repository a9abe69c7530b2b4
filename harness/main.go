package main

import (
	"flag"
	"fmt"
	"os"
	"os/signal"
	"runtime/debug"
	"syscall"
	"time"
)

var checks = map[string]func(*Env){}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	mode := flag.String("mode", "plain", "build mode of this binary")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	n := flag.Int("nshards", 1, "shards")
	out := flag.String("out", "", "report file")
	prog := flag.String("progress", "", "progress file")
	tmp := flag.String("tmp", "", "scratch directory")
	only := flag.String("case", "", "run this case only")
	budget := flag.Float64("budget", 600, "seconds for the thorough tier")
	scale := flag.Float64("scale", 1, "factor on the number of cases")
	helper := flag.String("helper", "", "internal: run as a helper process")
	flag.Parse()
	if *helper != "" {
		runHelper(*helper, flag.Args())
		return
	}
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such check", *prop)
		os.Exit(3)
	}
	signal.Ignore(syscall.SIGXFSZ)
	debug.SetTraceback("all")
	e := &Env{Prop: *prop, Tier: *tier, Mode: *mode, Seed: *seed, Shard: *shard, NShards: *n, Only: *only,
		Tmp: *tmp, Deadline: time.Now().Add(time.Duration(*budget * float64(time.Second))),
		Counters: map[string]int64{}, Distinct: map[uint64]struct{}{}, maxViol: 3, Scale: *scale}
	if *tmp == "" {
		d, err := os.MkdirTemp("", "gv")
		if err != nil {
			panic(err)
		}
		e.Tmp = d
		defer os.RemoveAll(d)
	}
	if *prog != "" {
		p, err := os.Create(*prog)
		if err != nil {
			panic(err)
		}
		e.prog = p
	}
	f(e)
	if *out != "" {
		e.report(*out)
	}
	for _, v := range e.Viol {
		fmt.Fprintf(os.Stderr, "VIOL %s %s: %s\n%s\n", v.Prop, v.Case, v.Msg, v.Detail)
	}
}

var helpers = map[string]func(args []string){}

func runHelper(name string, args []string) {
	h := helpers[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no such helper", name)
		os.Exit(3)
	}
	h(args)
}
