// Command check runs the exploration of one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"verifharness/checks"
	"verifharness/kit"
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Duration("budget", 0, "stop exploring after this long")
	flag.IntVar(&kit.MaxViolations, "max", 5, "stop after this many violations")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	list := flag.Bool("list", false, "list the properties")
	flag.StringVar(&kit.Root, "root", "/verif", "directory of the framework")
	flag.StringVar(&kit.Scratch, "scratch", "", "scratch directory, made and removed by the caller")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	debug.SetGCPercent(400)
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	ck, ok := checks.All[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for property", *prop)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *budget == 0 {
		*budget = 480 * time.Second
		if *tier == "thorough" {
			*budget = 600 * time.Second
		}
	}
	c := kit.New(*prop, *tier, seed, *budget)
	c.Watch(ck.Level, 150*time.Second)
	if p, stack := kit.Guard(func() { ck.Run(c) }); p != nil {
		c.Violate("panic", fmt.Sprintf("panic outside a guarded call: %v", p), stack)
	}
	rc := c.Finish(ck.Level)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
