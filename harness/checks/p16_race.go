//go:build sched

package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"verifharness/kit"
	"verifharness/schd"
)

// raceOut is what a process with the race detector has found.
type raceOut struct {
	Runs    int
	Key     string
	What    string
	Replay  any
	Blocked int
}

// p16Race runs the pairs under the race detector, in processes of their own.
func p16Race(c *kit.Ctx) {
	const shards = 8
	c.Parallel(shards, func(i int) {
		cmd := exec.Command(kit.Scratch+"/check-race", "-prop", "P16", "-tier", c.Tier, "-scratch", kit.Scratch, "-budget", "300s")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_P16=race:%d/%d", i, shards), "GOMAXPROCS=2",
			fmt.Sprintf("GORACE=log_path=%s/race%d halt_on_error=0 exitcode=0 atexit_sleep_ms=0", kit.Scratch, i))
		cmd.Stderr = os.Stderr
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		s := bufio.NewScanner(pipe)
		s.Buffer(nil, 1<<26)
		for s.Scan() {
			var o raceOut
			if err := json.Unmarshal(s.Bytes(), &o); err != nil {
				panic(fmt.Sprintf("%v: %.200s", err, s.Text()))
			}
			c.Evals.Add(int64(o.Runs))
			c.Add("executions_under_the_race_detector", int64(o.Runs))
			if o.Key != "" {
				c.Violate(o.Key, o.What, o.Replay)
			}
		}
		if err := cmd.Wait(); err != nil {
			panic(fmt.Sprintf("race detector process: %v", err))
		}
	})
	c.Bound("the same pairs under the race detector, one after the other and the second within the first (at the middle; thorough: at 22 points), switching without synchronisation that the detector sees")
}

func p16RaceShard(c *kit.Ctx, duos []duo, shard string) {
	var i, n int
	fmt.Sscanf(shard, "%d/%d", &i, &n)
	out := json.NewEncoder(os.Stdout)
	log := fmt.Sprintf("%s/race%d.%d", kit.Scratch, i, os.Getpid())
	seen := 0
	points := map[*cop]int{}
	for k := i; k < len(duos); k += n {
		p := duos[k]
		if p.known != "" {
			continue
		}
		o := raceOut{}
		if _, ok := points[p.a]; !ok {
			doc := cloneDoc(p.a.doc)
			points[p.a] = schd.Run(true, nil, func() string { return p.a.do(doc) }).Points[0]
		}
		// one after the other, and the second within the first: state that the two hand on to each
		// other in an orderly way, such as pools, hides races of the former from the detector
		at := []int{-1}
		if p.shared {
			at = append(at, 0)
		}
		for _, parts := range kit.Pick(c, []int{2}, []int{2, 3, 5, 7, 11}) {
			for i := 1; i < parts; i++ {
				if k := points[p.a] * i / parts; k > 0 {
					at = append(at, k)
				}
			}
		}
		for _, steps := range at {
			o.Runs++
			r := p16Both(p, steps)
			if r.Blocked {
				o.Blocked++
			}
			if e := raceErrors(); e > seen {
				seen = e
				text, _ := os.ReadFile(log)
				report := string(text)
				if j := strings.LastIndex(report, "WARNING: DATA RACE"); j >= 0 {
					report = report[j:]
				}
				o.Key, o.What, o.Replay = "race/"+raceKey(report), fmt.Sprintf("data race in %s (switch after %d)", p.name(), steps), report
				break
			}
		}
		out.Encode(o)
		if c.Expired() {
			return
		}
	}
}

func p16Both(p duo, steps int) schd.Result {
	docA, docB := cloneDoc(p.a.doc), cloneDoc(p.b.doc)
	if p.shared {
		docB = docA
	}
	return schd.Run(true, []schd.Segment{{Thread: 0, Points: steps}, {Thread: 1, Points: -1}}, func() string { return p.a.do(docA) }, func() string { return p.b.do(docB) })
}

// raceKey names the places of the two accesses.
func raceKey(report string) string {
	var at []string
	lines := strings.Split(report, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
			for _, m := range lines[i+1:] {
				if strings.Contains(m, "tools-golang/") {
					m = strings.TrimSpace(m)
					m, _, _ = strings.Cut(m, "(")
					at = append(at, m[strings.LastIndex(m, "/")+1:])
					break
				}
				if strings.TrimSpace(m) == "" {
					break
				}
			}
		}
	}
	return strings.Join(at, "+")
}
