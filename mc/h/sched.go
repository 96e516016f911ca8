package h

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"verif/vsched"
)

// Scenario is one closed concurrent harness. Make builds fresh objects and returns the threads, the final
// observation (run after all threads are done) and the judge of the whole execution: it returns an outcome
// class and "" or what is wrong.
type Scenario struct {
	Name     string
	Bound    int // preemption bound
	Thorough int // preemption bound of the thorough tier (0: Bound+1)
	Race     int // preemption bound under the happens-before monitor (0: 1)
	Make     func() (bodies []vsched.Body, final func(), judge func() (class, bad string))
}

type schedCase struct {
	Scenario string
	Choices  []int
}

// Schedules explores every scenario up to its preemption bound. The alternatives of the deviation-free
// execution are dealt to the shards.
func Schedules(c *Ctx, visitCap int, scs []Scenario) {
	if vsched.RaceEnabled {
		runtime.GOMAXPROCS(1)
	}
	one := func(sc Scenario, prefix []int) (*vsched.Exec, string, string) {
		races := vsched.RaceErrors()
		bodies, final, judge := sc.Make()
		e := vsched.Run(prefix, visitCap, bodies, final)
		if e.Diverged != "" {
			panic("vsched: " + e.Diverged)
		}
		if f := e.Failure(); f != "" {
			return e, "failure", f
		}
		if n := vsched.RaceErrors(); n > races {
			return e, "data race", "data race\n" + raceReport()
		}
		if vsched.RaceEnabled {
			return e, "race-free", ""
		}
		cl, bad := judge()
		return e, cl, bad
	}
	full := func(e *vsched.Exec) []int {
		ch := make([]int, len(e.Points))
		for i, p := range e.Points {
			ch[i] = p.Chosen
		}
		return ch
	}
	each := func(sc Scenario) {
		defer func() {
			// code whose executions cannot be repeated: keep what was found so far
			if x := recover(); x != nil {
				m := fmt.Sprint(x)
				if !strings.HasPrefix(m, "vsched: ") && !strings.HasPrefix(m, "stuck: ") || c.Replay != nil {
					panic(x)
				}
				c.Note("%s: exploration abandoned: %s", sc.Name, m)
				c.mu.Lock()
				c.Res.Exhaustive = false
				if strings.Contains(m, "stuck: ") {
					c.bad = 1 << 20
				}
				c.mu.Unlock()
			}
		}()
		group := "schedules/" + sc.Name
		bound := sc.Bound
		if c.Thorough() {
			bound = sc.Thorough
			if bound == 0 {
				bound = sc.Bound + 1
			}
		}
		if vsched.RaceEnabled {
			group = "races/" + sc.Name
			if bound = sc.Race; bound == 0 {
				bound = 1
			}
			if c.Thorough() {
				bound++
			}
		}
		if c.Replay != nil {
			if c.Replay.Group != group {
				return
			}
			var cs schedCase
			if err := json.Unmarshal(c.Replay.Case, &cs); err != nil {
				panic(err)
			}
			_, cl, bad := one(sc, cs.Choices)
			c.record(group, Outcome{Class: cl, Bad: bad, Key: schedKey(group, bad)}, cs)
			return
		}
		if !vsched.RaceEnabled {
			// determinism: the deviation-free execution twice, after one that creates what is created once
			one(sc, nil)
			e1, c1, b1 := one(sc, nil)
			e2, c2, b2 := one(sc, full(e1))
			if len(e1.Points) != len(e2.Points) || c1 != c2 || (b1 == "") != (b2 == "") {
				panic(fmt.Sprintf("vsched: %s: replay of one schedule differs: %d/%d points, %q/%q, %q/%q", sc.Name, len(e1.Points), len(e2.Points), c1, c2, b1, b2))
			}
		}
		if vsched.RaceEnabled {
			// what is created once
			e, cl, bad := one(sc, nil)
			c.record(group, Outcome{Class: cl, Sig: sc.Name + "|" + cl, States: len(e.Points), Transitions: e.Steps, Bad: bad, Key: schedKey(group, bad)}, schedCase{sc.Name, full(e)})
			if bad != "" {
				return
			}
		}
		shard, shards := c.Shard, c.Shards
		st := vsched.Explore(bound, c.Deadline, shard, shards, func(prefix []int) (*vsched.Exec, bool) {
			e, cl, bad := one(sc, prefix)
			if len(prefix) == 0 && shard != 0 {
				return e, true
			}
			sig := sc.Name + "|" + cl
			sample := ""
			if cl != "" {
				sample = fmt.Sprintf("deviations at %v -> %s", devs(e), cl)
			}
			c.record(group, Outcome{Class: cl, Sig: sig, States: len(e.Points), Transitions: e.Steps, Sample: sample, Bad: bad, Key: schedKey(group, bad)}, schedCase{sc.Name, full(e)})
			return e, bad == "" && !c.Full()
		})
		if !st.Complete {
			c.Res.Exhaustive = false
			if time.Now().After(c.Deadline) {
				c.Note("%s: exploration cut short by the internal deadline", sc.Name)
			}
		}
		if c.Shard == 0 {
			c.Bound("%s: %d preemptions, longest execution %d scheduling decisions", group, bound, st.MaxPoints)
		}
	}
	for _, sc := range scs {
		if c.Full() || (vsched.RaceEnabled && len(c.Res.Violations) > 0) {
			break
		}
		each(sc)
	}
}

// raceReport returns what the monitor wrote about the latest race.
func raceReport() string {
	m, _ := filepath.Glob(os.Getenv("VERIF_RACELOG") + ".*")
	out := ""
	for _, f := range m {
		b, _ := os.ReadFile(f)
		out += string(b)
	}
	if len(out) > 4000 {
		out = out[len(out)-4000:]
	}
	return out
}

func schedKey(name, bad string) string {
	return name + ": " + strings.SplitN(bad, "\n", 2)[0]
}

func devs(e *vsched.Exec) []string {
	var d []string
	for i, p := range e.Points {
		if p.Chosen != 0 {
			d = append(d, fmt.Sprintf("%d:%d", i, p.Chosen))
		}
	}
	return d
}
