// Package h is what every check shares: enumeration, sharding over processes, replay and result merging.
package h

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/res"
)

// Violation and Result are shared with the driver.
type (
	Violation = res.Violation
	Result    = res.Result
)

// Ctx is the context of one check process.
type Ctx struct {
	Prop     string
	Tier     string
	Scratch  string // private writable directory of this process
	Bin      string // directory with auxiliary binaries
	Shard    int
	Shards   int
	Deadline time.Time
	Replay   *Violation
	Res      Result
	history  *Violation // run everything up to this violation again
	again    bool       // it came back
	mu       sync.Mutex
	sigs     map[uint64]struct{}
	bad      int
	badTime  time.Duration           // spent on violations
	running  atomic.Pointer[running] // the case being run
}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

const maxViolations = 6

// Violate records a violation of the current case.
func (c *Ctx) Violate(group, key, detail string, cs interface{}) {
	b, _ := json.Marshal(cs)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.bad++
	for _, v := range c.Res.Violations {
		if v.Key == key {
			return
		}
	}
	if len(c.Res.Violations) < maxViolations {
		if len(detail) > 6000 {
			detail = detail[:6000] + "..."
		}
		c.Res.Violations = append(c.Res.Violations, Violation{Key: key, Detail: detail, Group: group, Case: b, Shard: c.Shard, Shards: c.Shards})
	}
	if c.history != nil && c.history.Key == key && bytes.Equal(c.history.Case, b) {
		c.again = true
	}
}

// Full reports whether enough violations were collected to stop.
func (c *Ctx) Full() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.again || len(c.Res.Violations) >= maxViolations || c.bad >= 40 || c.badTime > 30*time.Second
}

// Note adds a remark to the evidence.
func (c *Ctx) Note(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	for _, n := range c.Res.Notes {
		if n == s {
			return
		}
	}
	if len(c.Res.Notes) < 40 {
		c.Res.Notes = append(c.Res.Notes, s)
	}
}

// Bound records a bound of the exploration.
func (c *Ctx) Bound(f string, a ...interface{}) {
	c.Res.Bounds = append(c.Res.Bounds, fmt.Sprintf(f, a...))
}

// Assume records an assumption.
func (c *Ctx) Assume(s ...string) { c.Res.Assumptions = append(c.Res.Assumptions, s...) }

// Outcome is what one case produced.
type Outcome struct {
	Class       string // coarse class, counted in the evidence
	Sig         string // what makes the case distinct; "" means trivial
	States      int
	Transitions int
	Sample      string
	Bad         string // non-empty: violation
	Key         string // violation key; default: group + Bad up to the first newline
}

func (c *Ctx) record(group string, o Outcome, cs interface{}) {
	c.mu.Lock()
	r := &c.Res
	r.Evaluations++
	r.Validated++
	if o.States == 0 {
		o.States = 1
	}
	if o.Transitions == 0 {
		o.Transitions = 1
	}
	r.States += o.States
	r.Transitions += o.Transitions
	r.Groups[group]++
	if o.Class != "" {
		r.Outcomes[group+": "+o.Class]++
	}
	if o.Sig != "" {
		hh := fnv.New64a()
		hh.Write([]byte(group))
		hh.Write([]byte(o.Sig))
		c.sigs[hh.Sum64()] = struct{}{}
	}
	if o.Sample != "" && len(r.Samples) < 6 {
		k := r.Outcomes[group+": "+o.Class]
		if k == 1 {
			r.Samples = append(r.Samples, group+": "+o.Sample)
		}
	}
	c.mu.Unlock()
	if o.Bad != "" {
		k := o.Key
		if k == "" {
			k = group + ": " + strings.SplitN(o.Bad, "\n", 2)[0]
		}
		c.Violate(group, k, o.Bad, cs)
	}
}

// Enumerate runs every case of gen (those of this shard). In replay mode it runs the replayed case only.
// A panic escaping run is a violation of the case.
func Enumerate[T any](c *Ctx, group string, gen func(yield func(T) bool), run func(T) Outcome) {
	one := func(cs T) {
		c.running.Store(&running{time.Now(), group, cs})
		defer c.running.Store(nil)
		begin := time.Now()
		o := func() (o Outcome) {
			defer func() {
				if r := recover(); r != nil {
					o = Outcome{Class: "panic", Bad: fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
				}
			}()
			return run(cs)
		}()
		c.record(group, o, cs)
		if o.Bad != "" {
			c.mu.Lock()
			c.badTime += time.Since(begin)
			c.mu.Unlock()
		}
	}
	if c.Replay != nil {
		if c.Replay.Group != group {
			return
		}
		var cs T
		if err := json.Unmarshal(c.Replay.Case, &cs); err != nil {
			panic(err)
		}
		one(cs)
		return
	}
	i, n := -1, 0
	gen(func(cs T) bool {
		i++
		if i%c.Shards != c.Shard {
			return true
		}
		if c.Full() || time.Now().After(c.Deadline) {
			if !c.Full() {
				c.Res.Exhaustive = false
				c.Note("%s: internal deadline hit after %d cases of shard %d", group, n, c.Shard)
			}
			return false
		}
		n++
		one(cs)
		return true
	})
}

// Serial runs f in shard 0 only.
func (c *Ctx) Serial() bool { return c.Shard == 0 }

// List turns a slice into a generator.
func List[T any](xs []T) func(func(T) bool) {
	return func(y func(T) bool) {
		for _, x := range xs {
			if !y(x) {
				return
			}
		}
	}
}

var args []string

// Main is the entry point of a check binary: check -out F -scratch D -tier T [-replay F].
func Main(prop string, shards int, f func(*Ctx)) {
	if args == nil {
		args = os.Args
	}
	arg := map[string]string{}
	for i := 1; i+1 < len(args); i += 2 {
		arg[strings.TrimPrefix(args[i], "-")] = args[i+1]
	}
	c := &Ctx{Prop: prop, Tier: arg["tier"], Scratch: arg["scratch"], Bin: arg["bin"], Shards: 1}
	secs := 240
	if c.Tier == "thorough" {
		secs = 1500
	}
	if v, err := strconv.Atoi(arg["seconds"]); err == nil {
		secs = v
	}
	c.Deadline = time.Now().Add(time.Duration(secs) * time.Second)
	c.Res.Outcomes, c.Res.Groups, c.sigs = map[string]int{}, map[string]int{}, map[uint64]struct{}{}
	c.Res.Exhaustive = true
	out := arg["out"]
	switch {
	case arg["replay"] != "":
		go c.watch(out)
		b, err := os.ReadFile(arg["replay"])
		if err != nil {
			panic(err)
		}
		c.Replay = &Violation{}
		if err := json.Unmarshal(b, c.Replay); err != nil {
			panic(err)
		}
		f(c)
	case arg["shard"] != "":
		c.Shard, _ = strconv.Atoi(arg["shard"])
		c.Shards, _ = strconv.Atoi(arg["shards"])
		if f := arg["history"]; f != "" {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			c.history = &Violation{}
			if err := json.Unmarshal(b, c.history); err != nil {
				panic(err)
			}
		}
		go c.watch(out)
		f(c)
	case shards <= 1:
		go c.watch(out)
		f(c)
	default:
		c.fork(shards, secs)
	}
	c.finish(out)
}

type running struct {
	since time.Time
	group string
	cs    interface{}
}

// watch ends the exploration with a violation when one case does not end: code under test that loops forever
// or waits for something that never comes.
func (c *Ctx) watch(out string) {
	for {
		time.Sleep(time.Second)
		r := c.running.Load()
		if r == nil || time.Since(r.since) < caseLimit {
			continue
		}
		b := make([]byte, 1<<18)
		b = b[:runtime.Stack(b, true)]
		if c.running.Load() != r {
			continue
		}
		if len(b) > 5000 {
			b = b[:5000]
		}
		c.mu.Lock()
		c.Res.Exhaustive = false
		c.mu.Unlock()
		c.Violate(r.group, "a case does not end", fmt.Sprintf("a case does not end within %v\n%+v\n%s", caseLimit, r.cs, b), r.cs)
		c.mu.Lock()
		c.finish(out)
		os.Exit(0)
	}
}

const caseLimit = 45 * time.Second

func (c *Ctx) finish(out string) {
	c.Res.Distinct = len(c.sigs)
	b, _ := json.Marshal(c.Res)
	if c.Shards > 1 {
		sb := make([]byte, 0, 8*len(c.sigs))
		for k := range c.sigs {
			sb = binary.LittleEndian.AppendUint64(sb, k)
		}
		os.WriteFile(out+".sigs", sb, 0o644)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}

func (c *Ctx) fork(n, secs int) {
	var wg sync.WaitGroup
	rs := make([]*Result, n)
	errs := make([]string, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(c.Scratch, fmt.Sprintf("s%d", i))
			os.MkdirAll(dir, 0o755)
			of := filepath.Join(dir, "out.json")
			cmd := exec.Command(os.Args[0], "-tier", c.Tier, "-scratch", dir, "-bin", c.Bin, "-out", of, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-seconds", fmt.Sprint(secs))
			cmd.Dir = dir
			var eb bytes.Buffer
			cmd.Stdout = &eb
			cmd.Stderr = &eb
			err := cmd.Run()
			b, rerr := os.ReadFile(of)
			if err != nil || rerr != nil {
				s := eb.String()
				if len(s) > 5000 {
					s = s[:2500] + "\n...\n" + s[len(s)-2500:]
				}
				errs[i] = fmt.Sprintf("%v\n%s", err, s)
				return
			}
			r := &Result{}
			if err := json.Unmarshal(b, r); err != nil {
				errs[i] = err.Error()
				return
			}
			sb, _ := os.ReadFile(of + ".sigs")
			c.mu.Lock()
			for ; len(sb) >= 8; sb = sb[8:] {
				c.sigs[binary.LittleEndian.Uint64(sb)] = struct{}{}
			}
			c.mu.Unlock()
			rs[i] = r
		}(i)
	}
	wg.Wait()
	for i, r := range rs {
		if r == nil {
			c.Res.Exhaustive = false
			e := errs[i]
			if strings.Contains(e, "signal: killed") || strings.Contains(e, "vsched: ") || strings.Contains(e, "stuck: a controlled thread") {
				c.Note("shard %d gave no result: %s", i, e)
				continue
			}
			// the code under test brought the process down (fatal error, os.Exit, log.Fatal, panic in a goroutine)
			c.Res.Violations = append(c.Res.Violations, Violation{Key: "process terminated", Detail: e, Group: "process", NoReplay: true})
			continue
		}
		c.merge(r)
	}
	sort.SliceStable(c.Res.Violations, func(a, b int) bool { return c.Res.Violations[a].Key < c.Res.Violations[b].Key })
}

func (c *Ctx) merge(r *Result) { res.Merge(&c.Res, r) }
