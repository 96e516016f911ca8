// C12: stored metrics and page templates survive restarts, crashes and failing saves. Every file-system call
// of whole server lives is enumerated: the process is killed there (every write also torn at every byte), or
// the machine stops and unsynced data is gone, or the call fails; then the server is started again, shows its
// counts, goes on counting, saves, and is started once more.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/h"
)

// Case is a history with one or two cuts.
type Case struct {
	Hist   string
	Cut    Cut
	Second *Cut
}

type hist struct {
	name   string
	stored string
	base   h.Counts
	phases [][]int
	term   bool
	noTLS  bool
	link   bool // the metrics file is a symbolic link
	seeded bool // templates exist
}

const before = `{"TotalRequests": 3, "Paths": {"200": {"h1/a.txt": 2}, "404": {"h9/x": 1}}}`

var beforeCounts = h.Counts{Total: 3, Paths: map[string]int{"200 h1/a.txt": 2, "404 h9/x": 1}}

var hists = []hist{
	{name: "first start, two saves", phases: [][]int{{0}, {1}}},
	{name: "stored metrics, two saves", stored: before, base: beforeCounts, phases: [][]int{{0, 1, 2}, {3, 4}}},
	{name: "stored metrics, an idle period, a save", stored: before, base: beforeCounts, phases: [][]int{{}, {2, 3}}},
	{name: "stop", stored: before, base: beforeCounts, phases: [][]int{{0, 1}}, term: true},
	{name: "first start and stop", phases: [][]int{{4, 0}}, term: true},
	{name: "metrics not collected, stop", stored: before, base: beforeCounts, phases: [][]int{{0, 1}}, term: true, noTLS: true},
	{name: "stored behind a link", stored: before, base: beforeCounts, phases: [][]int{{0}, {1}}, link: true},
	{name: "stored metrics without paths", stored: `{"TotalRequests": 0, "Paths": null}`, phases: [][]int{{1, 0}}},
}

func find(n string) hist {
	for _, x := range hists {
		if x.name == n {
			return x
		}
	}
	panic(n)
}

type op struct {
	name string
	n    int
	path string
}

// result of a session
type life struct {
	code    int
	started bool
	ops     []op
	opPhase []int // 2*p: during phase p before its save begins, 2*p+1: from then on; -1 during the start
	show    *h.Counts
	lines   []string
	errorOK bool
	end     bool
	crashed bool
	timeout bool
	out     string
}

var self = os.Args[0]

func play(s Session) life {
	s.Log = filepath.Join(s.Dir, fmt.Sprintf("session-%d.log", time.Now().UnixNano()))
	f := h.PutJSON(s.Log+".json", s)
	cmd := exec.Command(self, "session", f)
	cmd.Dir = s.Dir
	out, err := os.Create(s.Log + ".out")
	if err != nil {
		panic(err)
	}
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var l life
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		l.timeout = true
	}
	out.Close()
	l.code = cmd.ProcessState.ExitCode()
	b, _ := os.ReadFile(s.Log)
	ob, _ := os.ReadFile(s.Log + ".out")
	l.out = string(ob)
	phase := -1
	for _, ln := range strings.Split(string(b), "\n") {
		if ln == "" {
			continue
		}
		l.lines = append(l.lines, ln)
		w := strings.Fields(ln)
		switch w[0] {
		case "op":
			o := op{name: w[2], path: w[3]}
			fmt.Sscan(w[4], &o.n)
			l.ops = append(l.ops, o)
			l.opPhase = append(l.opPhase, phase)
		case "started":
			l.started = true
		case "phase":
			fmt.Sscan(w[1], &phase)
			phase *= 2
		case "saving":
			fmt.Sscan(w[1], &phase)
			phase = 2*phase + 1
		case "show":
			l.show = &h.Counts{}
			json.Unmarshal([]byte(strings.TrimPrefix(ln, "show ")), l.show)
		case "error":
			l.errorOK = ln == "error 404 true"
		case "end":
			l.end = true
		case "crash":
			l.crashed = true
		}
	}
	os.Remove(s.Log)
	os.Remove(s.Log + ".json")
	os.Remove(s.Log + ".out")
	return l
}

func prepare(ctx *h.Ctx, hs hist) string {
	dir := ctx.Dir("d")
	core := h.MetricsCore(h.Core(dir), dir+"/data")
	core["Port"] = "0"
	core["LogLevel"], core["LogOut"] = 3, "stderr"
	core["FileDir"] = dir + "/files/"
	core["TLS"] = h.M{"Enabled": !hs.noTLS, "TLSCert": dir + "/c.pem", "TLSKey": dir + "/k.pem"}
	certs(dir)
	os.MkdirAll(dir+"/data", 0o755)
	os.MkdirAll(dir+"/files", 0o755)
	out := dir + "/data/metrics.json"
	if hs.link {
		h.Put(dir+"/data/real.json", hs.stored)
		if err := os.Symlink("real.json", out); err != nil {
			panic(err)
		}
	} else if hs.stored != "" {
		h.Put(out, hs.stored)
	}
	h.Put(dir+"/www/a.txt", "A")
	h.PutJSON(dir+"/main.json", h.M{"Core": core, "Guard": h.Generous(), "Serve": h.M{"ServeDir": dir + "/www", "ServeIndex": "a.txt", "Methods": h.M{"/": "GET"}}})
	return dir
}

func tls(dir string, hs hist) {
	if !hs.noTLS {
		return
	}
	// show what is stored: from now on metrics are collected
	b, _ := os.ReadFile(dir + "/main.json")
	h.Put(dir+"/main.json", strings.Replace(string(b), `"Enabled": false`, `"Enabled": true`, 1))
}

func names(ph []int) (k []string) {
	for _, q := range ph {
		k = append(k, keys[q])
	}
	return
}

// allowed counts after a session from base that was cut at operation index at (len(ops) = after the end).
func allowed(hs hist, base h.Counts, phases [][]int, phase int, ended bool) []h.Counts {
	// saved[i]: the counts the i-th save stores
	cur := base.Add()
	saves := []h.Counts{cur}
	if !hs.noTLS {
		for _, ph := range phases {
			cur = cur.Add(names(ph)...)
			saves = append(saves, cur)
		}
	}
	if ended {
		return saves[len(saves)-1:]
	}
	if hs.noTLS || phase < 0 {
		return saves[:1]
	}
	p := phase / 2
	if phase%2 == 0 {
		return saves[p : p+1]
	}
	return saves[p : p+2]
}

func in(c *h.Counts, set []h.Counts) int {
	for i, s := range set {
		if c.String() == s.String() {
			return i
		}
	}
	return -1
}

func copyTree(dir, to string) {
	if o, err := exec.Command("cp", "-a", dir+"/.", to).CombinedOutput(); err != nil {
		panic(string(o))
	}
	b, _ := os.ReadFile(to + "/main.json")
	h.Put(to+"/main.json", strings.ReplaceAll(string(b), dir, to))
}

func text(set []h.Counts) string {
	var s []string
	for _, c := range set {
		s = append(s, c.String())
	}
	return strings.Join(s, " or ")
}

func disk(dir string) string {
	o, _ := exec.Command("sh", "-c", "cd "+dir+" && for f in data/* files/templates/*; do echo \"== $f\"; head -c 600 $f; echo; done").CombinedOutput()
	return string(o)
}

// look starts the server and checks what it shows.
func look(ctx *h.Ctx, dir string, hs hist, set []h.Counts, what string) (*h.Counts, string) {
	d2 := ctx.Dir("show")
	defer ctx.Remove(d2)
	copyTree(dir, d2)
	tls(d2, hs)
	state := disk(d2)
	l := play(Session{Dir: d2, Show: true, Cut: Cut{At: -1, Fault: -1}})
	if !l.started || l.show == nil {
		return nil, fmt.Sprintf("the server cannot be started again\n%s\nexit %d\n%s\non disk:\n%s", what, l.code, l.out, state)
	}
	if !l.errorOK {
		return nil, fmt.Sprintf("the page templates are broken\n%s\n%v\non disk:\n%s", what, l.lines, state)
	}
	if in(l.show, set) < 0 {
		return nil, fmt.Sprintf("stored metrics are lost or wrong\n%s\nshown    %s\nexpected %s\non disk:\n%s", what, l.show, text(set), state)
	}
	return l.show, ""
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		hs := find(c.Hist)
		dir := prepare(ctx, hs)
		defer ctx.Remove(dir)
		base := hs.base.Add()
		l := play(Session{Dir: dir, Phases: hs.phases, Term: hs.term, Cut: c.Cut})
		what := fmt.Sprintf("%s, %s", hs.name, describe(c.Cut, l))
		if l.timeout || l.code == 3 {
			return h.Outcome{Bad: "the server does not stop\n" + what}
		}
		var set []h.Counts
		class := ""
		switch {
		case c.Cut.At >= 0:
			if !l.crashed {
				return h.Outcome{Class: "cut not reached", Sig: fmt.Sprint(c)}
			}
			ph := -1
			if c.Cut.At < len(l.ops) {
				ph = l.opPhase[c.Cut.At]
			}
			set = allowed(hs, base, hs.phases, ph, c.Cut.At >= len(l.ops))
			if c.Cut.At < len(l.ops) {
				class = "cut at " + l.ops[c.Cut.At].name
			} else {
				class = "cut after the end"
			}
		case c.Cut.Fault >= 0:
			class = "failing call"
			if c.Cut.Fault < len(l.ops) {
				class = "failing " + l.ops[c.Cut.Fault].name
			}
			if !l.started { // it refused to start; a later start must work
				set = allowed(hs, base, hs.phases, -1, false)
				break
			}
			if !l.end && !(hs.term && l.code == 1) {
				return h.Outcome{Bad: "a failing save brings the server down\n" + what + "\n" + l.out}
			}
			set = allowed(hs, base, hs.phases, 0, true)
			if c.Cut.Fault < len(l.opPhase) {
				last := 2*(len(hs.phases)-1) + 1
				if hs.term || l.opPhase[c.Cut.Fault] == last {
					set = allowed(hs, base, hs.phases, last, false)
				}
			}
		default:
			class = "no fault"
			if !l.end && !(hs.term && l.code == 1) {
				return h.Outcome{Bad: "a session does not end properly\n" + what + fmt.Sprintf("\nexit %d\n%s", l.code, l.out)}
			}
			set = allowed(hs, base, hs.phases, 0, true)
		}
		tls(dir, hs)
		hs.noTLS = false
		shown, bad := look(ctx, dir, hs, set, what)
		if bad != "" {
			return h.Outcome{Class: class, Bad: bad}
		}
		// life goes on
		second := [][]int{{1, 2}, {0}}
		cut2 := Cut{At: -1, Fault: -1}
		if c.Second != nil {
			cut2 = *c.Second
		}
		l2 := play(Session{Dir: dir, Phases: second, Cut: cut2})
		what2 := what + "; then a second life, " + describe(cut2, l2)
		switch {
		case cut2.At >= 0 && l2.crashed:
			ph := -1
			if cut2.At < len(l2.ops) {
				ph = l2.opPhase[cut2.At]
			}
			set = allowed(hs, *shown, second, ph, cut2.At >= len(l2.ops))
		case !l2.end:
			return h.Outcome{Class: class, Bad: "the server does not run after the cut\n" + what2 + "\n" + l2.out}
		default:
			set = allowed(hs, *shown, second, 0, true)
		}
		if _, bad = look(ctx, dir, hs, set, what2); bad != "" {
			return h.Outcome{Class: class, Bad: bad}
		}
		return h.Outcome{Class: class, Sig: fmt.Sprint(c.Hist, c.Cut, cut2), States: len(l.ops) + len(l2.ops) + 1, Transitions: len(l.ops) + len(l2.ops), Sample: what2 + " -> " + shown.String()}
	}
}

// Long is a life of many saves from a stored total.
type Long struct {
	Base, N int
	Grow    bool
}

func long(ctx *h.Ctx) func(Long) h.Outcome {
	return func(c Long) h.Outcome {
		hs := hist{stored: fmt.Sprintf(`{"TotalRequests": %d, "Paths": {"200": {"h1/a.txt": %d}}}`, c.Base, c.Base)}
		want := h.Counts{Total: c.Base, Paths: map[string]int{"200 h1/a.txt": c.Base}}
		dir := prepare(ctx, hs)
		defer ctx.Remove(dir)
		l := play(Session{Dir: dir, Cut: Cut{At: -1, Fault: -1}, Count: c.N, Grow: c.Grow})
		what := fmt.Sprintf("a life of %d requests and saves from a stored total of %d", c.N, c.Base)
		for _, ln := range l.lines {
			if strings.HasPrefix(ln, "missing") {
				return h.Outcome{Class: "not saved", Bad: "a periodic save does not store the counts\n" + what + "\n" + ln}
			}
		}
		if l.timeout || !l.end {
			return h.Outcome{Bad: "a long life does not end properly\n" + what + "\n" + l.out}
		}
		for i := 0; i < c.N; i++ {
			_, k := step(i, c.Grow)
			want.Total++
			want.Paths[k]++
		}
		if _, bad := look(ctx, dir, hs, []h.Counts{want}, what); bad != "" {
			return h.Outcome{Bad: bad}
		}
		return h.Outcome{Class: "every save complete", Sig: fmt.Sprint(c), States: c.N + 1, Transitions: c.N, Sample: what}
	}
}

// Quiet is a life of idle days.
type Quiet struct {
	Stored bool
	Idle   []int
}

func quiet(ctx *h.Ctx) func(Quiet) h.Outcome {
	return func(c Quiet) h.Outcome {
		hs := hist{}
		want := h.Counts{Paths: map[string]int{}}
		if c.Stored {
			hs.stored, want = before, beforeCounts.Add()
		}
		dir := prepare(ctx, hs)
		defer ctx.Remove(dir)
		l := play(Session{Dir: dir, Cut: Cut{At: -1, Fault: -1}, Idle: c.Idle})
		what := fmt.Sprintf("a life with idle periods of %v days, each followed by one request", c.Idle)
		for _, ln := range l.lines {
			if strings.HasPrefix(ln, "missing") {
				return h.Outcome{Class: "not saved", Bad: "a periodic save does not store the counts\n" + what + "\n" + ln}
			}
		}
		if l.timeout || !l.end {
			return h.Outcome{Bad: "a quiet life does not end properly\n" + what + "\n" + l.out}
		}
		for range c.Idle {
			want = want.Add(keys[0])
		}
		if _, bad := look(ctx, dir, hs, []h.Counts{want}, what); bad != "" {
			return h.Outcome{Bad: bad}
		}
		return h.Outcome{Class: "saved within a day", Sig: fmt.Sprint(c), States: len(c.Idle) + 1, Transitions: len(c.Idle), Sample: what}
	}
}

func describe(c Cut, l life) string {
	at := func(k int) string {
		if k < len(l.ops) {
			return fmt.Sprintf("call %d (%s %s)", k, l.ops[k].name, l.ops[k].path)
		}
		return "the end"
	}
	switch {
	case c.At >= 0 && c.Power != "":
		return fmt.Sprintf("power loss (unsynced data: %s) at %s after %d bytes", c.Power, at(c.At), c.Torn)
	case c.At >= 0:
		return fmt.Sprintf("killed at %s after %d bytes", at(c.At), c.Torn)
	case c.Fault >= 0:
		return fmt.Sprintf("%s fails with %v", at(c.Fault), syscall.Errno(c.Errno))
	}
	return "no fault"
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "session" {
		sessionMain(os.Args[2])
		return
	}
	h.Main("C12", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one server life with one cut or failing file-system call, the restart, a second life (also cut, in some cases) and another restart; distinct = different histories and cuts"
		gen := func(y func(Case) bool) {
			for _, hs := range hists {
				if !y(Case{Hist: hs.name, Cut: Cut{At: -1, Fault: -1}}) {
					return
				}
				dir := prepare(ctx, hs)
				l := play(Session{Dir: dir, Phases: hs.phases, Term: hs.term, Cut: Cut{At: -1, Fault: -1}})
				ctx.Remove(dir)
				for k := 0; k <= len(l.ops); k++ {
					if hs.term && k == len(l.ops) {
						break
					}
					var torn []int
					name := ""
					if k < len(l.ops) {
						name = l.ops[k].name
						n := l.ops[k].n
						step := 1
						if n > 500 {
							step = n/8 + 1
							if ctx.Thorough() {
								step = n/60 + 1
							}
						} else if n > 40 && !ctx.Thorough() {
							step = 5
						}
						for t := 1; t < n; t += step {
							torn = append(torn, t)
						}
						if n > 1 {
							torn = append(torn, n-1)
						}
					}
					for _, t := range append([]int{0}, torn...) {
						if !y(Case{Hist: hs.name, Cut: Cut{At: k, Torn: t, Fault: -1}}) {
							return
						}
					}
					for _, pw := range []string{"lost", "half"} {
						for _, t := range []int{0, 1, 100} {
							if t > 0 && (name != "write" && name != "pwrite" || t >= l.ops[k].n) {
								continue
							}
							if !y(Case{Hist: hs.name, Cut: Cut{At: k, Torn: t, Power: pw, Fault: -1}}) {
								return
							}
						}
					}
					if k == len(l.ops) {
						continue
					}
					for _, e := range []syscall.Errno{syscall.EIO, syscall.ENOSPC} {
						if name == "close" && e == syscall.ENOSPC {
							continue
						}
						if !y(Case{Hist: hs.name, Cut: Cut{At: -1, Fault: k, Errno: int(e)}}) {
							return
						}
					}
				}
			}
		}
		h.Enumerate(ctx, "one cut", gen, run(ctx))
		h.Enumerate(ctx, "two cuts", func(y func(Case) bool) {
			for _, hs := range hists[:2] {
				dir := prepare(ctx, hs)
				l := play(Session{Dir: dir, Phases: hs.phases, Cut: Cut{At: -1, Fault: -1}})
				ctx.Remove(dir)
				for k := range l.ops {
					for _, t := range []int{0, l.ops[k].n / 2} {
						if t == 0 || l.ops[k].n > 0 {
							for j := 0; j <= 2*len(l.ops); j++ {
								for _, pw := range []string{"", "lost"} {
									if !y(Case{hs.name, Cut{At: k, Torn: t, Fault: -1, Power: pw}, &Cut{At: j, Fault: -1, Power: pw}}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, run(ctx))
		n := 300
		if ctx.Thorough() {
			n = 3000
		}
		h.Enumerate(ctx, "every save of long lives", func(y func(Long) bool) {
			for _, b := range []int{0, 250, 1 << 10, 1<<15 - 150, 1<<16 - 150, 1<<31 - 150, 1<<32 - 150, 1<<53 - 150} {
				for _, g := range []bool{false, true} {
					if !y(Long{b, n, g}) {
						return
					}
				}
			}
		}, long(ctx))
		days := []int{0, 1, 3, 15}
		if ctx.Thorough() {
			days = append(days, 70, 400)
		}
		h.Enumerate(ctx, "idle days", func(y func(Quiet) bool) {
			for _, st := range []bool{false, true} {
				for _, a := range days {
					for _, b := range days {
						if !y(Quiet{st, []int{a, b}}) {
							return
						}
					}
				}
			}
		}, quiet(ctx))
		ctx.Assume("a killed process leaves what its completed calls wrote, and any prefix of the write in progress", "a stopped machine keeps directory changes in order and synced data; of unsynced data nothing or half is kept", "a cut during the start may leave the server unstarted; the next start has to work")
	})
}
