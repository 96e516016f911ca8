// C11: metrics count every answered request exactly once, whatever the order, the stored state they start
// from and the interleaving, and the page that shows them cannot be abused.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
	"verif/ref"
	"verif/vsched"
)

type req struct {
	method, target, host, auth string
	remote                     string
	key                        string // "status host/path" it must be counted as
	header                     string
}

var reqs = []req{
	{"GET", "/a.txt", "h1", "", "", "200 h1/a.txt", ""},
	{"GET", "/none", "h1", "", "", "404 h1/none", ""},
	{"POST", "/a.txt", "h1:80", "", "", "405 h1/a.txt", ""},
	{"GET", "/metrics", "h1", "", "", "401 h1/metrics", ""},
	{"GET", "/metrics", "h1", h.MetricsAuth, "", "200 h1/metrics", ""},
	{"GET", "/a.txt", "h2", "", "10.0.0.66:1", "403 h2/a.txt", ""},
	{"GET", "/b.txt?q=1", "h1:8443", "", "", "200 h1/b.txt", ""},
	{"GET", "/sub/..//%61.txt?a/b", "h1", "", "", "200 h1/a.txt", ""},
	{"GET", "/sp%20ace%2f%3fx", "h1", "", "", "404 h1/sp ace/?x", ""},
	{"GET", "/limited/x", "h1", "", "10.0.0.77:1", "429 h1/limited/x", ""},
	{"GET", "/a.txt", "h1", "", "", "206 h1/a.txt", "Range: bytes=0-0"},
	{"GET", "/b.txt", "h1", "", "", "304 h1/b.txt", "If-None-Match: *"},
	{"GET", "/a.txt", "h2", "", "", "416 h2/a.txt", "Range: bytes=999-"},
}

func (q req) do(hd http.Handler) *h.Rec {
	rem := q.remote
	if rem == "" {
		rem = "10.0.0.1:1"
	}
	hdr := []string{}
	if q.auth != "" {
		hdr = append(hdr, "Authorization", q.auth)
	}
	if k, v, ok := strings.Cut(q.header, ": "); ok {
		hdr = append(hdr, k, v)
	}
	w := h.NewRec()
	hd.ServeHTTP(w, h.Req(q.method, q.target, q.host, rem, hdr...))
	return w
}

// stored metrics to start from
var stored = []struct {
	text string
	c    h.Counts
}{
	{"", h.Counts{}},
	{`{"TotalRequests": 3, "Paths": {"200": {"h1/a.txt": 2}, "404": {"h9/x": 1}}}`, h.Counts{Total: 3, Paths: map[string]int{"200 h1/a.txt": 2, "404 h9/x": 1}}},
	{`{"TotalRequests": 0, "Paths": null}`, h.Counts{}},
	{`{"TotalRequests": 0, "Paths": {}}`, h.Counts{}},
	{`{"TotalRequests": 0, "Paths": {"200": null}}`, h.Counts{}},
	{`{}`, h.Counts{}},
}

func site(dir string, st int, vhost, tls, on bool) *tuna.Server {
	return h.Server(dir, files(dir, st, vhost, tls, on))
}

func files(dir string, st int, vhost, tls, on bool) h.M {
	core := h.MetricsCore(h.Core(dir), dir)
	core["LogOut"] = "/dev/null"
	if !tls {
		core["TLS"] = h.M{"Enabled": false}
	}
	if !on {
		core["Metrics"].(h.M)["Enabled"] = false
	}
	if t := stored[st].text; t != "" {
		h.Put(filepath.Join(dir, "metrics.json"), t)
	}
	sd := filepath.Join(dir, "www")
	if _, err := os.Stat(sd); err != nil {
		h.Put(filepath.Join(sd, "a.txt"), "A")
		h.Put(filepath.Join(sd, "b.txt"), "B")
	}
	sec := func() h.M {
		return h.M{"Serve": h.M{"ServeDir": sd, "ServeIndex": "a.txt", "Methods": h.M{"/": "GET"}},
			"Guard": h.M{"Rate": 600000000, "RateBurst": 1000000, "Firewall": h.M{"Enabled": true, "Blacklisting": true, "Rules": h.M{"/": []string{"10.0.0.66"}}}}}
	}
	cfg := h.M{"Core": core}
	if vhost {
		core["VirtualHosting"] = true
		core["VirtualHosts"] = h.M{"h1": h.PutJSON(dir+"/h1.json", sec()), "h2": h.PutJSON(dir+"/h2.json", sec())}
	} else {
		for k, v := range sec() {
			cfg[k] = v
		}
	}
	return cfg
}

func page(s http.Handler) (h.Counts, string) {
	w := reqs[4].do(s)
	if w.Status() != 200 {
		return h.Counts{}, fmt.Sprint("the metrics page answers ", w.Status())
	}
	return h.ParseMetrics(string(w.Body))
}

// HistCase is a history of requests on a server started from stored metrics.
type HistCase struct {
	Stored             int
	Vhost, Off, NoTLS_ bool
	Ops                []int
}

// PathCase is one request path on the page.
type PathCase struct{ Target, Agent string }

func history(ctx *h.Ctx) func(HistCase) h.Outcome {
	return func(c HistCase) h.Outcome {
		dir := ctx.Dir("s")
		defer ctx.Remove(dir)
		s := site(dir, c.Stored, c.Vhost, !c.NoTLS_, !c.Off)
		want := stored[c.Stored].c.Add()
		var trace []string
		for i, o := range c.Ops {
			q := reqs[o]
			w := q.do(s.Router)
			if !strings.HasPrefix(q.key, fmt.Sprint(w.Status())) && q.key[:3] != "429" {
				return h.Outcome{Class: "other answer"} // another property
			}
			if o == 4 && w.Status() == 200 {
				got, bad := h.ParseMetrics(string(w.Body))
				if bad != "" {
					return h.Outcome{Bad: bad}
				}
				if got.String() != want.String() {
					return h.Outcome{Class: "wrong", Bad: fmt.Sprintf("the metrics page is not the count of the requests answered\nstored %q, after %d of %v: page %s\nexpected %s", stored[c.Stored].text, i, trace, got, want)}
				}
			}
			if q.key[:3] == "429" {
				want = want.Add(fmt.Sprint(w.Status()) + q.key[3:])
			} else {
				want = want.Add(q.key)
			}
			trace = append(trace, q.method+" "+q.host+q.target)
		}
		return h.Outcome{Class: fmt.Sprint(want.Total-stored[c.Stored].c.Total, " counted"), Sig: fmt.Sprint(c), States: len(c.Ops) + 1, Transitions: len(c.Ops), Sample: fmt.Sprint(trace, " -> ", want)}
	}
}

func paths(ctx *h.Ctx) func(PathCase) h.Outcome {
	return func(c PathCase) h.Outcome {
		dir := ctx.Dir("p")
		defer ctx.Remove(dir)
		s := site(dir, 0, false, true, true)
		before, bad := page(s.Router)
		if bad != "" {
			return h.Outcome{Bad: bad}
		}
		r, err := h.ParseRequest("GET "+c.Target+" HTTP/1.1\r\nHost: h1\r\nUser-Agent: "+c.Agent+"\r\n\r\n", "10.0.0.1:1")
		if err != nil {
			return h.Outcome{Class: "not a request"}
		}
		w, p := h.NewRec(), ref.Clean(r.URL.Path)
		s.Router.ServeHTTP(w, r)
		after, bad := page(s.Router)
		if bad != "" {
			return h.Outcome{Class: "markup", Bad: bad + "\nafter GET " + c.Target}
		}
		if after.Total != before.Total+2 {
			return h.Outcome{Class: "miscount", Bad: fmt.Sprintf("a request is not counted once\nGET %s: total %d -> %d (the page itself counts once)", c.Target, before.Total, after.Total)}
		}
		plain := true
		for _, x := range p {
			plain = plain && x != 0xfffd && unicode.IsPrint(x)
		}
		if key := fmt.Sprint(w.Status(), " h1", p); plain && after.Paths[key] != before.Paths[key]+1 {
			return h.Outcome{Class: "miscount", Bad: fmt.Sprintf("a request is not counted under its path and status\nGET %s: %q not among %v", c.Target, key, after)}
		}
		sum := 0
		for _, v := range after.Paths {
			sum += v
		}
		if sum != after.Total {
			return h.Outcome{Class: "miscount", Bad: fmt.Sprintf("the entries of the page do not add up to the total\nafter GET %s: %d of %d", c.Target, sum, after.Total)}
		}
		return h.Outcome{Class: "shown as text", Sig: c.Target}
	}
}

// answering is an upstream that answers with the status in the path.
type answering struct{}

func (answering) RoundTrip(r *http.Request) (*http.Response, error) {
	code := 0
	fmt.Sscanf(r.URL.Path, "/s%d", &code)
	return &http.Response{StatusCode: code, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: r}, nil
}

// StatusCase are answers of an upstream with statuses From to To.
type StatusCase struct{ From, To int }

func statuses(ctx *h.Ctx) func(StatusCase) h.Outcome {
	return func(c StatusCase) h.Outcome {
		dir := ctx.Dir("st")
		defer ctx.Remove(dir)
		core := h.MetricsCore(h.Core(dir), dir)
		core["LogOut"] = "/dev/null"
		s := h.Server(dir, h.M{"Core": core, "Guard": h.Generous(), "Proxy": h.M{"Enabled": true, "Methods": []string{"GET"}, "Rules": h.M{"h1": "http://up.test"}}})
		s.Transport = answering{}
		want := h.Counts{Paths: map[string]int{}}
		for code := c.From; code < c.To; code++ {
			w := h.NewRec()
			s.Router.ServeHTTP(w, h.Req("GET", fmt.Sprintf("/s%d", code), "h1", "10.0.0.1:1"))
			want.Total++
			want.Paths[fmt.Sprintf("%d h1/s%d", w.Status(), code)]++
		}
		got, bad := page(s.Router)
		if bad == "" && got.String() != want.String() {
			bad = fmt.Sprintf("the metrics page is not the count of the requests answered\nanswers of an upstream with statuses %d to %d: page %s\nexpected %s", c.From, c.To-1, got, want)
		}
		return h.Outcome{Class: "all counted", Bad: bad, Sig: fmt.Sprint(c), States: c.To - c.From, Transitions: c.To - c.From}
	}
}

type brokenConn struct {
	h    http.Header
	left int
}

func (b *brokenConn) Header() http.Header { return b.h }
func (b *brokenConn) WriteHeader(int)     {}
func (b *brokenConn) Write(p []byte) (int, error) {
	if b.left == 0 {
		return 0, io.ErrClosedPipe
	}
	b.left--
	return len(p), nil
}

type slowConn struct {
	h    http.Header
	left int
	gate *vsched.WaitGroup
	n    int
}

func (b *slowConn) Header() http.Header { return b.h }
func (b *slowConn) WriteHeader(int)     {}
func (b *slowConn) Write(p []byte) (int, error) {
	if b.n == b.left {
		b.gate.Wait() // the peer reads on only once everybody else has been answered
	}
	b.n++
	return len(p), nil
}

var longWait = 21 * time.Minute

type scn struct {
	name    string
	st      int
	threads [][]string // "start", "log N", "req N", "page", "wait", "broken N", "slow N", "others"
	bound   int
	race    int
}

func scenarios(ctx *h.Ctx) []h.Scenario {
	scs := []scn{
		{"two counters, one path", 1, [][]string{{"log 0", "log 0"}, {"log 0"}}, 2, 1},
		{"two counters, new paths", 0, [][]string{{"log 0", "log 1"}, {"log 1", "log 0"}}, 2, 1},
		{"three counters", 4, [][]string{{"log 0"}, {"log 6"}, {"log 1"}}, 1, 1},
		{"page while counting", 1, [][]string{{"page", "page"}, {"log 0", "log 1"}}, 2, 1},
		{"requests and page", 0, [][]string{{"page"}, {"req 0"}, {"req 1"}}, 1, 1},
		{"flush while counting", 1, [][]string{{"wait", "log 0"}, {"wait", "log 1"}}, 2, 1},
		{"broken page connection", 1, [][]string{{"broken 0", "broken 1", "broken 2", "broken 3", "broken 5", "broken 7"}, {"log 0"}}, 1, 1},
		{"slow page connection", 1, [][]string{{"slow 0"}, {"log 0", "page"}}, 1, 1},
		{"slower page connection", 1, [][]string{{"slow 1"}, {"log 0", "page"}}, 1, 1},
		{"slowest page connection", 1, [][]string{{"slow 3"}, {"log 0", "page"}}, 1, 1},
	}
	for st := range stored {
		scs = append(scs, scn{fmt.Sprintf("start from state %d", st), st, [][]string{{"start", "log 0", "log 1", "page"}}, 2, 1})
	}
	var list []h.Scenario
	for _, s := range scs {
		s := s
		starts := s.threads[0][0] == "start"
		dir := ctx.Dir("sched")
		h.PutJSON(dir+"/main.json", files(dir, 0, false, true, true)) // make the files once
		list = append(list, h.Scenario{Name: s.name, Bound: s.bound, Race: s.race, Make: func() ([]vsched.Body, func(), func() (string, string)) {
			os.Remove(filepath.Join(dir, "metrics.json"))
			if t := stored[s.st].text; t != "" {
				h.Put(filepath.Join(dir, "metrics.json"), t)
			}
			var srv *tuna.Server
			load := func() { srv = tuna.NewInstanceFromConfig(filepath.Join(dir, "main.json")) }
			var all []*h.LinOp
			var bodies []vsched.Body
			gate := &vsched.WaitGroup{}
			once := &vsched.Once{}
			act := func(op string) string {
				f := strings.Fields(op)
				n := 0
				if len(f) > 1 {
					fmt.Sscan(f[1], &n)
				}
				switch f[0] {
				case "start":
					load()
				case "log":
					q := reqs[n]
					code := 0
					fmt.Sscan(q.key, &code)
					srv.LogNetwork(code, h.Req("GET", strings.TrimPrefix(q.key[4:], "h1"), "h1", "10.0.0.1:1"))
				case "req":
					return fmt.Sprint(reqs[n].do(srv.Router).Status())
				case "page":
					c, bad := page(srv.Router)
					if bad != "" {
						return "bad " + bad
					}
					return c.String()
				case "broken":
					func() {
						defer func() { recover() }()
						srv.Router.ServeHTTP(&brokenConn{http.Header{}, n}, h.Req("GET", "/metrics", "h1", "10.0.0.1:1", "Authorization", h.MetricsAuth))
					}()
				case "slow":
					srv.Router.ServeHTTP(&slowConn{h: http.Header{}, left: n, gate: gate}, h.Req("GET", "/metrics", "h1", "10.0.0.1:1", "Authorization", h.MetricsAuth))
				case "wait":
					vsched.Sleep(longWait)
				}
				return "done"
			}
			slow := strings.HasPrefix(s.threads[0][0], "slow")
			for ti, th := range s.threads {
				ti := ti
				var mine []*h.LinOp
				for _, op := range th {
					mine = append(mine, &h.LinOp{Name: op})
				}
				all = append(all, mine...)
				bodies = append(bodies, vsched.Body{Name: strings.Join(th, "; "), F: func() {
					if !starts {
						once.Do(func() {
							vsched.Atomic(func() {
								load()
								gate.Add(1)
							})
						})
					}
					for _, o := range mine {
						o.Do(func() string { return act(o.Name) })
					}
					if slow && ti == len(s.threads)-1 {
						gate.Done()
					}
				}})
			}
			fin := &h.LinOp{Name: "page"}
			return bodies, func() { fin.Do(func() string { return act("page") }) }, func() (string, string) {
				ops := append(append([]*h.LinOp{}, all...), fin)
				cl := h.Answers(ops)
				for _, o := range ops {
					if strings.HasPrefix(o.Got, "bad ") {
						return cl, o.Got[4:]
					}
				}
				// what the counters must say in the end, and what every page may say
				want := stored[s.st].c.Add()
				broken := 0
				for _, o := range all {
					want = want.Add(keysOf(o)...)
					if strings.HasPrefix(o.Name, "broken") {
						broken++
					}
				}
				ok := fin.Got == want.String()
				for i := 0; !ok && i < broken; i++ { // a page nobody could read may go uncounted
					if want.Paths["200 h1/metrics"]--; want.Paths["200 h1/metrics"] == 0 {
						delete(want.Paths, "200 h1/metrics")
					}
					want.Total--
					ok = fin.Got == want.String()
				}
				if !ok {
					return cl, fmt.Sprintf("requests are lost from or invented in the metrics\nin the end %s\nexpected   %s\n%s", fin.Got, want, h.History(all))
				}
				if broken == 0 && !slow && !h.Linearizable(ops, stored[s.st].c.Add().String(), lin(s.st)) {
					return cl, "a metrics page shows counts that were never true\n" + h.History(ops)
				}
				if b, err := os.ReadFile(filepath.Join(dir, "metrics.json")); err == nil && stored[s.st].text != string(b) {
					var v struct {
						TotalRequests int
						Paths         map[int]map[string]int
					}
					if err := json.Unmarshal(b, &v); err != nil {
						return cl, "a flush leaves an unreadable metrics file\n" + err.Error() + "\n" + string(b)
					}
					sum := 0
					for _, m := range v.Paths {
						for _, n := range m {
							sum += n
						}
					}
					if sum != v.TotalRequests || sum < stored[s.st].c.Total || sum > want.Total+1 {
						return cl, "a flush stores counts that were never true\n" + string(b)
					}
				}
				return cl, ""
			}
		}})
	}
	return list
}

func keysOf(o *h.LinOp) []string {
	n := 0
	f := strings.Fields(o.Name)
	if len(f) > 1 {
		fmt.Sscan(f[1], &n)
	}
	switch f[0] {
	case "log", "req":
		return []string{reqs[n].key}
	case "page", "broken", "slow":
		return []string{"200 h1/metrics"}
	}
	return nil
}

// the model: counting is one step; a page shows the counts at one instant and is itself counted at a later one
func lin(st int) func(string, *h.LinOp) (string, bool) {
	states := map[string]h.Counts{stored[st].c.Add().String(): stored[st].c.Add()}
	return func(s string, op *h.LinOp) (string, bool) {
		c := states[s]
		if strings.HasPrefix(op.Name, "page") {
			// the page of a request counted earlier or later: compare without the pages themselves
			got := strip(op.Got)
			return s, got == strip(c.String())
		}
		if ks := keysOf(op); len(ks) > 0 {
			n := c.Add(ks...)
			states[n.String()] = n
			return n.String(), true
		}
		return s, true
	}
}

// strip removes the entry of the metrics page and the total.
func strip(s string) string {
	i := strings.Index(s, "{")
	var l []string
	for _, f := range strings.SplitAfter(strings.Trim(s[i:], "{}"), " \"") {
		f = strings.Trim(f, " \"")
		if !strings.HasPrefix(f, "200 h1/metrics") {
			l = append(l, f)
		}
	}
	return strings.Join(l, ";")
}

// ManyCase are metrics of many paths: Stored of them from the file with Each requests, Asked more by requests.
type ManyCase struct{ Stored, Each, Asked int }

func many(ctx *h.Ctx) func(ManyCase) h.Outcome {
	return func(c ManyCase) h.Outcome {
		dir := ctx.Dir("m")
		defer ctx.Remove(dir)
		want := h.Counts{Total: c.Stored * c.Each, Paths: map[string]int{}}
		if c.Stored > 0 {
			m := map[string]int{}
			for i := 0; i < c.Stored; i++ {
				m[fmt.Sprint("h1/stored", i)] = c.Each
				want.Paths[fmt.Sprint("200 h1/stored", i)] = c.Each
			}
			b, _ := json.Marshal(map[string]interface{}{"TotalRequests": want.Total, "Paths": map[string]interface{}{"200": m}})
			h.Put(filepath.Join(dir, "metrics.json"), string(b))
		}
		s := site(dir, 0, false, true, true)
		ask := func(p string) {
			w := h.NewRec()
			s.Router.ServeHTTP(w, h.Req("GET", p, "h1", "10.0.0.1:1"))
			want.Total++
			want.Paths[fmt.Sprintf("%d h1%s", w.Status(), p)]++
		}
		for i := 0; i < c.Asked; i++ {
			ask(fmt.Sprint("/asked", i))
		}
		if c.Stored > 0 {
			ask("/stored0")
		}
		got, bad := page(s.Router)
		if bad == "" && got.String() != want.String() {
			bad = "the metrics page is not the count of the requests answered"
			if got.Total != want.Total {
				bad += fmt.Sprintf("\ntotal %d, expected %d", got.Total, want.Total)
			}
			bad += fmt.Sprintf("\n%d entries, expected %d", len(got.Paths), len(want.Paths))
			for k, v := range want.Paths {
				if got.Paths[k] != v {
					bad += fmt.Sprintf("\n%q: %d, expected %d", k, got.Paths[k], v)
					break
				}
			}
			bad += fmt.Sprintf("\n%+v", c)
		}
		return h.Outcome{Class: "all counted", Bad: bad, Sig: fmt.Sprint(c), States: c.Stored + c.Asked, Transitions: c.Asked}
	}
}

func main() {
	h.Main("C11", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is one history of requests on a server started from a stored state, one request path shown on the page, or one schedule of a closed concurrent history; distinct = different histories, paths or answer vectors"
		if !vsched.RaceEnabled {
			depth := 3
			if ctx.Thorough() {
				depth = 4
			}
			h.Enumerate(ctx, "histories", func(y func(HistCase) bool) {
				var rec func(c HistCase, d int) bool
				rec = func(c HistCase, d int) bool {
					if d == 0 {
						c.Ops = append(append([]int{}, c.Ops...), 4)
						return y(c)
					}
					for o := range reqs {
						n := c
						n.Ops = append(append([]int{}, c.Ops...), o)
						if !rec(n, d-1) {
							return false
						}
					}
					return true
				}
				for st := range stored {
					for _, vh := range []bool{false, true} {
						d := depth
						if st > 1 || vh {
							d--
						}
						if !rec(HistCase{Stored: st, Vhost: vh}, d) {
							return
						}
					}
				}
			}, history(ctx))
			frag := []string{"x", "<script>alert(1)</script>", "%3Cscript%3E", "</li>", "%3C/ul%3E", "%22", "'", "%26lt;", "&amp;", "%0A", "%00", "%ff", "%fe%ff", "%E2%80%A8", "{{.}}", "%3C", "%3E", "a%20b", "%25"}
			h.Enumerate(ctx, "paths on the page", func(y func(PathCase) bool) {
				for _, a := range frag {
					for _, b := range append([]string{""}, frag...) {
						for _, sep := range []string{"", "/", "?"} {
							if !y(PathCase{Target: "/" + a + sep + b, Agent: "x"}) {
								return
							}
						}
					}
				}
			}, paths(ctx))
			h.Enumerate(ctx, "long paths", func(y func(PathCase) bool) {
				for _, n := range []int{99, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537, 200000} {
					for _, u := range []string{"p", "/p", "%E2%82%AC", "a%20"} {
						if !y(PathCase{Target: "/" + strings.Repeat(u, n/len(strings.ReplaceAll(u, "%", ""))+1), Agent: "x"}) {
							return
						}
					}
				}
			}, paths(ctx))
			h.Enumerate(ctx, "every status", func(y func(StatusCase) bool) {
				for c := 200; c < 1000; c += 100 {
					if !y(StatusCase{c, c + 100}) {
						return
					}
				}
			}, statuses(ctx))
			h.Enumerate(ctx, "many paths", func(y func(ManyCase) bool) {
				for _, each := range []int{1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1 << 60} {
					for _, n := range []int{1, 3} {
						if !y(ManyCase{Stored: n, Each: each, Asked: 2}) {
							return
						}
					}
				}
				for _, n := range []int{99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 8192, 9999, 10000, 10001, 16384, 20000, 32768, 50000, 65535, 65536, 65537} {
					if !y(ManyCase{Asked: n}) || !y(ManyCase{Stored: n, Each: 2, Asked: 3}) || !y(ManyCase{Stored: n / 2, Each: 3, Asked: n / 2}) {
						return
					}
				}
			}, many(ctx))
		}
		h.Schedules(ctx, 2, scenarios(ctx))
		ctx.Bound("histories: depth 3 (thorough 4) over %d requests and %d stored states; %d request paths, 104 long ones up to 200000 bytes; 800 statuses of an upstream; up to 65537 different paths, asked for or stored, with counts of up to 1<<60", len(reqs), len(stored), 19*20*3)
		ctx.Assume("sync primitives, goroutines and the clock of the tuna package are replaced by models with the documented semantics; router, guard and net/http run as single steps", "metrics are collected only with TLS enabled, as in the code")
	})
}
