// C19: isolation. The answer to a request does not depend on the requests served before it or at the same time.
package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
	"verif/vsched"
)

// SeqCase is a history of requests, answered one after the other by one server.
type SeqCase struct{ Reqs []int }

type rq struct {
	method, host, target, remote, hdr, body string
	code                                    int
	has                                     string // in the body
	site                                    string // value of X-Site
}

const c1, c2, bad = "10.0.0.1:1", "10.0.0.2:2", "10.0.0.66:6"

var reqs = []rq{
	{"GET", "a.test", "/one.txt", c1, "", "", 200, "A-one", "A"},
	{"GET", "a.test:8080", "/", c2, "", "", 200, "A-index", "A"},
	{"GET", "a.test", "/none", c1, "", "", 404, "A-404", ""},
	{"GET", "a.test", "/one.txt", bad, "", "", 403, "A-403", ""},
	{"GET", "b.test", "/one.txt", c1, "", "", 200, "B-one", "B"},
	{"GET", "b.test", "/none", c2, "", "", 404, "B-404", ""},
	{"PUT", "b.test", "/one.txt", c1, "", "", 405, "Error 405", ""},
	{"GET", "d.test", "/", c1, "", "", 200, "d1.bin", "D"},
	{"GET", "d.test", "/d2.bin", c2, "", "", 200, "D-two", "D"},
	{"GET", "d.test", "/none", c1, "", "", 404, "Error 404", ""},
	{"GET", "p.test", "/q?x=1", c1, "X-N: 1", "", 200, "GET http://up.test/q?x=1 10.0.0.1 [1] \"\"", "P"},
	{"POST", "p.test", "/r", c2, "X-N: 2", "hello body", 200, "POST http://up.test/r 10.0.0.2 [2] \"hello body\"", "P"},
	{"GET", "q.test", "/dead", c1, "", "", 502, "Error 502", ""},
	{"GET", "p.test", "/q", bad, "", "", 200, "GET http://up.test/q 10.0.0.66 [] \"\"", "P"},
	{"GET", "none.test", "/one.txt", c1, "", "", 404, "MAIN-404", ""},
	{"HEAD", "a.test", "/one.txt", c1, "", "", 200, "", "A"},
	{"GET", "a.test", "/one.txt", c1, "Range: bytes=2-4", "", 206, "one", "A"},
	{"GET", "b.test", "/x//../one.txt", c2, "", "", 200, "B-one", "B"},
	{"GET", "a.test", "/", c1, "Content-Type: odd/x", "", 406, "Error 406", ""},
	{"GET", "d.test", "/d1.bin", bad, "", "", 200, "D-one", "D"},
	{"DELETE", "q.test", "/q", c1, "", "", 405, "Error 405", ""},
	{"GET", "b.test", "/none", bad, "", "", 404, "B-404", ""},
}

// upstream echoes the request, in small pieces with a scheduling point between them.
type upstream struct{}

type pieces struct{ s string }

func (p *pieces) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	n := copy(b, p.s[:min(len(p.s), 9)])
	p.s = p.s[n:]
	return n, nil
}
func (*pieces) Close() error { return nil }

func (upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	vsched.P(-1)
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
	}
	if r.URL.Path == "/dead" {
		return nil, errors.New("no upstream")
	}
	id := fmt.Sprintf("%s %s %s %v %q", r.Method, r.URL, strings.Split(r.Header.Get("X-Client"), ":")[0], r.Header["X-N"], b)
	vsched.P(-1)
	return &http.Response{StatusCode: 200, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"X-Id": {id}}, Body: &pieces{id}, Request: r}, nil
}

// rec is a client's view of an answer, with a scheduling point in front of every write.
type rec struct{ h.Rec }

func (r *rec) Write(b []byte) (int, error) {
	vsched.P(-1)
	return r.Rec.Write(b)
}

type world struct {
	s   *tuna.Server
	dir string
}

func newWorld(ctx *h.Ctx) *world {
	dir := ctx.Dir("w")
	for _, s := range []string{"A", "B"} {
		h.Put(dir+"/"+s+"/one.txt", s+"-one")
		h.Put(dir+"/"+s+"/index.html", s+"-index")
		h.Put(dir+"/"+s+"-404.html", s+"-404")
	}
	h.Put(dir+"/A-403.txt", "A-403")
	h.Put(dir+"/MAIN-404.html", "MAIN-404")
	h.Put(dir+"/D/d1.bin", "D-one")
	h.Put(dir+"/D/d2.bin", "D-two")
	sec := func(name string, s h.M) string {
		g := h.Generous()
		if name == "A" {
			g["FilterOnIP"] = true
			g["Firewall"] = h.M{"Enabled": true, "Blacklisting": true, "Rules": h.M{"/": []string{"10.0.0.66"}}}
		}
		s["Guard"] = g
		return h.PutJSON(dir+"/"+name+".json", s)
	}
	x := func(v string) h.M { return h.M{"X-Site": v} }
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	core["VirtualHosting"] = true
	core["VirtualHosts"] = h.M{
		"a.test": sec("A", h.M{"Serve": h.M{"ServeDir": dir + "/A", "ServeIndex": "index.html", "Headers": x("A"), "Methods": h.M{"/": "GET;HEAD"}}, "Errors": h.M{"404": dir + "/A-404.html", "403": dir + "/A-403.txt"}}),
		"b.test": sec("B", h.M{"Serve": h.M{"ServeDir": dir + "/B", "ServeIndex": "index.html", "Headers": x("B"), "Methods": h.M{"/": "GET"}}, "Errors": h.M{"404": dir + "/B-404.html"}}),
		"d.test": sec("D", h.M{"Serve": h.M{"ServeDir": dir + "/D", "ServeIndex": "/list", "Headers": x("D"), "Download": h.M{"Enabled": true, "Exts": []string{".bin"}}}}),
		"p.test": sec("P", h.M{"Proxy": h.M{"Enabled": true, "Methods": []string{"GET", "POST"}, "Rules": h.M{"p.test": "http://up.test", "q.test": "http://up2.test"}, "Headers": x("P")}}),
	}
	s := h.Server(dir, h.M{"Core": core, "Errors": h.M{"404": dir + "/MAIN-404.html"}})
	s.Transport = upstream{}
	return &world{s, dir}
}

func (q rq) do(s *tuna.Server) string {
	hdr := ""
	if q.hdr != "" {
		hdr = q.hdr + "\r\n"
	}
	if q.body != "" {
		hdr += fmt.Sprintf("Content-Length: %d\r\n", len(q.body))
	}
	r, err := h.ParseRequest(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\nX-Client: %s\r\n%s\r\n%s", q.method, q.target, q.host, q.remote, hdr, q.body), q.remote)
	if err != nil {
		panic(err)
	}
	w := &rec{h.Rec{H: http.Header{}}}
	s.Router.ServeHTTP(w, r)
	var l []string
	for k, v := range w.H {
		if k != "Date" {
			l = append(l, fmt.Sprintf("%s: %q", k, v))
		}
	}
	sort.Strings(l)
	if w.Status() != q.code || !strings.Contains(string(w.Body), q.has) || w.H.Get("X-Site") != q.site {
		return fmt.Sprintf("WRONG (must be %d with %q from site %q): %d %v %q", q.code, q.has, q.site, w.Status(), l, w.Body)
	}
	return fmt.Sprintf("%d %v %q", w.Status(), l, w.Body)
}

// alone answers every request by a server of its own.
func alone(ctx *h.Ctx) []string {
	out := make([]string, len(reqs))
	for i, q := range reqs {
		w := newWorld(ctx)
		out[i] = norm(q.do(w.s), w.dir)
		ctx.Remove(w.dir)
	}
	return out
}

// norm leaves out what differs between two copies of the same files: their times.
func norm(s, dir string) string {
	if i := strings.Index(s, "Last-Modified: "); i >= 0 {
		if j := strings.IndexByte(s[i:], ']'); j >= 0 {
			s = s[:i] + s[i+j+1:]
		}
	}
	if i := strings.Index(s, "<h1>Downloads"); i >= 0 {
		s = s[:i] + fmt.Sprint(strings.Count(s, "d1.bin"), strings.Count(s, "d2.bin"), strings.Count(s, "<tr>"))
	}
	return strings.ReplaceAll(s, dir, "")
}

func seq(ctx *h.Ctx) func(SeqCase) h.Outcome {
	var want []string
	var w *world
	last := -1
	return func(c SeqCase) h.Outcome {
		if want == nil {
			want = alone(ctx)
		}
		// a new server for every first request
		if w == nil || c.Reqs[0] != last {
			if w != nil {
				ctx.Remove(w.dir)
			}
			w, last = newWorld(ctx), c.Reqs[0]
		}
		for n, i := range c.Reqs {
			got := norm(reqs[i].do(w.s), w.dir)
			if got != want[i] || strings.HasPrefix(got, "WRONG") {
				return h.Outcome{Class: "differs", Bad: fmt.Sprintf("a request is answered differently after other requests\nrequest %d of %v: %+v\nanswer %s\nalone  %s", n+1, c.Reqs, reqs[i], got, want[i])}
			}
		}
		return h.Outcome{Class: fmt.Sprint(len(c.Reqs), " requests"), Sig: fmt.Sprint(c.Reqs), States: len(c.Reqs) + 1, Transitions: len(c.Reqs)}
	}
}

func scenarios(ctx *h.Ctx) []h.Scenario {
	w := newWorld(ctx)
	want := make([]string, len(reqs))
	for i, q := range reqs {
		want[i] = q.do(w.s)
		if strings.HasPrefix(want[i], "WRONG") && !vsched.RaceEnabled {
			ctx.Violate("alone", "a request alone", fmt.Sprintf("%+v\n%s", q, want[i]), SeqCase{[]int{i}})
		}
	}
	var sets [][]int
	for i := range reqs {
		for j := i; j < len(reqs); j++ {
			sets = append(sets, []int{i, j})
		}
	}
	for _, t := range [][]int{{0, 4, 14}, {2, 5, 14}, {10, 11, 12}, {7, 8, 9}, {0, 10, 8}, {3, 3, 0}} {
		sets = append(sets, t)
	}
	deep := map[string]bool{"[0 4]": true, "[2 5]": true, "[10 11]": true, "[8 9]": true, "[2 14]": true}
	var out []h.Scenario
	for _, set := range sets {
		set := set
		bound := 1
		if deep[fmt.Sprint(set)] {
			bound = 2
		}
		out = append(out, h.Scenario{Name: fmt.Sprint("requests ", set), Bound: bound, Race: 1, Make: func() ([]vsched.Body, func(), func() (string, string)) {
			got := make([]string, len(set))
			var mu sync.Mutex
			var order []int
			var bodies []vsched.Body
			for k, i := range set {
				k, i := k, i
				bodies = append(bodies, vsched.Body{Name: fmt.Sprint(i), F: func() {
					a := reqs[i].do(w.s)
					mu.Lock()
					got[k] = a
					order = append(order, k)
					mu.Unlock()
				}})
			}
			return bodies, nil, func() (string, string) {
				for k, i := range set {
					if got[k] != want[i] {
						return "differs", fmt.Sprintf("a request is answered differently when another is served at the same time\nrequest %+v\nanswer %s\nalone  %s", reqs[i], got[k], want[i])
					}
				}
				return fmt.Sprint("done in order ", order), ""
			}
		}})
	}
	return out
}

func main() {
	h.Main("C19", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a schedule of requests served at the same time, or a history of requests served one after the other; distinct = different histories, or orders of completion"
		os.Setenv("TZ", "UTC")
		h.Schedules(ctx, 2, scenarios(ctx))
		if vsched.RaceEnabled {
			return
		}
		h.Enumerate(ctx, "histories", func(y func(SeqCase) bool) {
			depth := 3
			if ctx.Thorough() {
				depth = 4
			}
			var rec func(x []int) bool
			rec = func(x []int) bool {
				if len(x) == depth {
					return y(SeqCase{x})
				}
				for i := range reqs {
					if !rec(append(x[:len(x):len(x)], i)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}, seq(ctx))
		ctx.Bound("%d requests to 4 kinds of virtual hosts and none; every pair and 6 triples concurrently, every history of 3 (thorough 4)", len(reqs))
		ctx.Assume("the upstream is replaced by a stand-in that echoes the request it got", "rate limits and metrics, which are meant to depend on other requests, are off")
	})
}
