// C23: the log. Every request of an alphabet of hostile requests, at every log level, and concurrent requests
// under every schedule.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
	"verif/vsched"
)

// Case is one request to a server with a log level.
type Case struct {
	Level                       int
	Method, Host, Target, Agent int
}

var methods = []string{"GET", "POST", "HEAD", "DELETE", "NET:"}
var hosts = []string{"a.test", "a.test:8080", "d.test", "p.test", "unknown.test", "a%0ab.test", "[::1]:80", "A.TEST", ""}
var targets = []string{
	"/one.txt", "/one.txt?q=1&r=s", "/", "/none", "/locked.txt", "/dir", "/dir/", "/metrics", "/dead", "/bad", "/cut",
	"/%0aMaguroHTTP-2020/01/01%2000:00:00%20NET:%20200%20request=GET", "/one.txt%0d%0aMaguroHTTP-x", "/%1b[31mred", "/%00", "/%7f", "/\xc3\xa9", "/\xff\xfe", "/%ff%0a",
	"/?a=%0aMaguroHTTP-", "/?\xff\xfe", "/?q=a\tb", "/\x0bx", "/?x=\r", "http://a.test/abs%0aMaguroHTTP-", "http://p.test/x", "//a%0ab", "/..%0a/", "/a/../%0a%0a", "*", "/%e2%80%a8", "/%c2%85", "/%25%30%61", "/x%2f%0a", "/;a=%0a", "/" + strings.Repeat("long%0a", 300), "/none#%0a",
}
var agents = []string{"", "agent/1.0 (x; y)", "MaguroHTTP-2020/01/01 00:00:00 NET: 200", "a\tb", "\xc2\x85\xe2\x80\xa8", "%0aMaguroHTTP-", "a\x0b", "a\x1b[31m", strings.Repeat("u", 3000), "IP=9.9.9.9 User-Agent=",
	// requests for a part of a file, or on conditions
	"c\r\nIf-Modified-Since: Tue, 01 Jan 2199 00:00:00 GMT", "c\r\nIf-Unmodified-Since: Thu, 01 Jan 1998 00:00:00 GMT", "c\r\nIf-Match: \"x\"", "c\r\nIf-None-Match: *", "c\r\nRange: bytes=0-0", "c\r\nRange: bytes=0-0,1-1", "c\r\nRange: bytes=999999-", "c\r\nRange: x"}

const secret1, secret2 = "c2VjcmV0LXVzZXI6c2VjcmV0LXBhc3M=", "secret-session"

type upstream struct{}

type cutBody struct{ n int }

func (c *cutBody) Read(b []byte) (int, error) {
	if c.n++; c.n == 1 {
		return copy(b, "part"), nil
	}
	return 0, io.ErrUnexpectedEOF
}
func (*cutBody) Close() error { return nil }

func (upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Body != nil {
		io.Copy(io.Discard, r.Body)
	}
	resp := &http.Response{StatusCode: 203, ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("up")), Request: r}
	switch r.URL.Path {
	case "/dead":
		return nil, errors.New("no upstream")
	case "/bad":
		resp.StatusCode = 7
	case "/cut":
		resp.Body = &cutBody{}
	}
	return resp, nil
}

type world struct {
	s     *tuna.Server
	front *h.Front
	dir   string
	log   *os.File
	calls int
	seen  *http.Request

	path, decoded string // of the request
}

func newWorld(ctx *h.Ctx, level int, front bool) *world {
	dir := ctx.Dir("w")
	h.Put(dir+"/www/one.txt", "one")
	h.Put(dir+"/www/index.html", "index")
	h.Put(dir+"/www/locked.txt", "x")
	h.Put(dir+"/www/dir/index.html", "x")
	os.Chmod(dir+"/www/locked.txt", 0)
	core := h.Core(dir)
	core["LogLevel"] = level
	core["VirtualHosting"] = true
	core["VirtualHosts"] = h.M{
		"a.test": h.PutJSON(dir+"/a.json", h.M{"Guard": h.Generous(), "Serve": h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Methods": h.M{"/": "GET;HEAD"}}}),
		"d.test": h.PutJSON(dir+"/d.json", h.M{"Guard": h.Generous(), "Serve": h.M{"ServeDir": dir + "/www/", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".txt"}}}}),
		"p.test": h.PutJSON(dir+"/p.json", h.M{"Guard": h.Generous(), "Proxy": h.M{"Enabled": true, "Methods": []string{"GET", "POST"}, "Rules": h.M{"p.test": "http://up.test"}}}),
	}
	if front {
		h.MetricsCore(core, dir)
	}
	w := &world{dir: dir, s: h.Server(dir, h.M{"Core": core})}
	w.s.Transport = upstream{}
	var err error
	if w.log, err = os.Open(dir + "/server.log"); err != nil {
		panic(err)
	}
	if front {
		w.front = h.NewFront2(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			w.calls++
			w.seen, w.path, w.decoded = r, r.URL.EscapedPath(), r.URL.Path
			w.s.Router.ServeHTTP(rw, r)
		}))
	}
	return w
}

var line = regexp.MustCompile(`^MaguroHTTP-\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (NET|ERROR|DEBUG|VERBOSE): `)

// news returns what was logged since the last call.
func (w *world) news() string {
	b, err := io.ReadAll(w.log)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// judge checks the lines that n answered requests left in the log of a level.
func judge(out string, level, n int) (net []string, bad string) {
	if out != "" && !strings.HasSuffix(out, "\n") {
		return nil, "the log ends in the middle of a line"
	}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if out == "" {
			break
		}
		m := line.FindStringSubmatch(l)
		if m == nil {
			return nil, "a request makes up a line of the log"
		}
		for i := 0; i < len(l); i++ {
			if l[i] < 0x20 && l[i] != '\t' || l[i] == 0x7f {
				return nil, "a control character of a request reaches the log"
			}
		}
		switch m[1] {
		case "NET":
			net = append(net, l)
		case "ERROR":
			if level < 2 {
				return nil, "an error is logged at a level below it"
			}
		default:
			if level < 3 {
				return nil, "a debug message is logged at a level below it"
			}
		}
	}
	want := n
	if level < 1 {
		want = 0
	}
	if len(net) != want {
		return nil, fmt.Sprintf("requests and their lines in the log do not match\n%d requests answered, %d lines", n, len(net))
	}
	return net, ""
}

func run(ctx *h.Ctx) func(Case) h.Outcome {
	ws := map[int]*world{}
	return func(c Case) h.Outcome {
		w := ws[c.Level]
		if w == nil {
			w = newWorld(ctx, c.Level, true)
			ws[c.Level] = w
		}
		w.news()
		w.calls, w.seen = 0, nil
		m := methods[c.Method]
		raw := m + " " + targets[c.Target] + " HTTP/1.1\r\nHost: " + hosts[c.Host] + "\r\nConnection: close\r\nAuthorization: Basic " + secret1 + "\r\nCookie: s=" + secret2 + "\r\n"
		if a := agents[c.Agent]; a != "" {
			raw += "User-Agent: " + a + "\r\n"
		}
		conn := w.front.Dial("10.11.12.13:4567")
		conn.SetDeadline(time.Now().Add(20 * time.Second))
		go io.WriteString(conn, raw+"\r\n")
		ans := h.ReadAnswer(bufio.NewReader(conn), m)
		conn.Close()
		w.front.Drained()
		out := w.news()
		net, bad := judge(out, c.Level, w.calls)
		if bad == "" && (strings.Contains(out, secret1) || strings.Contains(out, secret2) || strings.Contains(out, "secret-pass")) {
			bad = "a credential of a request reaches the log"
		}
		if bad == "" && len(net) == 1 {
			l := net[0]
			seg := path.Base(path.Clean("/" + w.path))
			seg2 := (&url.URL{Path: "/" + path.Base(path.Clean("/"+w.decoded))}).EscapedPath()[1:]
			switch {
			case ans.Err == nil && !strings.Contains(l, fmt.Sprintf(" %d ", ans.Status)):
				bad = fmt.Sprintf("the log names another status than was answered\nanswered %d", ans.Status)
			case !strings.Contains(l, m) || !strings.Contains(l, w.seen.Host) || !strings.Contains(l, "10.11.12.13") || !strings.Contains(l, w.seen.Header.Get("User-Agent")):
				bad = "the log does not name the method, host, client and agent"
			case !strings.Contains(l, seg) && !strings.Contains(l, seg2) && !strings.Contains(l, strings.ReplaceAll(seg2, "%2F", "/")):
				bad = "the log does not name the path"
			}
		}
		if bad == "" && len(net) == 1 {
			bad = mistaken(net[0], m, "10.11.12.13:4567", w.seen.Header.Get("User-Agent"))
		}
		if bad != "" {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nlevel %d, request %q\nanswer %d %v\nlog %q", bad, c.Level, raw, ans.Status, ans.Err, out)}
		}
		return h.Outcome{Class: fmt.Sprintf("level %d: %d answered by the server", c.Level, w.calls), Sig: fmt.Sprint(c), Sample: out}
	}
}

// mistaken says whether a reader of a line can take a part of the request for another.
func mistaken(l, method, client, agent string) string {
	if f := field(l, " request="); f != method {
		return "a request passes for one with another method in the log\n" + f
	}
	if f := field(l, " IP="); f != client {
		return "a request passes for one of another client in the log\n" + f
	}
	if _, f, _ := strings.Cut(l, " User-Agent="); f != agent {
		return "a request passes for one of another agent in the log\n" + f
	}
	return ""
}

// field is what a line says of something: the word after its first mention.
func field(l, name string) string {
	_, v, _ := strings.Cut(l, name)
	v, _, _ = strings.Cut(v, " ")
	return v
}

// Two is an HTTP/2 request.
type Two struct {
	Level                          int
	Method, Authority, Path, Agent string
}

func run2(ctx *h.Ctx) func(Two) h.Outcome {
	ws := map[int]*world{}
	n := 0
	return func(c Two) h.Outcome {
		w := ws[c.Level]
		if w == nil {
			w = newWorld(ctx, c.Level, true)
			ws[c.Level] = w
		}
		w.news()
		w.calls, w.seen = 0, nil
		n++
		client := fmt.Sprintf("10.11.12.13:%d", n)
		conn, err := h.NewH2(w.front.Dial(client), 20*time.Second)
		if err != nil {
			panic(err)
		}
		ans := conn.Do(h.Get2(c.Method, c.Authority, c.Path, "User-Agent", c.Agent, "Authorization", "Basic "+secret1, "Cookie", "s="+secret2), nil)
		conn.Conn.Close()
		w.front.Drained()
		out := w.news()
		net, bad := judge(out, c.Level, w.calls)
		switch {
		case bad != "":
		case strings.Contains(out, secret1) || strings.Contains(out, secret2) || strings.Contains(out, "secret-pass"):
			bad = "a credential of a request reaches the log"
		case len(net) == 1 && !strings.Contains(net[0], fmt.Sprintf(" %d ", ans.Status)):
			bad = fmt.Sprintf("the log names another status than was answered\nanswered %d", ans.Status)
		case len(net) == 1:
			bad = mistaken(net[0], c.Method, client, w.seen.Header.Get("User-Agent"))
		}
		if bad != "" {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\nHTTP/2 request %q\nanswer %d %v\nlog %q", bad, c, ans.Status, ans.Err, out)}
		}
		return h.Outcome{Class: fmt.Sprintf("HTTP/2, level %d: %d answered by the server", c.Level, w.calls), Sig: fmt.Sprint(c), Sample: out}
	}
}

var creqs = []struct{ host, target string }{{"a.test", "/one.txt"}, {"a.test", "/none-of-them"}, {"d.test", "/one.txt"}, {"p.test", "/q"}, {"p.test", "/dead"}}

func scenarios(ctx *h.Ctx) []h.Scenario {
	ws := map[int]*world{}
	for _, l := range []int{0, 1, 3} {
		ws[l] = newWorld(ctx, l, false)
	}
	var out []h.Scenario
	for _, s := range [][]int{{1, 0, 0}, {1, 0, 1}, {1, 0, 3}, {1, 1, 2}, {1, 3, 4}, {3, 1, 4}, {3, 4, 4}, {0, 1, 3}, {1, 0, 1, 3}, {3, 4, 1, 2}} {
		s := s
		w := ws[s[0]]
		bound := 2
		if len(s) == 4 {
			bound = 1
		}
		out = append(out, h.Scenario{Name: fmt.Sprintf("level %d requests %v", s[0], s[1:]), Bound: bound, Race: 1, Make: func() ([]vsched.Body, func(), func() (string, string)) {
			w.news()
			var mu sync.Mutex
			codes := make([]int, len(s)-1)
			var bodies []vsched.Body
			for i, n := range s[1:] {
				i, q := i, creqs[n]
				bodies = append(bodies, vsched.Body{Name: fmt.Sprint(i), F: func() {
					r := h.Req("GET", q.target+fmt.Sprintf("?thread=%d-", i), q.host, fmt.Sprintf("10.0.0.%d:1", i+1), "User-Agent", fmt.Sprintf("agent-%d", i))
					rec := h.NewRec()
					w.s.Router.ServeHTTP(rec, r)
					mu.Lock()
					codes[i] = rec.Status()
					mu.Unlock()
				}})
			}
			return bodies, nil, func() (string, string) {
				out := w.news()
				net, bad := judge(out, s[0], len(codes))
				for i := range codes {
					if bad != "" || s[0] == 0 {
						break
					}
					n := 0
					for _, l := range net {
						if strings.Contains(l, fmt.Sprintf("thread=%d-", i)) && strings.Contains(l, fmt.Sprintf("agent-%d", i)) && strings.Contains(l, fmt.Sprintf("10.0.0.%d", i+1)) && strings.Contains(l, fmt.Sprintf(" %d ", codes[i])) {
							n++
						}
					}
					if n != 1 {
						bad = fmt.Sprintf("the lines of concurrent requests are mixed up or lost\nrequest %d", i)
					}
				}
				if bad != "" {
					return "differs", fmt.Sprintf("%s\nstatus %v, log %q", bad, codes, out)
				}
				order := ""
				for _, l := range net {
					order += l[strings.Index(l, "agent-"):]
				}
				return "lines in order " + order, ""
			}
		}})
	}
	return out
}

func main() {
	h.Main("C23", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a request at a log level, or a schedule of concurrent requests; distinct = different cases, or orders of the lines"
		h.Schedules(ctx, 2, scenarios(ctx))
		if vsched.RaceEnabled {
			return
		}
		h.Enumerate(ctx, "requests", func(y func(Case) bool) {
			for _, l := range []int{0, 1, 2, 3} {
				for m := range methods {
					for ho := range hosts {
						for t := range targets {
							for a := range agents {
								// quick: every pair of dimensions with the agent
								if !ctx.Thorough() && a > 1 && (m > 0 || t > 0 && ho > 3) {
									continue
								}
								if !y(Case{l, m, ho, t, a}) {
									return
								}
							}
						}
					}
				}
			}
		}, run(ctx))
		h.Enumerate(ctx, "HTTP/2", func(y func(Two) bool) {
			fake := "x/ IP=9.9.9.9:1 User-Agent=fake"
			for _, l := range []int{0, 1, 2, 3} {
				for _, m := range []string{"GET", "HEAD", "POST", "NET:", "X"} {
					for _, a := range []string{"a.test", "d.test", "p.test", "a.test ", "a b", fake, "p.test:1 " + fake, "a\tb", "\xff", "a.test/x", "a\"b", "", "%0a", "a=b request=PUT x"} {
						for _, p := range []string{"/one.txt", "/none", "/ IP=9.9.9.9:1 x", "/one.txt?" + fake, "/none? IP=9.9.9.9:1 x", "/one.txt?\t\xff\"", "/?  ", "/dead? request=PUT", "/metrics?a b", "/a%20IP=9.9.9.9:1"} {
							for _, u := range []string{"agent/1.0 (x; y)", "", "MaguroHTTP-2020/01/01 00:00:00 NET: 200 request=GET x IP=9.9.9.9:1 User-Agent=y"} {
								if !y(Two{l, m, a, p, u}) {
									return
								}
							}
						}
					}
				}
			}
		}, run2(ctx))
		ctx.Bound("4 log levels x %d methods x %d hosts x %d targets x %d user agents (quick: reduced product of the agents); 10 sets of 2-3 concurrent requests", len(methods), len(hosts), len(targets), len(agents))
		ctx.Assume("requests that the HTTP library refuses before they reach the server are not logged")
	})
}
