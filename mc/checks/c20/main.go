// C20: stopping. The real server binary is stopped by a signal while its connections are in every combination
// of phases, and the answers are then completed in every order.
package main

import (
	"bufio"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/h"
)

// Case is a set of connections, each in a phase, when the signal arrives. They are completed in this order.
type Case struct {
	TLS    bool
	Signal int
	Phases []string
	Dwell  int // seconds before the first answer is completed
	Header int // ReadHeaderTimeout
}

const port = "8080"

// phases of a connection when the signal arrives
var phases = []string{"idle", "body", "waiting", "half", "file", "new", "line", "pipelined"}
var h2phases = []string{"h2-waiting", "h2-half", "h2-idle"}

// gate controls the upstream's answer to one request.
type gate struct {
	arrived, released chan struct{}
}

type upstream struct {
	mu sync.Mutex
	m  map[string]*gate
	l  net.Listener
}

func (u *upstream) gate(id string) *gate {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.m[id] == nil {
		u.m[id] = &gate{make(chan struct{}), make(chan struct{})}
	}
	return u.m[id]
}

func newUpstream() *upstream {
	l, err := net.Listen("tcp", h.Loopback()+":0")
	if err != nil {
		panic(err)
	}
	u := &upstream{m: map[string]*gate{}, l: l}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		g := u.gate(r.URL.Path)
		if r.URL.Query().Get("half") != "" {
			w.Header().Set("Content-Length", fmt.Sprint(2*len(half)))
			io.WriteString(w, half)
			w.(http.Flusher).Flush()
			close(g.arrived)
			<-g.released
			io.WriteString(w, half)
			return
		}
		if r.URL.Query().Get("wait") != "" {
			close(g.arrived)
			<-g.released
		}
		fmt.Fprintf(w, "answer to %s %q", r.URL.Path, b)
	}))
	return u
}

var half = strings.Repeat("half of an answer ", 5000)
var file = strings.Repeat("0123456789abcde\n", 1<<20)

// client is one connection.
type client struct {
	phase, path string
	conn        net.Conn
	br          *bufio.Reader
	g           *gate
	h2          chan h2answer
	answered    int // answers it must get in the end
}

type h2answer struct {
	code int
	body string
	err  error
}

type world struct {
	dir string
	tls h.M
	up  *upstream
}

func wait(ch chan struct{}, what string) string {
	select {
	case <-ch:
		return ""
	case <-time.After(20 * time.Second):
		return what
	}
}

func (w *world) dial(p *h.Proc, secure bool) (net.Conn, error) {
	c, err := net.DialTimeout("tcp", p.Host+":"+port, 10*time.Second)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(40 * time.Second))
	if secure {
		c = tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	}
	return c, nil
}

func read(br *bufio.Reader, want string) string {
	a := h.ReadAnswer(br, "GET")
	if a.Err != nil || a.Status != 200 || string(a.Body) != want {
		b := string(a.Body)
		if len(b) > 200 {
			b = b[:200]
		}
		return fmt.Sprintf("status %d, error %v, %d bytes %q", a.Status, a.Err, len(a.Body), b)
	}
	return ""
}

// open brings a connection into its phase.
func (w *world) open(p *h.Proc, c *client, secure bool) string {
	c.g = w.up.gate(c.path)
	if strings.HasPrefix(c.phase, "h2") {
		tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, ForceAttemptHTTP2: true}
		q := map[string]string{"h2-waiting": "?wait=1", "h2-half": "?half=1", "h2-idle": ""}[c.phase]
		c.h2 = make(chan h2answer, 1)
		go func() {
			r, _ := http.NewRequest("GET", "https://"+p.Host+":"+port+c.path+q, nil)
			r.Host = "proxy.test"
			resp, err := tr.RoundTrip(r)
			if err != nil {
				c.h2 <- h2answer{err: err}
				return
			}
			b, err := io.ReadAll(resp.Body)
			if resp.ProtoMajor != 2 {
				err = fmt.Errorf("harness: not HTTP/2")
			}
			c.h2 <- h2answer{resp.StatusCode, string(b), err}
		}()
		c.answered = 1
		if q == "" {
			a := <-c.h2
			c.h2 <- a
			return ""
		}
		return wait(c.g.arrived, "a request over HTTP/2 does not reach the upstream")
	}
	if c.phase == "new" {
		secure = false
	}
	var err error
	if c.conn, err = w.dial(p, secure); err != nil {
		return "cannot connect: " + err.Error()
	}
	c.br = bufio.NewReader(c.conn)
	send := func(s string) { io.WriteString(c.conn, s) }
	get := func(host, target string) {
		send("GET " + target + " HTTP/1.1\r\nHost: " + host + "\r\n\r\n")
	}
	switch c.phase {
	case "idle":
		c.answered = 1
		get("file.test", "/small")
		return read(c.br, "small file")
	case "body":
		c.answered = 1
		send("POST " + c.path + " HTTP/1.1\r\nHost: proxy.test\r\nContent-Length: 10\r\nExpect: 100-continue\r\n\r\n")
		if l, err := c.br.ReadString('\n'); err != nil || !strings.Contains(l, " 100 ") {
			return fmt.Sprintf("no 100 Continue: %q %v", l, err)
		}
		c.br.ReadString('\n')
		send("01234")
	case "waiting":
		c.answered = 1
		get("proxy.test", c.path+"?wait=1")
		return wait(c.g.arrived, "a request does not reach the upstream")
	case "pipelined":
		c.answered = 1
		get("proxy.test", c.path+"?wait=1")
		get("file.test", "/small")
		return wait(c.g.arrived, "a request does not reach the upstream")
	case "half":
		c.answered = 1
		get("proxy.test", c.path+"?half=1")
		if b, err := c.br.Peek(12); err != nil || !strings.HasSuffix(string(b), "200") {
			return fmt.Sprintf("no first half: %q %v", b, err)
		}
	case "file":
		c.answered = 1
		get("file.test", "/big")
		if b, err := c.br.Peek(12); err != nil || !strings.HasSuffix(string(b), "200") {
			return fmt.Sprintf("no start of the file: %q %v", b, err)
		}
	case "line":
		send("GET /small HTTP/1.1\r\nHost: fi")
	}
	return ""
}

// finish lets the connection's answer complete.
func (c *client) finish() string {
	select {
	case <-c.g.released:
	default:
		close(c.g.released)
	}
	bad := ""
	switch c.phase {
	case "h2-waiting", "h2-half", "h2-idle":
		want := fmt.Sprintf("answer to %s %q", c.path, "")
		if c.phase == "h2-half" {
			want = half + half
		}
		select {
		case a := <-c.h2:
			if a.err != nil || a.code != 200 || a.body != want {
				bad = fmt.Sprintf("status %d, error %v, %d bytes", a.code, a.err, len(a.body))
			}
		case <-time.After(20 * time.Second):
			bad = "no answer"
		}
	case "idle", "new", "line":
		// closed without an answer
		if b, _ := io.ReadAll(c.br); strings.Contains(string(b), " 200 ") {
			bad = fmt.Sprintf("unexpected answer %.100q", b)
		}
	case "body":
		io.WriteString(c.conn, "56789")
		bad = read(c.br, fmt.Sprintf("answer to %s %q", c.path, "0123456789"))
	case "waiting", "pipelined":
		bad = read(c.br, fmt.Sprintf("answer to %s %q", c.path, ""))
	case "half":
		bad = read(c.br, half+half)
	case "file":
		bad = read(c.br, file)
	}
	if bad != "" {
		return "a request that was being served when the server was stopped is not answered completely\nphase " + c.phase + ": " + bad
	}
	return ""
}

func (w *world) start(ctx *h.Ctx, secure bool, header int, metrics string) *h.Proc {
	for {
		host := h.Loopback()
		core := h.Core(w.dir)
		core["Address"], core["Port"], core["LogOut"] = host, port, "/dev/null"
		// Longer than the grace period the server is given
		core["ReadTimeout"], core["ReadHeaderTimeout"], core["WriteTimeout"] = 60, header, 60
		core["VirtualHosting"] = true
		core["VirtualHosts"] = h.M{"file.test": w.dir + "/file.json", "proxy.test": w.dir + "/proxy.json"}
		if secure {
			core["TLS"] = w.tls
			core["Metrics"] = h.M{"Enabled": true, "Path": "/metrics", "Out": metrics, "Users": h.M{"u": "p"}}
		}
		p := ctx.Start(host, h.PutJSON(w.dir+"/"+host+".json", h.M{"Core": core}))
		if p.Ready(port) || !p.Busy() {
			return p
		}
	}
}

// stored reads the number of requests in the stored metrics.
func stored(file string) (int, error) {
	var m struct{ TotalRequests int }
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	return m.TotalRequests, err
}

func (w *world) run(ctx *h.Ctx) func(Case) h.Outcome {
	return func(c Case) h.Outcome {
		dir := ctx.Dir("m")
		defer ctx.Remove(dir)
		metrics := dir + "/metrics.json"
		p := w.start(ctx, c.TLS, c.Header, metrics)
		defer p.Kill()
		fail := func(bad string) h.Outcome {
			return h.Outcome{Class: "differs", Bad: fmt.Sprintf("%s\n%+v\n%.2000s%.2000s", bad, c, p.Out.String(), p.Err.String())}
		}
		// one request before, and time for the server to get ready for signals
		want := 1
		if k, err := w.dial(p, c.TLS); err != nil {
			return fail("cannot connect: " + err.Error())
		} else {
			io.WriteString(k, "GET /small HTTP/1.1\r\nHost: file.test\r\nConnection: close\r\n\r\n")
			bad := read(bufio.NewReader(k), "small file")
			k.Close()
			if bad != "" {
				return fail(bad)
			}
		}
		time.Sleep(100 * time.Millisecond)
		var cl []*client
		defer func() {
			for _, k := range cl {
				if k.conn != nil {
					k.conn.Close()
				}
				select {
				case <-k.g.released:
				default:
					close(k.g.released)
				}
			}
		}()
		for i, ph := range c.Phases {
			k := &client{phase: ph, path: fmt.Sprintf("/%s/%d", p.Host, i), g: &gate{nil, make(chan struct{})}}
			cl = append(cl, k)
			if bad := w.open(p, k, c.TLS); bad != "" {
				return fail("a request before the signal is not served\nphase " + ph + ": " + bad)
			}
			want += k.answered
		}
		p.Cmd.Process.Signal(syscall.Signal(c.Signal))
		// the server stops accepting connections
		for end := time.Now().Add(15 * time.Second); ; time.Sleep(2 * time.Millisecond) {
			k, err := net.DialTimeout("tcp", p.Host+":"+port, time.Second)
			if err != nil {
				break
			}
			k.Close()
			if time.Now().After(end) {
				return fail("the server still accepts connections 15 s after the signal")
			}
		}
		pending, before := 0, 1
		for _, k := range cl {
			switch k.phase {
			case "idle", "h2-idle":
				before++
			case "new", "line":
			default:
				pending++
			}
		}
		// the metrics of what was answered before are kept even if the server is killed while it waits
		if c.TLS && pending > 0 {
			n, err := 0, error(nil)
			for end := time.Now().Add(15 * time.Second); n < before && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				n, err = stored(metrics)
			}
			if n < before {
				return fail(fmt.Sprintf("the metrics are not stored when the signal arrives\n%d answered, stored %d %v", before, n, err))
			}
		}
		if pending > 0 && c.Dwell > 0 && p.Ended(time.Duration(c.Dwell)*time.Second) {
			return fail("the server ends although requests are being answered")
		}
		for _, k := range cl {
			if pending > 0 && p.Ended(20*time.Millisecond) {
				return fail("the server ends although requests are being answered")
			}
			if k.phase == "new" || k.phase == "line" {
				continue
			}
			if bad := k.finish(); bad != "" {
				return fail(bad)
			}
			switch k.phase {
			case "idle", "h2-idle":
			default:
				pending--
			}
		}
		began := time.Now()
		if !p.Ended(25 * time.Second) {
			return fail("the server does not end after the last answer")
		}
		took := time.Since(began)
		for _, k := range cl {
			if k.phase == "new" || k.phase == "line" {
				if bad := k.finish(); bad != "" {
					return fail(bad)
				}
			}
		}
		if p.Code < 0 || strings.Contains(p.Err.String(), "panic:") || strings.Contains(p.Err.String(), "goroutine ") {
			return fail(fmt.Sprintf("the server does not stop in an orderly way\nstatus %d", p.Code))
		}
		if c.TLS {
			if n, err := stored(metrics); err != nil || n != want {
				return fail(fmt.Sprintf("the stored metrics lack requests answered before the end\n%d answered, stored %d %v", want, n, err))
			}
		}
		return h.Outcome{Class: fmt.Sprint("waits for new connections: ", took > 3*time.Second), Sig: fmt.Sprint(c), States: len(c.Phases) + 2, Transitions: 2*len(c.Phases) + 2, Sample: fmt.Sprintf("%+v", c)}
	}
}

func main() {
	h.Main("C20", 64, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is the phases of the connections when the signal arrives, in the order in which they are completed; distinct = different cases"
		w := &world{dir: ctx.Dir("w"), up: newUpstream()}
		w.tls = h.Cert(w.dir)
		h.Put(w.dir+"/www/small", "small file")
		h.Put(w.dir+"/www/big", file)
		h.PutJSON(w.dir+"/file.json", h.M{"Serve": h.M{"ServeDir": w.dir + "/www/", "ServeIndex": "small", "Methods": h.M{"/": "GET"}}, "Guard": h.Generous()})
		h.PutJSON(w.dir+"/proxy.json", h.M{"Proxy": h.M{"Enabled": true, "Methods": []string{"GET", "POST"}, "Rules": h.M{"proxy.test": "http://" + w.up.l.Addr().String()}}, "Guard": h.Generous()})
		n := 2
		if ctx.Thorough() {
			n = 3
		}
		h.Enumerate(ctx, "stops", func(y func(Case) bool) {
			for k := 0; k <= n; k++ {
				for _, secure := range []bool{true, false} {
					ph := phases
					if secure {
						ph = append(append([]string{}, phases...), h2phases...)
					}
					var rec func(x []string) bool
					rec = func(x []string) bool {
						if len(x) == k {
							sigs := []int{15, 2}
							if k == n {
								sigs = sigs[:1] // the signal makes no difference to the phases
							}
							for _, s := range sigs {
								if !y(Case{secure, s, x, 0, 60}) {
									return false
								}
							}
							if k == 1 {
								d := 12
								if ctx.Thorough() {
									d = 25
								}
								if !y(Case{secure, 15, x, d, 60}) {
									return false
								}
								// the limit also applies to upstreams that have not answered
								return strings.Contains("waiting h2-waiting pipelined", x[0]) || y(Case{secure, 15, x, 5, 2})
							}
							return true
						}
						for _, p := range ph {
							if !rec(append(x[:len(x):len(x)], p)) {
								return false
							}
						}
						return true
					}
					if !rec(nil) {
						return
					}
				}
			}
		}, w.run(ctx))
		ctx.Bound("%d phases of a connection (3 more over HTTP/2), every sequence of up to %d connections, plain and TLS, SIGTERM (SIGINT for fewer connections), completed in the order of the sequence, single connections also after 12 s (thorough 25 s) and after 5 s with limits of 2 s for headers", len(phases), n)
		ctx.Assume("answers that take longer than the server's 30 s grace period are not waited for", "connections on which no complete request has arrived may be closed without an answer")
	})
}
