// C25: no request breaks the server. Every form of request is sent to every kind of site through a real HTTP
// server, followed by an ordinary one on the same connection.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"verif/h"
)

// Case is one request of a site or, unless Cut is negative, its beginnings up to Cut bytes.
type Case struct {
	Site int
	Raw  string
	Cut  int
}

// Two is an HTTP/2 request.
type Two struct {
	Site   int
	Fields [][2]string
	Body   int // bytes; -1: none
}

// Large is a request whose target, host or field is Unit, repeated until it has Bytes bytes.
type Large struct {
	Site               int
	Method, Host, Head string
	Unit               string
	Bytes              int
	Field              string
}

var siteNames = []string{"file", "download", "proxy", "vhosts", "few paths", "webdav proxy", "no rooted index"}

type world struct {
	ctx  *h.Ctx
	slow int // failures that took long
	n    int
	up   *h.Front
	site map[int]*front
}

type front struct {
	*h.Front
	mu    sync.Mutex
	panic string
	runs  int
	seen  map[string]bool // the clients of the last runs
}

// ServeHTTP notices panics of the handler.
func (f *front) wrap(hd http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer func() {
			if p := recover(); p != nil {
				f.mu.Lock()
				f.panic = fmt.Sprint(p)
				f.mu.Unlock()
				panic(http.ErrAbortHandler)
			}
		}()
		f.mu.Lock()
		f.runs++
		if len(f.seen) > 1000 {
			f.seen = nil
		}
		if f.seen == nil {
			f.seen = map[string]bool{}
		}
		f.seen[r.RemoteAddr] = true
		f.mu.Unlock()
		hd.ServeHTTP(w, r)
	})
}

func (f *front) state() (string, int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	p, n := f.panic, f.runs
	f.panic, f.runs = "", 0
	return p, n
}

func (w *world) get(n int) *front {
	if w.site[n] != nil {
		return w.site[n]
	}
	if w.up == nil {
		w.up = h.NewFront(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			rw.Header().Set("Content-Type", "text/plain")
			fmt.Fprintf(rw, "up %s %d", r.Method, len(b))
		}))
	}
	dir := w.ctx.Dir("site")
	h.Put(dir+"/www/index.html", "INDEX")
	h.Put(dir+"/www/ok.txt", "OK")
	h.Put(dir+"/www/sub/index.html", "SUB")
	h.Put(dir+"/www/locked.txt", "x")
	os.Chmod(dir+"/www/locked.txt", 0)
	h.Put(dir+"/e404.html", "<p>gone</p>")
	core := h.Core(dir)
	core["LogOut"], core["LogLevel"] = dir+"/log", 3
	core["TLS"] = h.M{"Enabled": true, "TLSCert": "x", "TLSKey": "x"}
	core["Metrics"] = h.M{"Enabled": true, "Path": "/metrics", "Out": dir + "/metrics.json", "Users": h.M{"u": "p"}}
	fw := h.M{"Rate": 600000000, "RateBurst": 1000000, "Firewall": h.M{"Enabled": true, "Blacklisting": true, "Subpath": true, "Rules": h.M{"/no": []string{"10.0.0.1"}, "up.test": []string{"10.0.0.66"}}}}
	errs := h.M{"404": dir + "/e404.html", "405": dir + "/missing"}
	serve := h.M{"Serve": h.M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Headers": h.M{"X-A": "b"}, "Methods": h.M{"/": "GET;HEAD;POST", "/sub/": "GET", "/ok.txt": "GET;HEAD"}, "MIMETypes": h.M{"RequestTypes": h.M{"/sub/": "*"}}}, "Guard": fw, "Errors": errs}
	down := h.M{"Serve": h.M{"ServeDir": dir + "/www/", "ServeIndex": "/list", "Download": h.M{"Enabled": true, "Exts": []string{".txt"}}}, "Guard": fw, "Errors": errs}
	proxy := func(m ...string) h.M {
		return h.M{"Proxy": h.M{"Enabled": true, "Methods": m, "Rules": h.M{"a.test": "http://up.test", "::1": "http://up.test/base", "bad.test": "http://[::1", "bad2.test": ":", "bad3.test": "", "bad4.test": "ftp://x", "bad5.test": "http://a b"}}, "Guard": fw, "Errors": errs}
	}
	cfg := h.M{"Core": core}
	with := func(m h.M) {
		for k, v := range m {
			cfg[k] = v
		}
	}
	switch siteNames[n] {
	case "file":
		with(serve)
	case "download":
		with(down)
	case "proxy":
		with(proxy("GET", "POST", "HEAD", "OPTIONS", "CONNECT"))
	case "webdav proxy":
		core["WebDAV"] = true
		with(proxy("GET", "PROPFIND", "PUT", "OPTIONS"))
	case "vhosts":
		core["VirtualHosting"] = true
		core["VirtualHosts"] = h.M{"a.test": h.PutJSON(dir+"/a.json", serve), "d.test": h.PutJSON(dir+"/d.json", down), "p.test": h.PutJSON(dir+"/p.json", h.M{"Guard": fw, "Errors": errs, "Proxy": h.M{"Enabled": true, "Methods": []string{"GET", "POST"}, "Rules": h.M{"p.test": "http://up.test", "q.test": "http://up.test"}}})}
	case "few paths":
		with(serve)
		cfg["Serve"] = h.M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": h.M{"/ok.txt": "GET", "/sub": "GET;POST"}}
	case "no rooted index":
		with(serve)
		cfg["Serve"] = h.M{"ServeDir": dir + "/www", "ServeIndex": "none.html", "Methods": h.M{"/": "GET;HEAD;POST;PUT;DELETE;OPTIONS;CONNECT;PATCH"}, "MIMETypes": h.M{"RequestTypes": h.M{"/": "*"}}}
	}
	s := h.Server(dir, cfg)
	h.Dialer(s, func(ctx context.Context, network, addr string) (net.Conn, error) {
		return w.up.Dial("10.9.9.9:1"), nil
	})
	f := &front{}
	f.Front = h.NewFront2(f.wrap(s.Router))
	w.site[n] = f
	return f
}

// probes are ordinary requests: host, target, wanted body
var probes = map[string][3]string{"file": {"a.test", "/ok.txt", "OK"}, "download": {"a.test", "/ok.txt", "OK"}, "proxy": {"a.test", "/x", "up GET 0"}, "webdav proxy": {"a.test", "/x", "up GET 0"},
	"vhosts": {"a.test", "/ok.txt", "OK"}, "few paths": {"a.test", "/ok.txt", "OK"}, "no rooted index": {"a.test", "/ok.txt", "OK"}}

// reader keeps what was read.
type reader struct {
	r   io.Reader
	all bytes.Buffer
}

func (r *reader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	r.all.Write(b[:n])
	return n, err
}

var allowed = map[int]bool{200: true, 206: true, 301: true, 304: true, 400: true, 401: true, 403: true, 404: true, 405: true, 406: true, 412: true, 413: true, 414: true, 416: true, 417: true, 431: true, 501: true, 505: true}

func (w *world) run(c Case) h.Outcome {
	if w.slow > 2 {
		return h.Outcome{Class: "not sent, as the server hangs"}
	}
	f := w.get(c.Site)
	f.state()
	begin := time.Now()
	pr := probes[siteNames[c.Site]]
	probe := "GET " + pr[1] + " HTTP/1.1\r\nHost: " + pr[0] + "\r\n\r\n"
	conn := f.Dial("10.0.0.1:99")
	limit := 10 * time.Second
	if len(c.Raw) > 20000 {
		limit = 25 * time.Second // what a client may send takes milliseconds
	}
	conn.SetDeadline(time.Now().Add(limit))
	rd := &reader{r: conn}
	br := bufio.NewReader(rd)
	method := strings.SplitN(c.Raw, " ", 2)[0]
	fail := func(s string) h.Outcome {
		conn.Close()
		if time.Since(begin) > 5*time.Second {
			w.slow++
		}
		o := rd.all.String()
		if len(o) > 600 {
			o = o[:600]
		}
		return h.Outcome{Class: "differs", Key: siteNames[c.Site] + ": " + s, Bad: fmt.Sprintf("%s\n%s site: %q cut at %d\nanswer %q", s, siteNames[c.Site], c.Raw, c.Cut, o)}
	}
	fine := func(br *bufio.Reader) bool {
		a := h.ReadAnswer(br, "GET")
		return a.Err == nil && a.Status == 200 && string(a.Body) == pr[2]
	}
	again := func() bool {
		k := f.Dial("10.0.0.2:99")
		defer k.Close()
		k.SetDeadline(time.Now().Add(10 * time.Second))
		go io.WriteString(k, probe)
		return fine(bufio.NewReader(k))
	}
	if c.Cut >= 0 {
		// clients go away after every byte up to Cut
		conn.Close()
		var wg sync.WaitGroup
		for i := 0; i <= c.Cut; i++ {
			k := f.Dial("10.0.0.1:99")
			k.SetDeadline(time.Now().Add(10 * time.Second))
			wg.Add(1)
			go func() {
				defer wg.Done()
				go io.Copy(io.Discard, k)
				io.WriteString(k, c.Raw[:i])
				k.Close()
			}()
		}
		wg.Wait()
		f.Drained()
		if p, _ := f.state(); p != "" {
			return fail("the handler crashes: " + p)
		}
		if !again() {
			return fail("the server does not answer after a client went away")
		}
		return h.Outcome{Class: "went away", Sig: fmt.Sprint(c), States: c.Cut + 1, Transitions: c.Cut + 1, Sample: fmt.Sprintf("%+v", c)}
	}
	go io.WriteString(conn, c.Raw+probe)
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	for err == nil && resp.StatusCode == 100 {
		resp, err = http.ReadResponse(br, &http.Request{Method: method})
	}
	if err != nil {
		p, n := f.state()
		if p != "" {
			return fail("the handler crashes: " + p)
		}
		return fail(fmt.Sprintf("a request gets no answer: %v (%d handler runs)", err, n))
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return fail("an answer is not complete: " + err.Error())
	}
	p, runs := f.state()
	if p != "" {
		return fail("the handler crashes: " + p)
	}
	if !allowed[resp.StatusCode] && (resp.StatusCode != 502 || !strings.Contains(c.Raw, "bad")) {
		return fail(fmt.Sprint("a request is answered ", resp.StatusCode))
	}
	if strings.Contains(string(body), "HTTP/1.") {
		return fail("an answer contains another")
	}
	o := h.Outcome{Class: fmt.Sprint(siteNames[c.Site], " ", resp.StatusCode), Sig: fmt.Sprint(c), States: 2, Transitions: 2, Sample: fmt.Sprintf("%s %q -> %d", siteNames[c.Site], c.Raw, resp.StatusCode)}
	if resp.Close || resp.Proto == "HTTP/1.0" && !strings.EqualFold(resp.Header.Get("Connection"), "keep-alive") {
		// what the library refuses, it may keep open for a moment
		if runs == 0 {
		} else if rest, _ := io.ReadAll(br); len(rest) > 0 {
			return fail("bytes follow the last answer of a connection")
		}
		conn.Close()
		if !again() {
			return fail("the server does not answer afterwards")
		}
		return o
	}
	if !fine(br) {
		return fail("the request after it is not answered as usual")
	}
	conn.Close()
	return o
}

// two sends an HTTP/2 request, and an ordinary one on the same connection.
func (w *world) two(c Two) h.Outcome {
	if w.slow > 2 {
		return h.Outcome{Class: "not sent, as the server hangs"}
	}
	f := w.get(c.Site)
	f.state()
	begin := time.Now()
	pr := probes[siteNames[c.Site]]
	fail := func(s string) h.Outcome {
		if time.Since(begin) > 5*time.Second {
			w.slow++
		}
		b := fmt.Sprintf("%q", c.Fields)
		if len(b) > 1500 {
			b = b[:1500]
		}
		return h.Outcome{Class: "differs", Key: siteNames[c.Site] + ": HTTP/2: " + s, Bad: fmt.Sprintf("HTTP/2: %s\n%s site: %s, body of %d", s, siteNames[c.Site], b, c.Body)}
	}
	fine := func(k *h.H2) bool {
		a := k.Do(h.Get2("GET", pr[0], pr[1]), nil)
		return a.Err == nil && a.Status == 200 && string(a.Body) == pr[2]
	}
	w.n++
	me := fmt.Sprint("10.0.0.3:", w.n) // a handler of a broken request can run later than its case
	conn, err := h.NewH2(f.Dial(me), 10*time.Second)
	if err != nil {
		return fail("no connection: " + err.Error())
	}
	defer conn.Conn.Close()
	var body []byte
	if c.Body >= 0 {
		body = bytes.Repeat([]byte("b"), c.Body)
	}
	odd := false
	for _, x := range c.Fields {
		odd = odd || x[0] == "content-length" && x[1] != fmt.Sprint(len(body))
	}
	a := conn.Do(c.Fields, body)
	f.mu.Lock()
	ran := f.seen[me]
	f.mu.Unlock()
	p, _ := f.state()
	switch {
	case p != "":
		return fail("the handler crashes: " + p)
	case odd: // not a request, as its body has not the announced length
	case a.Err != nil && ran:
		return fail("a request gets no answer: " + a.Err.Error())
	case a.Err == nil && !allowed[a.Status] && (a.Status != 502 || !strings.Contains(fmt.Sprint(c.Fields), "bad")):
		return fail(fmt.Sprint("a request is answered ", a.Status))
	case a.Err == nil && !ran && a.Status < 400 && !strings.Contains(fmt.Sprint(c.Fields), "[:path *]"):
		return fail("an answer that no handler gave")
	}
	if a.Err != nil || odd {
		if conn, err = h.NewH2(f.Dial("10.0.0.2:99"), 10*time.Second); err != nil {
			return fail("no connection afterwards: " + err.Error())
		}
		defer conn.Conn.Close()
	}
	if !fine(conn) {
		return fail("the request after it is not answered as usual")
	}
	return h.Outcome{Class: fmt.Sprint(siteNames[c.Site], " HTTP/2 ", a.Status), Sig: fmt.Sprint(c), States: 2, Transitions: 2, Sample: fmt.Sprintf("%s %q -> %d %v", siteNames[c.Site], c.Fields, a.Status, a.Err)}
}

func main() {
	h.Main("C25", 8, func(ctx *h.Ctx) {
		ctx.Res.Rule = "a case is a request (or its beginning) to a site, followed by an ordinary request; distinct = different site, bytes and cut"
		w := &world{ctx: ctx, site: map[int]*front{}}
		methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "PROPFIND", "get", "X-!#$"}
		targets := []string{"/", "/ok.txt", "/sub", "/sub/", "//", "///ok.txt", "/.", "/..", "/../", "/./", "/%2e%2e/", "/%2f", "/%00", "/%0d%0a", "/%ff", "/a%", "/\x80", "/é", "*", "", "ok.txt", "?", "?x", "#", "/#", "/?", "/?%zz", "/??", "/;", "/metrics", "/metrics/", "/no", "/no/x", "/list", "/locked.txt", "/index.html",
			"http://a.test", "http://a.test/", "http://a.test?x", "http://a.test/ok.txt", "http://", "http:///", "http:/ok.txt", "http:ok.txt", "http:", "https://a.test:443/", "ftp://a.test/", "a.test:80", "a.test", "[::1]:80", ":80", ":", "//a.test/x", "///", "/a//b//", "/a/../../b", "/" + strings.Repeat("a/", 60), "/" + strings.Repeat("x", 5000), "mailto:x@y", "http://u:p@a.test/", "http://a.test:99999/", "http://[::1]/", "http://a%2ftest/", "data:,x"}
		hosts := []string{"a.test", "d.test", "bad.test", "bad2.test", "bad3.test", "bad4.test", "bad5.test", "p.test", "q.test", "", "A.TEST", "a.test:80", "a.test:", "a.test.", ".a.test", "[::1]", "[::1]:80", "::1", "::1:80", "[::1", "[:80", "]:[", "[", "]", "[]", "[]:", ":", ":80", "::", "x", "a.test:80:80", "a.test/b", "DEFAULT", "\x00", "*", "a test", "é.test", strings.Repeat("h", 3000), "%2e", "a.test:abc", "a.test, b.test", "127.0.0.1"}
		fields := []string{"", "Content-Type: \r\n", "Content-Type: ;\r\n", "Content-Type: text/html;charset\r\n", "Content-Type: ;;;a=b\r\n", "Content-Type: /\r\nContent-Type: x/y\r\n", "Authorization: \r\n", "Authorization: Basic\r\n", "Authorization: Basic ====\r\n", "Authorization: Basic dTpw\r\n", "Authorization: Basic dQ==\r\n", "Authorization: Bearer x\r\n", "Authorization: Basic dTpw\r\nAuthorization: x\r\n",
			"Range: bytes=0-\r\n", "Range: bytes=-1\r\n", "Range: bytes=5-1,,\r\n", "Range: x\r\n", "Range: bytes=99999999999999999999-\r\n", "Range: bytes=" + strings.Repeat("0-0,", 300) + "1-\r\n", "If-Modified-Since: x\r\n", "If-None-Match: W/\r\n", "If-Range: \"\r\nRange: bytes=0-0\r\n",
			"Transfer-Encoding: chunked\r\n", "Transfer-Encoding: x\r\n", "Content-Length: 3\r\n", "Content-Length: 0\r\n", "Content-Length: -1\r\n", "Content-Length: 3\r\nContent-Length: 3\r\n", "Content-Length: 3\r\nContent-Length: 4\r\n", "Content-Length: 3\r\nTransfer-Encoding: chunked\r\n", "Expect: 100-continue\r\nContent-Length: 3\r\n", "Expect: x\r\n",
			"Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: x\r\nSec-WebSocket-Version: 13\r\n", "Upgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: AAMAAABkAARAAAAAAAIAAAAA\r\n", "Connection: close\r\n", "Connection: keep-alive\r\n", "Connection: x, y\r\nX: 1\r\n", "Trailer: X\r\nTransfer-Encoding: chunked\r\n", "TE: trailers\r\n", "User-Agent: " + strings.Repeat("u", 9000) + "\r\n", "User-Agent: \r\n", "User-Agent: \x80\xff\r\n", "X-Forwarded-For: 10.0.0.66\r\n", "Referer: x\r\nCookie: a=b; c\r\n", "Host: b.test\r\n", "X: \x7f\r\n", " X: y\r\n", "X : y\r\n", ": y\r\n", "X\r\n", "X: a\r\n b\r\n", strings.Repeat("X: y\r\n", 40), "Accept-Encoding: gzip, br\r\n", "Proxy-Connection: keep-alive\r\nProxy-Authorization: Basic x\r\n", "X-HTTP-Method-Override: DELETE\r\n"}
		body := func(f string) string {
			switch {
			case strings.Contains(f, "chunked"):
				return "3\r\nabc\r\n0\r\n\r\n"
			case strings.Contains(f, "Content-Length: 3"):
				return "abc"
			}
			return ""
		}
		req := func(m, t, v, host, f string) string {
			hl := ""
			if host != "-" {
				hl = "Host: " + host + "\r\n"
			}
			return m + " " + t + " " + v + "\r\n" + hl + f + "\r\n" + body(f)
		}
		h.Enumerate(ctx, "targets and hosts", func(y func(Case) bool) {
			for s := range siteNames {
				for _, m := range methods {
					for _, t := range targets {
						for i, host := range hosts {
							if !ctx.Thorough() && (i > 14 && (m != "GET" && m != "CONNECT" || s > 3) || i > 6 && m != "GET" && m != "CONNECT" && m != "OPTIONS" && siteNames[s] != "vhosts") {
								continue
							}
							if !y(Case{s, req(m, t, "HTTP/1.1", host, ""), -1}) {
								return
							}
						}
						for _, v := range []string{"HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/1.2", "http/1.1", ""} {
							if v != "HTTP/1.0" && !ctx.Thorough() && (s > 0 || m != "GET" && m != "CONNECT" && m != "PROPFIND") {
								continue
							}
							for _, host := range []string{"a.test", "-"} {
								if !y(Case{s, req(m, t, v, host, ""), -1}) {
									return
								}
							}
						}
					}
				}
			}
		}, w.run)
		h.Enumerate(ctx, "HTTP/2", func(y func(Two) bool) {
			odd := append([]string{"a.test/b", "DEFAULT", "DEFAULT/sub", "a.test/ok", "/", "//", "a.test//x", "a.test/../b", "a test", "a.test IP=1", "a\"b", "<b>", "a%b", "a\tb", "a\\b", "?", "#", "a?b", "\xff", "a.test\x80", strings.Repeat("/a", 3000)}, hosts...)
			set := func(fs [][2]string, more string) [][2]string {
				for _, l := range strings.Split(more, "\r\n") {
					if k, v, ok := strings.Cut(l, ": "); ok {
						fs = append(fs, [2]string{strings.ToLower(k), v})
					}
				}
				return fs
			}
			for s := range siteNames {
				for _, m := range append([]string{"", "g et", "CONNECT"}, methods...) {
					for _, t := range targets {
						for i, host := range odd {
							if !ctx.Thorough() && (i > 3 && m != "GET" && t != "/ok.txt" || i > 25 && (s > 3 || m != "GET")) {
								continue
							}
							if !y(Two{s, h.Get2(m, host, t), -1}) {
								return
							}
						}
					}
					for _, t := range []string{"/ok.txt", "/metrics", "/no", "/"} {
						for _, f := range fields {
							for _, n := range []int{-1, 0, 3, 100000} {
								if !ctx.Thorough() && (m != "GET" && m != "POST" && m != "HEAD" && m != "OPTIONS" || n > 3 && m != "POST") {
									continue
								}
								if !y(Two{s, set(h.Get2(m, "a.test", t), f), n}) {
									return
								}
							}
						}
					}
				}
				// fields that are missing, double or out of order
				base := h.Get2("GET", "a.test", "/ok.txt", "X", "y", "Host", "b.test", "Cookie", "a=b", "Cookie", "c=d")
				for i := range base {
					for j := -1; j < len(base); j++ {
						fs := append([][2]string{}, base...)
						if j < 0 {
							fs = append(fs[:i], fs[i+1:]...)
						} else if i == j {
							fs = append(fs, fs[i])
						} else {
							fs[i], fs[j] = fs[j], fs[i]
						}
						if !y(Two{s, fs, -1}) || !y(Two{s, fs, 5}) {
							return
						}
					}
				}
				for _, u := range []string{"/p", "/", "/..", "/../p", "%2f", "?", "a"} {
					for _, n := range []int{30000, 900000} {
						if !y(Two{s, h.Get2("GET", "a.test", "/"+strings.Repeat(u, n/len(u))), -1}) || !y(Two{s, h.Get2("GET", strings.Repeat(u, n/len(u)), "/ok.txt"), -1}) {
							return
						}
					}
				}
			}
		}, w.two)
		h.Enumerate(ctx, "as large as a request can be", func(y func(Large) bool) {
			for s := range siteNames {
				for _, n := range []int{30000, 900000} {
					for _, u := range []string{"/p", "/", "/..", "/.", "/../p", "%2f", "/%2e%2e", "/%2e", "?", "/?", "a", ";", "/a;b", "/a%20b", ":", "&a=b", "%00", "é", ".", "no/", "sub/", "metrics/"} {
						for _, m := range []string{"GET", "POST", "PROPFIND"} {
							for _, host := range []string{"a.test", "d.test", "p.test"} {
								if s != 3 && host != "a.test" || m == "PROPFIND" && s != 5 && !ctx.Thorough() {
									continue
								}
								for _, head := range []string{"/", "/no/", "/sub/", "/metrics/"} {
									if !y(Large{s, m, host, head, u, n, ""}) {
										return
									}
								}
							}
						}
					}
					for _, u := range []string{"h", "h.", ":", "[", "]", "[]", "1:", ".", "h:", "-", "%2e", "9"} {
						if !y(Large{s, "GET", "", "/ok.txt", u, n, "Host"}) {
							return
						}
					}
					for _, f := range []string{"Content-Type", "Authorization", "Range", "If-None-Match", "If-Modified-Since", "X-Forwarded-For", "User-Agent", "Cookie", "Accept-Encoding", "Accept", "Connection", "Expect", "Referer", "Upgrade", "TE", "X"} {
						for _, u := range []string{"a", ";", ",", "a/b;", "a, ", "bytes=0-0,", "0-0,", "\"", "\"x\", ", "=", "Basic ", "dTpw", "10.0.0.1, ", " ", "a=b; ", ":", "/", "x\r\n " + "y", "x\r\n" + f + ": y"} {
							if !y(Large{s, "GET", "a.test", "/ok.txt", u, n, f}) {
								return
							}
						}
					}
				}
			}
		}, func(c Large) h.Outcome {
			rep := strings.Repeat(c.Unit, c.Bytes/len(c.Unit))
			head, host := "", c.Host
			target := c.Head
			switch c.Field {
			case "":
				target += rep
			case "Host":
				host = rep
			default:
				head = c.Field + ": " + rep + "\r\n"
			}
			o := w.run(Case{c.Site, c.Method + " " + target + " HTTP/1.1\r\nHost: " + host + "\r\n" + head + "\r\n", -1})
			o.Sig, o.Sample = fmt.Sprintf("%+v", c), fmt.Sprintf("%+v -> %s", c, o.Class)
			if len(o.Bad) > 1500 {
				o.Bad = fmt.Sprintf("%s\n%+v", o.Key, c)
			}
			return o
		})
		short := []string{"/", "/ok.txt", "/sub/", "/metrics", "/no", "/none", "*", "http://a.test", "/list", "//"}
		h.Enumerate(ctx, "headers and bodies", func(y func(Case) bool) {
			for s := range siteNames {
				for _, m := range methods {
					for _, t := range short {
						for i, a := range fields {
							for _, host := range []string{"a.test", "p.test", "d.test"} {
								if s != 3 && host != "a.test" {
									continue
								}
								if !y(Case{s, req(m, t, "HTTP/1.1", host, a), -1}) || (s < 3 || ctx.Thorough()) && !y(Case{s, req(m, t, "HTTP/1.0", host, a), -1}) {
									return
								}
								for j, b := range fields {
									if i == 0 || j == 0 || i == j || body(a) != "" && body(b) != "" || !ctx.Thorough() && (m != "GET" && m != "POST" || t != "/ok.txt" && t != "/metrics" || s > 3) {
										continue
									}
									if !y(Case{s, req(m, t, "HTTP/1.1", host, a+b), -1}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, w.run)
		h.Enumerate(ctx, "clients that go away", func(y func(Case) bool) {
			for s := range siteNames {
				for _, m := range []string{"GET", "POST"} {
					for _, t := range short {
						for _, f := range []string{"", "Content-Length: 3\r\n", "Transfer-Encoding: chunked\r\n", "Authorization: Basic dTpw\r\n", "Expect: 100-continue\r\nContent-Length: 3\r\n"} {
							r := req(m, t, "HTTP/1.1", "a.test", f)
							if !y(Case{s, r, len(r)}) {
								return
							}
						}
					}
				}
			}
		}, w.run)
		ctx.Bound("%d sites x %d methods x %d targets x %d hosts (quick: fewer for most sites and methods) and 6 versions; %d header fields alone and in pairs (quick: pairs for 2 methods and targets); 100 requests per site cut at every byte", len(siteNames), len(methods), len(targets), len(hosts), len(fields))
		ctx.Assume("bytes that are no HTTP request are the HTTP library's to refuse", "the upstream answers every request")
	})
}
