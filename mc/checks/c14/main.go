// C14: what the client gets for a proxied request. Every upstream answer of an alphabet is played to a
// proxying site, whole, byte by byte, and cut short at every byte (connection closed, reset, or silent from
// there on), on fresh and on reused upstream connections; virtual time decides the timeouts.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"verif/h"
)

// Step is one request and what the upstream does with it.
type Step struct {
	Method string
	Enc    bool // the client accepts gzip itself
	Script int
	Cut    int    // bytes sent before How; -1: all
	How    string // "", close, reset, stall; instead of connecting: refused, nohost
	Pace   int    // milliseconds between bytes
}

// Case is a history of requests.
type Case struct {
	Headers bool // the site sets response headers of its own
	Steps   []Step
	Two     bool // the client speaks HTTP/2
}

const (
	ok = iota
	bad
	short // the header is fine, the body never comes to a proper end
)

type script struct {
	name    string
	head    string // up to and including the blank line, without framing headers of the harness's making
	body    string // as on the wire
	kind    int
	status  int
	content string // the body that is meant
	raw     string // the same without undoing its compression
	hdr     [][2]string
	eof     bool // the end of the connection is the end of the body
	gz      bool
	huge    bool
	tail    string // sent after the answer, unasked
}

func gzipped(s string) string {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Write([]byte(s))
	z.Close()
	return b.String()
}

func chunks(parts ...string) string {
	var b strings.Builder
	for _, p := range parts {
		fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
	}
	return b.String() + "0\r\n\r\n"
}

var scripts = build()

func build() (out []script) {
	add := func(s script) { out = append(out, s) }
	mk := func(name, status string, hdr [][2]string, framing, body, content string) script {
		code, _ := strconv.Atoi(strings.Fields(status)[0])
		h := "HTTP/1.1 " + status + "\r\n"
		for _, x := range hdr {
			h += x[0] + ": " + x[1] + "\r\n"
		}
		return script{name: name, head: h + framing + "\r\n", body: body, status: code, content: content, hdr: hdr}
	}
	cl := func(s string) string { return fmt.Sprintf("Content-Length: %d\r\n", len(s)) }
	p := "page for %ID% with \x00\xff bytes"
	hs := [][2]string{{"Content-Type", "text/x; charset=y"}, {"Set-Cookie", "a=1; Path=/"}, {"Set-Cookie", "b=2"}, {"X-Up", "%ID%"}, {"X-Empty", ""}, {"Server", "up/1"}, {"Cache-Control", "no-cache, no-store"}, {"Content-Security-Policy", "default-src *"}, {"Etag", "\"e\""}, {"Date", "Mon, 01 Jan 2001 00:00:00 GMT"}}
	add(mk("length", "200 OK", hs, cl(p), p, p))
	add(mk("chunked", "200 OK", hs, "Transfer-Encoding: chunked\r\n", chunks(p, "\r\n0\r\n\r\n", "end"), p+"\r\n0\r\n\r\nend"))
	s := mk("until close", "200 OK", hs[:4], "", p, p)
	s.eof = true
	add(s)
	z := gzipped("compressed " + strings.Repeat("x", 50))
	s = mk("gzip length", "200 OK", append(hs[:3:3], [2]string{"Content-Encoding", "gzip"}), cl(z), z, "compressed "+strings.Repeat("x", 50))
	s.gz, s.raw = true, z
	add(s)
	s = mk("gzip chunked", "200 OK", append(hs[:3:3], [2]string{"Content-Encoding", "gzip"}), "Transfer-Encoding: chunked\r\n", chunks(z[:9], z[9:]), "compressed "+strings.Repeat("x", 50))
	s.gz, s.raw = true, z
	add(s)
	big := strings.Repeat("0123456789", 2000)
	add(mk("large", "200 OK", nil, cl(big), big, big))
	add(mk("empty", "200 OK", hs[:2], "Content-Length: 0\r\n", "", ""))
	add(mk("empty chunked", "200 OK", nil, "Transfer-Encoding: chunked\r\n", "0\r\n\r\n", ""))
	for _, c := range []string{"201 Created", "202 Accepted", "206 Partial Content", "301 Moved Permanently", "302 Found", "307 Temporary Redirect", "400 Bad Request", "401 Unauthorized", "403 Forbidden", "404 Not Found", "405 Method Not Allowed", "418 T", "429 Too Many Requests", "500 Internal Server Error", "502 Bad Gateway", "503 Service Unavailable", "599 X", "799 Y"} {
		add(mk(c, c, [][2]string{{"Location", "http://elsewhere.test/%ID%?x=y#z"}, {"Www-Authenticate", "Basic"}, {"Retry-After", "7"}, {"Content-Range", "bytes 0-1/5"}}, cl("error"), "error", "error"))
	}
	add(mk("204", "204 No Content", hs[1:4], "", "", ""))
	add(mk("304", "304 Not Modified", hs[8:], "", "", ""))
	var many [][2]string
	for i := 0; i < 9; i++ {
		for _, k := range []string{"Vary", "Link", "Www-Authenticate", "Warning", "Via", "Cache-Control", "Set-Cookie", "Allow", "Accept-Ranges", "Server", "X-Same", "Age", "Strict-Transport-Security", "Content-Language", "P3p", "X-Frame-Options", "Access-Control-Allow-Origin", "Server-Timing", "Alt-Svc", "Expires", "Pragma", "Last-Modified"} {
			many = append(many, [2]string{k, fmt.Sprintf("%s %d", strings.ToLower(k), i)})
		}
		many = append(many, [2]string{fmt.Sprintf("X-Crowd-%d", i), strings.Repeat("c", 500*i)})
	}
	add(mk("many headers", "200 OK", many, cl(p), p, p))
	add(mk("many headers with an error", "404 Not Found", many, "Transfer-Encoding: chunked\r\n", chunks(p), p))
	for _, c := range []string{"301 Moved Permanently", "404 Not Found", "500 Internal Server Error", "203 X"} {
		add(mk("large "+c, c, hs[:3], cl(big), big, big))
	}
	s = mk("close", "200 OK", append(hs[:2:2], [2]string{"Connection", "close"}), cl("x"), "x", "x")
	add(s)
	s = mk("old", "200 OK", hs[:2], cl("x"), "x", "x")
	s.head = "HTTP/1.0" + s.head[8:]
	add(s)
	s = mk("informational", "200 OK", hs[:2], cl("x"), "x", "x")
	s.head = "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n" + s.head
	add(s)
	s = mk("unasked answer", "200 OK", hs[:2], cl("x"), "x", "x")
	s.tail = "HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nforged"
	add(s)
	s = mk("bare newlines", "200 OK", hs[:2], cl("x"), "x", "x")
	s.head = strings.ReplaceAll(s.head, "\r\n", "\n")
	add(s)
	for _, g := range []string{"\r\n\r\n", "garbage\r\n\r\n", "SSH-2.0-OpenSSH_9\r\n", "\x16\x03\x01\x00\xa5\x01\x00\x00\xa1\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1 2000 OK\r\n\r\n", "HTTP/1.1 -20 OK\r\n\r\n", "HTTP/x.y 200 OK\r\n\r\n", "ICY 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nno colon\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nx", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\nx", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nxy", "HTTP/1.1 200 OK\r\nTransfer-Encoding: x\r\n\r\nx", "HTTP/1.1 200 OK\r\n: v\r\n\r\n", "HTTP/1.1 099 OK\r\nContent-Length: 1\r\n\r\nx", "HTTP/1.1 000 OK\r\nContent-Length: 1\r\n\r\nx"} {
		add(script{name: fmt.Sprintf("not HTTP %q", g), head: g, kind: bad})
	}
	for _, g := range []string{"zz\r\nx\r\n0\r\n\r\n", "-1\r\nx\r\n0\r\n\r\n", "1\r\nxy\r\n0\r\n\r\n", "ffffffffffffffffff\r\nx", "1 \x00\r\nx"} {
		s = mk(fmt.Sprintf("bad chunks %q", g), "200 OK", hs[:2], "Transfer-Encoding: chunked\r\n", g, "x")
		s.kind = short
		add(s)
	}
	s = mk("gzip in name only", "200 OK", [][2]string{{"Content-Encoding", "gzip"}}, cl("not gzip at all"), "not gzip at all", "not gzip at all")
	s.gz, s.kind, s.raw = true, short, s.body
	add(s)
	s = mk("broken gzip", "200 OK", [][2]string{{"Content-Encoding", "gzip"}}, cl(z[:len(z)-9]), z[:len(z)-9], "compressed "+strings.Repeat("x", 50))
	s.gz, s.kind, s.raw = true, short, s.body
	add(s)
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 10<<20 + 1, 33<<20 + 1} {
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "%07x ", i)
		}
		v := b.String()[:n]
		for i, s := range []script{
			mk(fmt.Sprint("huge ", n), "200 OK", hs[:2], cl(v), v, v),
			mk(fmt.Sprint("huge chunked ", n), "404 Not Found", hs[:2], "Transfer-Encoding: chunked\r\n", chunks(v[:100000], v[100000:]), v),
			mk(fmt.Sprint("huge until close ", n), "200 OK", hs[:2], "", v, v),
		} {
			s.huge, s.eof = true, i == 2
			add(s)
		}
	}
	return
}

// wire is what the upstream sends for request id.
func (s script) wire(id int, method string) (head, body string) {
	r := strings.NewReplacer("%ID%", fmt.Sprintf("%04d", id))
	head, body = r.Replace(s.head), r.Replace(s.body)
	if s.kind != bad && method == "HEAD" {
		body = ""
	}
	return
}

type conn struct {
	net.Conn
	mu    sync.Mutex
	reset bool
}

func (c *conn) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	c.mu.Lock()
	defer c.mu.Unlock()
	if err == io.EOF && c.reset {
		err = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	}
	return n, err
}

type world struct {
	mu    sync.Mutex
	c     Case
	tries map[int]int
	log   []string
	bad   string
	wg    sync.WaitGroup
}

func (w *world) dial(context.Context, string, string) (net.Conn, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, st := range w.c.Steps {
		if w.tries[i] == 0 && (i == 0 || w.tries[i-1] > 0) {
			switch st.How {
			case "refused":
				w.tries[i]++
				return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
			case "nohost":
				w.tries[i]++
				return nil, &net.DNSError{Err: "no such host", Name: "up", IsNotFound: true}
			}
			break
		}
	}
	a, b := net.Pipe()
	c := &conn{Conn: a}
	w.wg.Add(1)
	go w.upstream(b, c)
	return c, nil
}

func (w *world) upstream(c net.Conn, far *conn) {
	defer w.wg.Done()
	defer c.Close()
	br := bufio.NewReader(c)
	for k := 0; ; k++ {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		id, _ := strconv.Atoi(r.Header.Get("X-Req"))
		w.mu.Lock()
		st := w.c.Steps[id]
		w.tries[id]++
		try := w.tries[id]
		if r.Method == "POST" && (try > 1 || string(b) != fmt.Sprintf("body %d", id)) {
			w.bad = fmt.Sprintf("a POST request is sent to the upstream twice or without its body\ntry %d: %q", try, b)
		}
		w.log = append(w.log, fmt.Sprintf("%s %s (try %d, request %d of its connection)", r.Method, r.URL, try, k+1))
		w.mu.Unlock()
		s := scripts[st.Script]
		head, body := s.wire(id, r.Method)
		all := head + body
		cut := st.Cut
		if cut < 0 || try > 1 {
			cut = len(all)
		}
		send := func(t string) bool {
			if st.Pace == 0 {
				_, err := io.WriteString(c, t)
				return err == nil
			}
			for i := range []byte(t) {
				time.Sleep(time.Duration(st.Pace) * time.Millisecond)
				if _, err := io.WriteString(c, t[i:i+1]); err != nil {
					return false
				}
			}
			return true
		}
		if !send(all[:cut]) {
			return
		}
		how := st.How
		if try > 1 {
			how = ""
		}
		switch how {
		case "close":
			return
		case "reset":
			far.mu.Lock()
			far.reset = true
			far.mu.Unlock()
			return
		case "stall":
			time.Sleep(10 * time.Minute)
			return
		}
		if s.tail != "" && !send(s.tail) {
			return
		}
		if s.eof || s.kind != ok || strings.HasPrefix(s.head, "HTTP/1.0") || strings.Contains(s.head, "Connection: close") {
			return
		}
	}
}

var own = [][2]string{{"X-Frame-Options", "DENY"}, {"Server", "front"}, {"X-Own", "1"}}

var servers = map[bool]*tuna.Server{}

func server(ctx *h.Ctx, hd bool) *tuna.Server {
	if s := servers[hd]; s != nil {
		return s
	}
	dir := ctx.Dir("site")
	core := h.Core(dir)
	core["LogOut"] = "/dev/null"
	px := h.M{"Enabled": true, "Rules": h.M{"a.test": "http://up"}, "Methods": []string{"GET", "POST", "HEAD"}}
	if hd {
		m := h.M{}
		for _, x := range own {
			m[x[0]] = x[1]
		}
		px["Headers"] = m
	}
	servers[hd] = h.Server(dir, h.M{"Core": core, "Guard": h.Generous(), "Proxy": px})
	return servers[hd]
}

const limit = 8 * time.Second // ReadHeaderTimeout by default

func run(ctx *h.Ctx, bubble func(func())) func(Case) h.Outcome {
	return func(c Case) (o h.Outcome) {
		s := server(ctx, c.Headers)
		orig, isT := s.Transport.(*http.Transport)
		if !isT {
			ctx.Note("the transport of the server is not a *http.Transport; a plain one is used")
			orig = &http.Transport{ResponseHeaderTimeout: limit}
		}
		w := &world{c: c, tries: map[int]int{}}
		bubble(func() {
			t := orig.Clone()
			t.DialContext = w.dial
			s.Transport = t
			front := h.NewFront2(s.Router)
			defer func() {
				front.Stop()
				front.Drained()
				synctest.Wait()
				t.CloseIdleConnections()
				w.wg.Wait()
				s.Transport = orig
			}()
			var cc net.Conn
			var br *bufio.Reader
			var two *h.H2
			for i, st := range c.Steps {
				if cc == nil {
					cc = front.Dial("10.0.0.1:9")
					br = bufio.NewReader(cc)
					if c.Two {
						var err error
						if two, err = h.NewH2(cc, time.Hour); err != nil {
							o.Bad = fmt.Sprintf("an HTTP/2 connection does not begin: %v\nhistory %+v", err, c.Steps)
							break
						}
					}
				}
				synctest.Wait() // what the upstream sends unasked is noticed before the next request
				start := time.Now()
				var a h.Answer
				if c.Two {
					f := h.Get2(st.Method, "a.test", fmt.Sprint("/p", i), "X-Req", fmt.Sprint(i))
					if st.Enc {
						f = append(f, [2]string{"accept-encoding", "gzip"})
					}
					var body []byte
					if st.Method == "POST" {
						f = append(f, [2]string{"content-length", "6"})
						body = fmt.Appendf(nil, "body %d", i)
					}
					cc.SetDeadline(time.Now().Add(time.Hour))
					a = two.Do(f, body)
				} else {
					raw := fmt.Sprintf("%s /p%d HTTP/1.1\r\nHost: a.test\r\nX-Req: %d\r\n", st.Method, i, i)
					if st.Enc {
						raw += "Accept-Encoding: gzip\r\n"
					}
					if st.Method == "POST" {
						raw += fmt.Sprintf("Content-Length: 6\r\n\r\nbody %d", i)
					} else {
						raw += "\r\n"
					}
					go io.WriteString(cc, raw)
					cc.SetDeadline(time.Now().Add(time.Hour))
					a = h.ReadAnswer(br, st.Method)
				}
				took := time.Since(start)
				if a.Err != nil || a.Header.Get("Connection") == "close" {
					cc.Close()
					cc = nil
				}
				w.mu.Lock()
				cl, why := judge(c, i, a, took, w.tries[i])
				if w.bad != "" {
					why = w.bad
				}
				if why != "" {
					sc := scripts[st.Script]
					hd, bd := sc.wire(i, st.Method)
					all := hd + bd
					if len(all) > 500 {
						all = all[:500] + "..."
					}
					o.Bad = fmt.Sprintf("%s\nhistory %+v\nrequest %d: upstream answer %s %q, cut at %d (%s)\nclient got %d %v %q (%v) after %v\nupstream: %v", why, c.Steps, i, sc.name, all, st.Cut, st.How, a.Status, a.Header, a.Body, a.Err, took, w.log)
					o.Key = strings.SplitN(why, "\n", 2)[0]
				}
				w.mu.Unlock()
				o.Class = cl
				if o.Bad != "" {
					break
				}
			}
			if cc != nil {
				cc.Close()
			}
		})
		o.Sig, o.States, o.Transitions = fmt.Sprint(c), len(c.Steps)+1, len(c.Steps)
		o.Sample = fmt.Sprintf("%+v -> %s", c, o.Class)
		return
	}
}

func judge(c Case, i int, a h.Answer, took time.Duration, tries int) (string, string) {
	st := c.Steps[i]
	s := scripts[st.Script]
	head, body := s.wire(i, st.Method)
	all := head + body
	cut := st.Cut
	if cut < 0 || cut > len(all) {
		cut = len(all)
	}
	gateway := a.Err == nil && a.Status == 502 && a.Header.Get("X-Up") == "" && (st.Method == "HEAD" || strings.Contains(string(a.Body), "Error 502"))
	if st.How == "refused" || st.How == "nohost" {
		if tries > 0 && !gateway {
			return "refused", "an upstream that cannot be reached is not answered 502"
		}
		if tries > 0 {
			return "502 no connection", ""
		}
		// the connection of an earlier request was used
		cut = len(all)
	}
	if tries > 1 { // the transport may repeat what an idle connection swallowed
		cut, st.How = len(all), ""
	}
	late := st.Pace > 0 && time.Duration(st.Pace*len(head))*time.Millisecond > limit
	if s.kind == bad || cut < len(head) || late {
		if a.Err == nil && !gateway {
			return "bad", "an upstream that does not answer in HTTP or in time is not answered 502"
		}
		if a.Err != nil {
			return "bad", "an upstream that does not answer in HTTP or in time leaves the client without an answer"
		}
		if took > limit+2*time.Second {
			return "bad", "an upstream that does not answer holds the client for longer than the configured time"
		}
		return "502", ""
	}
	// what the client should get
	want := map[string][]string{}
	r := strings.NewReplacer("%ID%", fmt.Sprintf("%04d", i))
	for _, x := range s.hdr {
		k := http.CanonicalHeaderKey(x[0])
		want[k] = append(want[k], r.Replace(x[1]))
	}
	content := r.Replace(s.content)
	decoded := s.gz && !st.Enc && st.Method != "HEAD"
	if s.gz && !decoded {
		content = s.raw
	}
	if decoded {
		delete(want, "Content-Encoding")
	}
	delete(want, "Connection")
	if c.Headers {
		for _, x := range own {
			want[x[0]] = []string{x[1]}
		}
	}
	if st.Method == "HEAD" {
		content = ""
	}
	incomplete := cut < len(all) && !(s.eof && st.How == "close") || s.kind == short && (!s.gz || decoded) && st.Method != "HEAD" || s.eof && st.How == "reset" && st.Method != "HEAD" || s.eof && st.How == "stall"
	if s.eof && st.How == "stall" && cut == len(all) {
		incomplete = false // silence, then the end of the connection: that is how this body ends
	}
	if s.eof && st.How == "stall" && cut < len(all) {
		incomplete = false // likewise, at a length nobody can check
	}
	if s.gz && decoded && st.How != "" && cut < len(all) {
		incomplete = true
	}
	if incomplete {
		if a.Err == nil && !gateway {
			return "cut", "an incomplete answer of the upstream looks complete to the client"
		}
		if a.Err != nil && a.Status != 0 {
			if !decoded && s.kind != short && !strings.HasPrefix(content, string(a.Body)) {
				return "cut", "an incomplete answer of the upstream reaches the client with other content"
			}
		}
		return "cut short, visibly", ""
	}
	if a.Err != nil {
		return "lost", "a complete answer of the upstream does not reach the client"
	}
	if a.Status != s.status {
		return "status", "the status of the upstream changes on the way"
	}
	got := string(a.Body)
	if s.eof && cut < len(all) {
		content = content[:cut-len(head)]
	}
	if got != content {
		return "body", "the body of the upstream changes on the way"
	}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if fmt.Sprintf("%q", a.Header[k]) != fmt.Sprintf("%q", want[k]) {
			return "headers", fmt.Sprintf("the headers of the upstream change on the way\n%s: got %q, expected %q", k, a.Header[k], want[k])
		}
	}
	for k := range a.Header {
		switch k {
		case "Date", "Content-Type", "Content-Length", "Transfer-Encoding", "Connection", "X-Content-Type-Options":
		default:
			if _, ok := want[k]; !ok {
				return "headers", "the client gets a header that the upstream did not send\n" + k
			}
		}
	}
	return "passed on", ""
}

func main() {
	h.MainBubbled("C14", 8, func(ctx *h.Ctx, bubble func(func())) {
		ctx.Res.Rule = "a case is a history of 1-3 requests with, for each, an upstream answer and where and how it ends; distinct = different cases"
		r := run(ctx, bubble)
		ms := []string{"GET", "HEAD", "POST"}
		h.Enumerate(ctx, "whole answers", func(y func(Case) bool) {
			for i, s := range scripts {
				for _, m := range ms {
					for _, hd := range []bool{false, true} {
						for _, enc := range []bool{false, true} {
							for _, p := range []int{0, 1, 1000} {
								if p > 0 && len(s.body) > 5000 {
									continue
								}
								if !y(Case{hd, []Step{{m, enc, i, -1, "", p}}, false}) {
									return
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "header just in time", func(y func(Case) bool) {
			for i, s := range scripts[:8] {
				hd, bd := s.wire(0, "GET")
				if len(bd) > 5000 {
					continue
				}
				for _, d := range []int{7900, 8100} {
					if !y(Case{false, []Step{{"GET", false, i, -1, "", d / len(hd)}}, false}) {
						return
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "no connection", func(y func(Case) bool) {
			for _, m := range ms {
				for _, how := range []string{"refused", "nohost"} {
					for _, next := range []string{"", "refused"} {
						if !y(Case{false, []Step{{m, false, 0, -1, how, 0}, {m, false, 1, -1, next, 0}, {"GET", false, 0, -1, "", 0}}, false}) {
							return
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "cuts", func(y func(Case) bool) {
			for i, s := range scripts {
				if s.kind == bad || s.huge || i > 7 && !ctx.Thorough() && s.status != 204 && s.name != "informational" && s.name != "old" {
					continue
				}
				for _, m := range ms {
					hd, bd := s.wire(0, m)
					n := len(hd) + len(bd)
					for at := 0; at <= n; at++ {
						if at > 3000 && at%997 != 0 && at != n {
							continue
						}
						for _, how := range []string{"close", "reset", "stall"} {
							for _, warm := range []bool{false, true} {
								if m != "GET" && !ctx.Thorough() && (warm && how != "close" || at > 40 && at%7 != 0 && at < len(hd)-2) {
									continue
								}
								c := Case{false, []Step{{m, false, i, at, how, 0}, {"GET", false, 0, -1, "", 0}}, false}
								if warm {
									c.Steps = append([]Step{{"GET", false, 0, -1, "", 0}}, c.Steps...)
								}
								if !y(c) {
									return
								}
							}
						}
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "sequences", func(y func(Case) bool) {
			for i := range scripts {
				for j := range scripts {
					if scripts[i].huge || scripts[j].huge {
						continue
					}
					if !y(Case{true, []Step{{"GET", false, i, -1, "", 0}, {"GET", true, j, -1, "", 0}}, false}) {
						return
					}
					if !y(Case{false, []Step{{"POST", false, i, -1, "", 0}, {"HEAD", false, j, -1, "", 0}, {"GET", false, 0, -1, "", 0}}, false}) {
						return
					}
				}
			}
		}, r)
		h.Enumerate(ctx, "HTTP/2", func(y func(Case) bool) {
			for i, s := range scripts {
				for _, m := range ms {
					for _, hd := range []bool{false, true} {
						for _, enc := range []bool{false, true} {
							if !y(Case{hd, []Step{{m, enc, i, -1, "", 0}, {"GET", false, 0, -1, "", 0}}, true}) {
								return
							}
						}
					}
					if s.kind == bad || s.huge || i > 7 && !ctx.Thorough() {
						continue
					}
					hd, bd := s.wire(0, m)
					n := len(hd) + len(bd)
					for at := 0; at <= n; at++ {
						if at > 3000 && at%997 != 0 && at != n || at%5 != 0 && at < len(hd)-2 && !ctx.Thorough() {
							continue
						}
						for _, how := range []string{"close", "reset", "stall"} {
							if !y(Case{false, []Step{{m, false, i, at, how, 0}, {"GET", false, 0, -1, "", 0}}, true}) {
								return
							}
						}
					}
				}
			}
			for _, m := range ms {
				for _, how := range []string{"refused", "nohost"} {
					if !y(Case{false, []Step{{m, false, 0, -1, how, 0}, {m, false, 1, -1, "", 0}, {"GET", false, 0, -1, "", 0}}, true}) {
						return
					}
				}
			}
		}, r)
		ctx.Bound("%d upstream answers x 3 methods x pacing; framed answers cut at every byte in 3 ways on fresh and reused connections, followed by another request; all pairs of answers", len(scripts))
		ctx.Assume("an answer whose body lasts until the connection closes cannot be told from a cut one, unless the connection is reset", "net/http retries a request without side effects when a reused connection ends before any answer")
	})
}
